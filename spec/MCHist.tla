---------------------------------- MODULE MCHist ----------------------------------
(* Histories of library calls on two accumulators, for execution by the real  *)
(* library.  An accumulator is the pair representation of Rep.tla in integers *)
(* (offset of each primary, carry of each bin), of the real formats; states   *)
(* are told apart only by where in the representation they are (View), and    *)
(* every transition between those that is met prints the history leading to   *)
(* it.  harness/hist.py has these executed, and Trace.tla judges what is      *)
(* observed; the invariant here is only that the pairs stand for the abstract *)
(* accumulator and have room.                                                 *)
EXTENDS Binned, Sequences, TLC
CONSTANTS Fmt,     \* "d" or "s"
          K, Base, \* fold; the bin the largest numbers go to
          Depth
F == IF Fmt = "d" THEN FD ELSE FS
VARIABLES a, b, n, h, q
vars == <<a, b, n, h, q>>

(* the numbers, as <<name, sign, exponent of the leading bit>> *)
Top(g) == F.emax - F.w * g - 1
Names == {"full", "one", "odd", "tie"}
Data == {<<"full", 0, Top(Base)>>, <<"full", 1, Top(Base)>>, <<"one", 0, Top(Base + 1) + 1>>, <<"tie", 1, Top(Base + 1)>>,
         <<"odd", 0, Top(Base + 1)>>, <<"full", 1, Top(Base + 2)>>, <<"one", 1, BinE(F, Base + 1) - 1>>, <<"zero", 0, 0>>}
Use == {x \in Data : x[1] = "zero" \/ (x[3] <= F.emax - 1 /\ x[3] >= Qexp(F) + F.p - 1)}
Odd == {<<"inf", 0, 0>>, <<"inf", 1, 0>>, <<"nan", 0, 0>>}
Val(x) ==
  LET s(m, e) == Fin(IF x[2] = 1 THEN ZNeg(m) ELSE m, e)
      lead == ZShl(ZOne, F.p - 1)
      e0 == x[3] - (F.p - 1)
  IN  CASE x[1] = "full" -> s(ZSub(ZShl(ZOne, F.p), ZOne), e0)
        [] x[1] = "one" -> s(lead, e0)
        [] x[1] = "odd" -> s(ZAdd(lead, ZOne), e0)
        [] x[1] = "tie" -> s(ZAdd(lead, ZShl(ZOne, F.p - 2 - F.w)), e0)     \* half a last place of the bin is left over
        [] x[1] = "zero" -> FZero
        [] x[1] = "inf" -> <<IF x[2] = 1 THEN "N" ELSE "P">>
        [] x[1] = "nan" -> <<"X">>

(* pairs *)
E0 == [k |-> "0", i |-> 0, o |-> <<>>, c |-> <<>>]
PRaise(x, g) ==
  CASE x.k = "0" -> [k |-> "f", i |-> g, o |-> ZeroT(K), c |-> ZeroT(K)]
    [] x.k = "f" /\ x.i > g -> [x EXCEPT !.i = g, !.o = [j \in 1..K |-> IF j <= x.i - g THEN ZZero ELSE x.o[j - (x.i - g)]],
                                                  !.c = [j \in 1..K |-> IF j <= x.i - g THEN ZZero ELSE x.c[j - (x.i - g)]]]
    [] OTHER -> x
PKind(x, k) == LET r == AddKind(IF x.k \in {"0", "f"} THEN "f" ELSE x.k, k) IN IF r = "f" THEN x ELSE [E0 EXCEPT !.k = r]
PDep(x, v, m) == IF x.k # "f" \/ ~IsFin(v) THEN PKind(x, v[1])
                 ELSE LET s == Slices(F, K, x.i, v) IN [x EXCEPT !.o = [j \in 1..K |-> ZAdd(@[j], ZMul(ZOfInt(m), s[j]))]]
Fl(z) == IF z[1] >= 0 THEN ZShr(z, F.p - 3) ELSE ZNeg(ZShr(ZAdd(ZNeg(z), ZSub(ZShl(ZOne, F.p - 3), ZOne)), F.p - 3))
PRen(x) == IF x.k # "f" THEN x
           ELSE [x EXCEPT !.c = [j \in 1..K |-> ZAdd(@[j], Fl(x.o[j]))],
                          !.o = [j \in 1..K |-> ZSub(@[j], ZShl(Fl(x.o[j]), F.p - 3))]]
PMerge(x, y) ==
  CASE y.k = "0" -> x
    [] x.k = "0" -> y
    [] x.k # "f" \/ y.k # "f" -> PKind(x, IF y.k = "f" THEN "f" ELSE y.k)
    [] OTHER -> LET g == FMin2(x.i, y.i)
                    u == PRaise(x, g)
                    v == PRaise(y, g)
                IN  PRen([u EXCEPT !.o = [j \in 1..K |-> ZAdd(@[j], v.o[j])], !.c = [j \in 1..K |-> ZAdd(@[j], v.c[j])]])
PNeg(x) == CASE x.k = "f" -> [x EXCEPT !.o = [j \in 1..K |-> ZNeg(@[j])], !.c = [j \in 1..K |-> ZNeg(@[j])]]
             [] x.k = "P" -> [x EXCEPT !.k = "N"]
             [] x.k = "N" -> [x EXCEPT !.k = "P"]
             [] OTHER -> x
PAdd(x, v) == PRen(PDep(PRaise(x, Idx(F, v)), v, 1))

Init == a = E0 /\ b = E0 /\ n = 0 /\ h = <<>> /\ q = 0
Do(ev) == q < Depth /\ q' = q + 1 /\ h' = Append(h, ev)
DoUpdate(x) == Do(<<"update", x>>) /\ a' = PRaise(a, Idx(F, Val(x))) /\ UNCHANGED <<b, n>>
DoDeposit(x) == /\ a.k = "f" /\ n < Endurance(F) /\ IsFin(Val(x)) /\ a.i <= Idx(F, Val(x))
              /\ Do(<<"deposit", x>>) /\ a' = PDep(a, Val(x), 1) /\ n' = n + 1 /\ UNCHANGED b
DoFill(x) == /\ a.k = "f" /\ n < Endurance(F) /\ a.i <= Idx(F, Val(x)) /\ x[1] # "zero"
           /\ Do(<<"fill", x, Endurance(F) - n>>) /\ a' = PDep(a, Val(x), Endurance(F) - n) /\ n' = Endurance(F) /\ UNCHANGED b
DoRenorm == a.k # "0" /\ Do(<<"renorm">>) /\ a' = PRen(a) /\ n' = 0 /\ UNCHANGED b
DoAdd(x) == n = 0 /\ Do(<<"add", x>>) /\ a' = PAdd(a, Val(x)) /\ UNCHANGED <<b, n>>
DoVec(x, y, m) == n = 0 /\ Do(<<"sum", x, y, m>>) /\ UNCHANGED <<b, n>>
                /\ a' = PRen(PDep(PDep(PRaise(a, FMin2(Idx(F, Val(x)), Idx(F, Val(y)))), Val(x), m), Val(y), 1))
DoMerge == n = 0 /\ Do(<<"merge">>) /\ a' = PMerge(a, b) /\ UNCHANGED <<b, n>>
DoNegate == n = 0 /\ a.k # "0" /\ Do(<<"negate">>) /\ a' = PRen(PNeg(a)) /\ UNCHANGED <<b, n>>
DoCopy == n = 0 /\ Do(<<"copy">>) /\ b' = a /\ UNCHANGED <<a, n>>
DoSwap == n = 0 /\ a # b /\ Do(<<"swap">>) /\ a' = b /\ b' = a /\ UNCHANGED n
DoZero == a.k # "0" /\ Do(<<"zero">>) /\ a' = E0 /\ n' = 0 /\ UNCHANGED b
DoOfNum(x) == Do(<<"ofnum", x>>) /\ a' = PAdd(E0, Val(x)) /\ n' = 0 /\ UNCHANGED b
Next == /\ \/ \E x \in Use : DoUpdate(x) \/ DoDeposit(x) \/ DoFill(x) \/ DoAdd(x)
           \/ \E x \in Odd : DoAdd(x)
           \/ \E x \in Use \ {<<"zero", 0, 0>>} : DoVec(x, <<"odd", 0, Top(Base + 1)>>, 3)
           \/ DoOfNum(<<"tie", 1, Top(Base + 1)>>)
           \/ DoRenorm \/ DoMerge \/ DoNegate \/ DoCopy \/ DoSwap \/ DoZero
        /\ PrintT(<<"H", h'>>)
Spec_ == Init /\ [][Next]_vars

Sg(z) == z[1]
Where(o) == IF o[1] = 0 THEN "0" ELSE ToString(Fl(o))     \* which quarter of its binade the primary is in
Class(x) == IF x.k # "f" THEN <<x.k>> ELSE <<x.i, [j \in 1..K |-> <<Where(x.o[j]), Sg(x.c[j])>>]>>
View == <<Class(a), Class(b), IF n = 0 THEN 0 ELSE IF n < Endurance(F) THEN 1 ELSE 2, q>>
(* offsets stay within the binade of the primary *)
Room == a.k = "f" => \A j \in 1..K : LET o == a.o[j] IN ZLe(ZNeg(ZShl(ZOne, F.p - 2)), o) /\ ZLt(o, ZShl(ZOne, F.p - 2))
================================================================================

--------------------------------- MODULE MCKernel ---------------------------------
(* The loop of the vector kernels: blocks of any size up to NB numbers are    *)
(* taken from the vector; for each the largest magnitude is found, the stored *)
(* pairs are renormalised first if the block would exceed the endurance, room *)
(* is made, and the numbers are deposited in V copies of the primaries (the   *)
(* lanes of vector registers), which are then added up again.                 *)
(* PER deposits of a number are done per element (2 in complex products).     *)
(* Whatever the block sizes, lanes and order, the outcome stands for the sum  *)
(* of Binned.tla.                                                             *)
EXTENDS Rep, TLC
CONSTANTS P, W, EMAX, NEMIN, K, V, PER, Len0, Slack
F == [p |-> P, emax |-> EMAX, emin |-> -NEMIN, w |-> W]
Num(s, m, e) == Fin(IF s = 1 THEN ZNeg(ZOfInt(m)) ELSE ZOfInt(m), e)
Full == Pow2(P) - 1
TopE(g) == EMAX - W * g
Data == {Num(0, Full, TopE(0) - P), Num(1, Full, TopE(1) - P), Num(0, Full, TopE(1) - P), Num(0, Pow2(P - 1) + Pow2(P - 1 - W), TopE(2) - P),
         Num(1, 1, BinE(F, 1) - 1), FZero}
NB == (Endurance(F) \div PER) + Slack

VARIABLES xs,    \* the vector, as it was
          todo,  \* what is left of it
          a,     \* the stored accumulator
          dep,   \* deposits since the last renormalisation
          pre    \* what was in the accumulator before
vars == <<xs, todo, a, dep, pre>>
Pre == {<<>>, <<Num(0, Full, TopE(1) - P)>>, <<Num(1, 3, TopE(2) - 4), Num(1, Full, TopE(2) - P)>>}
RECURSIVE CAddAll(_, _)
CAddAll(c, s) == IF s = <<>> THEN c ELSE CAddAll(CAdd(F, K, c, Head(s)), Tail(s))

Init == /\ xs \in UNION {[1..m -> Data] : m \in 0..Len0}
        /\ todo = xs /\ dep = 0
        /\ pre \in Pre
        /\ a = CAddAll(Cempty, pre)

RECURSIVE MaxR(_, _, _)
MaxR(s, n, m) == IF n = 0 THEN m ELSE LET y == FAbs(s[n]) IN MaxR(s, n - 1, IF FLess(m, y) THEN y ELSE m)
(* deposit s[n], s[n-1], .. into their lanes; each element PER times *)
RECURSIVE Times(_, _, _)
Times(c, x, m) == IF m = 0 THEN c ELSE Times(CDeposit(F, K, c, x), x, m - 1)
RECURSIVE LanesR(_, _, _)
LanesR(L, s, n) == IF n = 0 THEN L
                   ELSE LET l == (n % V) + 1 IN LanesR([L EXCEPT ![l] = Times(L[l], s[n], PER)], s, n - 1)
(* first lane + (others - what all of them began with) *)
RECURSIVE ConsR(_, _, _, _)
ConsR(L, b, j, l) == IF l = 1 THEN L[1].p[j]
                     ELSE Canon(F, FAdd(F, ConsR(L, b, j, l - 1), FSub(F, L[l].p[j], b.p[j])))

Block == \E m \in 1..FMin2(NB, Len(todo)) :
  LET s == SubSeq(todo, 1, m)
      r == dep + m * PER > Endurance(F)
      b == CUpdate(F, K, IF r THEN CRenorm(F, K, a) ELSE a, MaxR(s, m, FZero))
      L == LanesR([l \in 1..V |-> b], s, m)
  IN  /\ todo # <<>>
      /\ a' = [b EXCEPT !.p = [j \in 1..K |-> ConsR(L, b, j, V)]]
      /\ dep' = (IF r THEN 0 ELSE dep) + m * PER
      /\ todo' = SubSeq(todo, m + 1, Len(todo))
      /\ UNCHANGED <<xs, pre>>
Next == Block
Spec_ == Init /\ [][Next]_vars

Reps(s) == [j \in 1..Len(s) |-> <<PER, s[j]>>]
Result == CRenorm(F, K, a)
Sum == todo = <<>> => /\ CDecode(F, K, Result) = AddRuns(F, K, AddRuns(F, K, Empty, [j \in 1..Len(pre) |-> <<1, pre[j]>>]), Reps(xs))
                      /\ (xs # <<>> => CNormal(F, K, Result))
Room == dep <= Endurance(F)
================================================================================

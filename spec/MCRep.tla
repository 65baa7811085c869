---------------------------------- MODULE MCRep ----------------------------------
(* Two concrete accumulators in a small format, with every legal history of *)
(* update, deposit, renormalise, add, merge and negate up to a depth, next   *)
(* to the abstract accumulators they should stand for.                       *)
EXTENDS Rep, TLC
CONSTANTS P, W, EMAX, NEMIN, K, Depth, Slack    \* Slack: deposits allowed beyond the endurance (0 in earnest)
F == [p |-> P, emax |-> EMAX, emin |-> -NEMIN, w |-> W]

Num(s, m, e) == Fin(IF s = 1 THEN ZNeg(ZOfInt(m)) ELSE ZOfInt(m), e)
Full == Pow2(P) - 1
(* numbers about a bin's boundaries: the largest and the least of a bin, ties, *)
(* odd last places, the ends of the range                                      *)
TopE(g) == EMAX - W * g               \* numbers of bin g are below 2^TopE(g)
Data ==
  {Num(s, Full, TopE(g) - P) : s \in {0, 1}, g \in {0, 1, 2}} \cup
  {Num(0, Pow2(P - 1) + 1, TopE(1) - P), Num(1, 1, TopE(1)), Num(0, Pow2(P - 1) + Pow2(P - 1 - W), TopE(2) - P),
   Num(0, 1, BinE(F, 2) - 1), Num(1, 3, BinE(F, 2) - 1), Num(0, 1, Qexp(F)), Num(1, Full, Qexp(F)), FZero}
Use == {x \in Data : IsZero(x) \/ (Fexp(x) <= EMAX /\ Fexp(x) > Qexp(F))}

VARIABLES a, b, n, d       \* concrete and abstract (a is [c, s]) accumulators, deposits since the last renormalisation
vars == <<a, b, n, d>>
Pair(c, s) == [c |-> c, s |-> s]
Init == a = Pair(Cempty, Empty) /\ b = Pair(Cempty, Empty) /\ n = 0 /\ d = 0
Step == d < Depth /\ d' = d + 1

DoUpdate(x) == Step /\ a' = Pair(CUpdate(F, K, a.c, x), Update(F, K, a.s, x)) /\ UNCHANGED <<b, n>>
DoDeposit(x) == /\ Step /\ a.s.k = "f" /\ a.s.i <= Idx(F, x) /\ n < Endurance(F) + Slack
                /\ a' = Pair(CDeposit(F, K, a.c, x), Deposit(F, K, a.s, x)) /\ n' = n + 1 /\ UNCHANGED b
DoRenorm == Step /\ n > 0 /\ a' = Pair(CRenorm(F, K, a.c), a.s) /\ n' = 0 /\ UNCHANGED b
DoAdd(x) == Step /\ n = 0 /\ a' = Pair(CAdd(F, K, a.c, x), Add(F, K, a.s, x)) /\ UNCHANGED <<b, n>>
DoMerge == Step /\ n = 0 /\ a' = Pair(CMerge(F, K, a.c, b.c), Merge(F, K, a.s, b.s)) /\ UNCHANGED <<b, n>>
DoNegate == Step /\ n = 0 /\ a' = Pair(CRenorm(F, K, CNegate(F, K, a.c)), Negate(a.s)) /\ UNCHANGED <<b, n>>
DoSwap == Step /\ n = 0 /\ a' = b /\ b' = a /\ UNCHANGED n
Next == \/ \E x \in Use : DoUpdate(x) \/ DoDeposit(x) \/ DoAdd(x)
        \/ DoRenorm \/ DoMerge \/ DoNegate \/ DoSwap
Spec_ == Init /\ [][Next]_vars
View == <<a, b, n, d>>

(* the concrete accumulator stands for the abstract one ... *)
Refines == CDecode(F, K, a.c) = a.s
(* ... and is the only one that does once renormalised *)
Canonical == n = 0 => CNormal(F, K, a.c)
(* The conversion, carried out in the same precision but without overflow  *)
(* or underflow (the library scales, or uses double precision), errs by no  *)
(* more than is promised.                                                   *)
Wide == [F EXCEPT !.emax = EMAX + 4 * P, !.emin = -NEMIN - 4 * P]
Converts == (n = 0 /\ a.s.k = "f") => ConvOK(F, Value(F, a.s), CConv(F, Wide, K, a.c))
(* the carries stay small integers *)
Carries == a.c.p # <<>> => \A j \in 1..K : a.c.c[j] \in (-4 * Depth)..(4 * Depth)
================================================================================

--------------------------------- MODULE MCReduce ---------------------------------
(* A reduction over any number of workers: the numbers of a bag are added, in *)
(* any order, to any of M accumulators, which are merged into each other in   *)
(* any order and at any time (a worker whose accumulator has been handed over *)
(* starts again from an empty one), negated in pairs, or cleared when empty.  *)
(* An accumulator is at every moment the function Canon of the bag of numbers *)
(* it has consumed, so that the outcome depends on the bag alone; and its     *)
(* value is as close to the exact sum as documented.                          *)
EXTENDS Binned, TLC
CONSTANTS P, W, EMAX, NEMIN, K, M, Size, Special
F == [p |-> P, emax |-> EMAX, emin |-> -NEMIN, w |-> W]
Num(s, m, e) == Fin(IF s = 1 THEN ZNeg(ZOfInt(m)) ELSE ZOfInt(m), e)
Full == Pow2(P) - 1
TopE(g) == EMAX - W * g
(* about the boundaries of the bins: the largest and the least of each, ties, bits that are cut off *)
Finite == <<Num(0, Full, TopE(0) - P), Num(1, Full, TopE(1) - P), Num(0, Pow2(P - 1) + 1, TopE(1) - P), Num(0, Pow2(P - 1) + Pow2(P - 1 - W), TopE(2) - P),
            Num(1, 1, BinE(F, 1) - 1), Num(0, 3, BinE(F, 2) - 1), Num(0, 1, TopE(2)), Num(1, Full, Qexp(F)), FZero, Num(0, 1, Qexp(F))>>
Data == IF Special = 1 THEN <<PInf, NInf, NaN, Finite[1], Finite[2], Finite[5], Finite[9]>> ELSE Finite
D == Len(Data)
Workers == 1..M

VARIABLES pool,   \* Data index |-> how many are still to be added
          acc,    \* worker |-> accumulator
          bag     \* worker |-> (Data index |-> how many it has consumed)
vars == <<pool, acc, bag>>
RECURSIVE Total(_, _)
Total(f, n) == IF n = 0 THEN 0 ELSE f[n] + Total(f, n - 1)
None == [i \in 1..D |-> 0]
(* bags as non-decreasing sequences of indices *)
Bags == {s \in [1..Size -> 1..D] : \A j \in 1..(Size - 1) : s[j] <= s[j + 1]}
RECURSIVE CountIn(_, _, _)
CountIn(s, i, n) == IF n = 0 THEN 0 ELSE (IF s[n] = i THEN 1 ELSE 0) + CountIn(s, i, n - 1)
Init == /\ \E s \in Bags : pool = [i \in 1..D |-> CountIn(s, i, Size)]
        /\ acc = [k \in Workers |-> Empty]
        /\ bag = [k \in Workers |-> None]

AddOne == \E i \in 1..D, k \in Workers :
  /\ pool[i] > 0
  /\ pool' = [pool EXCEPT ![i] = @ - 1]
  /\ acc' = [acc EXCEPT ![k] = Add(F, K, @, Data[i])]
  /\ bag' = [bag EXCEPT ![k][i] = @ + 1]
MergeInto == \E k, l \in Workers :
  /\ k # l /\ bag[k] # None
  /\ acc' = [acc EXCEPT ![l] = Merge(F, K, @, acc[k]), ![k] = Empty]
  /\ bag' = [bag EXCEPT ![l] = [i \in 1..D |-> bag[k][i] + bag[l][i]], ![k] = None]
  /\ UNCHANGED pool
NegateTwice == \E k \in Workers : acc' = [acc EXCEPT ![k] = Negate(Negate(@))] /\ UNCHANGED <<pool, bag>>
Next == AddOne \/ MergeInto \/ NegateTwice
Spec_ == Init /\ [][Next]_vars

Runs(g) == SelectSeq([i \in 1..D |-> <<g[i], Data[i]>>], LAMBDA r : r[1] > 0)
Canon(g) == AddRuns(F, K, Empty, Runs(g))
Determined == \A k \in Workers : \/ acc[k] = Canon(bag[k])
                              \/ (acc[k].k \notin {"f", "0"} /\ acc[k].k = Canon(bag[k]).k)

(* the sum of the negated numbers is the negated sum *)
Odd == \A k \in Workers : acc[k].k = "f" =>
         Negate(acc[k]) = AddRuns(F, K, Empty, [j \in 1..Len(Runs(bag[k])) |-> <<Runs(bag[k])[j][1], FNeg(Runs(bag[k])[j][2])>>])

(* |value - exact sum| <= N 2^(w(1-K)) max|x|, and one last place of the last bin per number *)
RECURSIVE ExactR(_, _)
ExactR(rs, n) == IF n = 0 THEN ZZero
                 ELSE ZAdd(ExactR(rs, n - 1), ZMul(ZOfInt(rs[n][1]), ZShl(rs[n][2][2], rs[n][2][3] - Qexp(F))))
RECURSIVE MaxR(_, _, _)
MaxR(rs, n, m) == IF n = 0 THEN m ELSE LET y == FAbs(rs[n][2]) IN MaxR(rs, n - 1, IF FLess(m, y) THEN y ELSE m)
Accurate == \A k \in Workers : acc[k].k = "f" =>
  LET rs == Runs(bag[k])
      mx == MaxR(rs, Len(rs), FZero)
      d  == ZAbs(ZSub(ZShl(Value(F, acc[k]), LowE(F) - Qexp(F)), ExactR(rs, Len(rs))))
      nn == ZOfInt(Total(bag[k], D))
  IN  ZLe(ZShl(d, W * (K - 1)), ZMul(nn, ZAdd(ZShl(mx[2], mx[3] - Qexp(F)), ZShl(ZOne, LowE(F) - Qexp(F) + W * (K - 1)))))

(* NaN and infinities: by kind of the bag alone *)
Kinded == \A k \in Workers : Kinds(acc[k]) = MixAll(Runs(bag[k]), "f")
================================================================================

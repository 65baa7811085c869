----------------------------------- MODULE MCSsq -----------------------------------
(* Sums of squares under a scale: numbers of a bag are squared into any of M   *)
(* scaled accumulators, one or several at a time, and these are combined in    *)
(* any tree.  Scale and accumulator are functions of the bag.                  *)
EXTENDS Ops, TLC
CONSTANTS P, W, EMAX, NEMIN, K, M, Size
F == [p |-> P, emax |-> EMAX, emin |-> -NEMIN, w |-> W]
Num(s, m, e) == Fin(IF s = 1 THEN ZNeg(ZOfInt(m)) ELSE ZOfInt(m), e)
Full == Pow2(P) - 1
(* below, on and above the powers of 2^w at which the scale changes, and the ends of the range *)
Data == <<Num(0, Full, W - P), Num(1, 1, W), Num(0, Full, 2 * W - P), Num(0, 1, 0), Num(1, Full, -P), Num(1, Pow2(P - 1) + 5, -W - P),
          Num(0, Full, EMAX - P), Num(0, 1, Qexp(F)), FZero, Num(1, 3, -2 * W)>>
D == Len(Data)
Workers == 1..M
VARIABLES pool, acc, scl, bag
vars == <<pool, acc, scl, bag>>
None == [i \in 1..D |-> 0]
Bags == {s \in [1..Size -> 1..D] : \A j \in 1..(Size - 1) : s[j] <= s[j + 1]}
RECURSIVE CountIn(_, _, _)
CountIn(s, i, n) == IF n = 0 THEN 0 ELSE (IF s[n] = i THEN 1 ELSE 0) + CountIn(s, i, n - 1)
Init == /\ \E s \in Bags : pool = [i \in 1..D |-> CountIn(s, i, Size)]
        /\ acc = [k \in Workers |-> Empty] /\ scl = [k \in Workers |-> NoS] /\ bag = [k \in Workers |-> None]

Runs(g) == SelectSeq([i \in 1..D |-> <<g[i], Data[i]>>], LAMBDA r : r[1] > 0)
Square(rs, k, g) ==
  LET r == Ssq(F, K, acc[k], scl[k], rs)
  IN  /\ acc' = [acc EXCEPT ![k] = r[1]] /\ scl' = [scl EXCEPT ![k] = r[2]]
      /\ bag' = [bag EXCEPT ![k] = [i \in 1..D |-> @[i] + g[i]]]
      /\ pool' = [i \in 1..D |-> pool[i] - g[i]]
One(i) == [None EXCEPT ![i] = 1]
SquareOne == \E i \in 1..D, k \in Workers : pool[i] > 0 /\ Square(<<<<1, Data[i]>>>>, k, One(i))
SquareRest == \E k \in Workers : pool # None /\ Square(Runs(pool), k, pool)
Combine == \E k, l \in Workers :
  /\ k # l /\ bag[k] # None
  /\ LET r == AddSq(F, K, scl[k], acc[k], scl[l], acc[l])
     IN  /\ acc' = [acc EXCEPT ![l] = r[1], ![k] = Empty] /\ scl' = [scl EXCEPT ![l] = r[2], ![k] = NoS]
  /\ bag' = [bag EXCEPT ![l] = [i \in 1..D |-> bag[k][i] + bag[l][i]], ![k] = None]
  /\ UNCHANGED pool
Next == SquareOne \/ SquareRest \/ Combine
Spec_ == Init /\ [][Next]_vars

Canon(g) == Ssq(F, K, Empty, NoS, Runs(g))
ScaleDetermined == \A k \in Workers : bag[k] # None => scl[k] = Canon(bag[k])[2]
(* numbers whose scaled square underflows are rounded, and bins at the end of the range are shared: *)
(* there the accumulator may differ by what is below the last bin                                    *)
Determined == \A k \in Workers : acc[k] = Canon(bag[k])[1]
(* the scaled numbers are less than 2^w, their squares and sums in range *)
InRange == \A k \in Workers : \A i \in 1..D :
  bag[k][i] > 0 => LET y == FScale2(F, Data[i], -scl[k]) IN IsZero(y) \/ (Fexp(y) <= W /\ 2 * W < EMAX)
================================================================================

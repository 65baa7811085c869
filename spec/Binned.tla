--------------------------------- MODULE Binned ---------------------------------
(***************************************************************************)
(* The binned accumulator: what it stores, as mathematics.                 *)
(*                                                                         *)
(* The exponent range of a format F (with bin width F.w) is cut into bins  *)
(* of w binary places; bin g = 0, 1, .., MaxI(F) keeps multiples of        *)
(* 2^BinE(F, g), bin 0 the largest ones.  An accumulator of fold K is      *)
(*   [k |-> "0"]                      empty (never touched)                *)
(*   [k |-> "f", i |-> g, t |-> T]    T[1..K], the totals of the bins g,   *)
(*                                    g+1, .., g+K-1, each in units of the *)
(*                                    bin's last place                     *)
(*   [k |-> "P" | "N" | "X"]          +infinity, -infinity, NaN            *)
(* Beyond MaxI(F) the bins repeat the last one.                            *)
(* How a total is split into a primary and a carry field is the subject of *)
(* the section "representation".                                           *)
(***************************************************************************)
EXTENDS Ieee, SequencesExt

MaxI(F) == ((F.emax - F.emin + F.p - 1) \div F.w) - 1
MaxFold(F) == MaxI(F) + 1
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Endurance(F) == Pow2(F.p - F.w - 2)

FD == [p |-> 53, emax |-> 1024, emin |-> -1021, w |-> 40]
FS == [p |-> 24, emax |-> 128, emin |-> -125, w |-> 13]

BinE(F, g) == F.emax + 1 - F.w * (FMin2(g, MaxI(F)) + 1)

(* the bin in which the leading bits of x go *)
Idx(F, x) == IF ~IsFin(x) THEN 0
             ELSE IF IsZero(x) THEN MaxI(F)
             ELSE FMin2((F.emax - Fexp(x)) \div F.w, MaxI(F))

Empty == [k |-> "0", i |-> 0, t |-> <<>>]
Spec(k) == [k |-> k, i |-> 0, t |-> <<>>]
Acc(g, T) == [k |-> "f", i |-> g, t |-> T]
ZeroT(K) == TLCEval([j \in 1..K |-> ZZero])

(*---------------------------- slices ------------------------------------*)
(* The pieces a finite x is cut into by an accumulator whose top bin is g: *)
(* what is left of x is rounded to a multiple of the bin's last place,     *)
(* ties away from zero, and the rest goes on to the next bin.  (m, e) is   *)
(* what is left.                                                           *)
RECURSIVE SliceR(_, _, _, _, _)
SliceR(F, g, K, m, e) ==
  IF K = 0 THEN <<>>
  ELSE IF m[1] = 0 THEN [j \in 1..K |-> ZZero]
  ELSE LET b == BinE(F, g)
       IN  IF e >= b THEN <<ZShl(m, e - b)>> \o SliceR(F, g + 1, K - 1, ZZero, e)
           ELSE LET q == ZRha(m, b - e)
                IN  <<q>> \o SliceR(F, g + 1, K - 1, IF q[1] = 0 THEN m ELSE ZSub(m, ZShl(q, b - e)), e)
Slices(F, K, g, x) == SliceR(F, g, K, x[2], x[3])

AddT(K, S, T) == TLCEval([j \in 1..K |-> ZAdd(S[j], T[j])])

(*--------------------------- transitions --------------------------------*)
(* Make room for numbers whose leading bits go to bin g: raise the top bin *)
(* of the accumulator to g if it is lower, dropping the lowest bins.       *)
Raise(K, a, g) ==
  CASE a.k = "0" -> Acc(g, ZeroT(K))
    [] a.k = "f" /\ a.i > g ->
         Acc(g, TLCEval([j \in 1..K |-> IF j <= a.i - g THEN ZZero ELSE a.t[j - (a.i - g)]]))
    [] OTHER -> a
Update(F, K, a, x) == Raise(K, a, Idx(F, x))

(* what an accumulator becomes when something that is not finite enters *)
Kinds(a) == IF a.k \in {"0", "f"} THEN "f" ELSE a.k
Mix(a, k) == LET r == AddKind(Kinds(a), k) IN IF r = "f" THEN a ELSE Spec(r)

(* needs room for x (a.i <= Idx(F, x)) unless x or a is not finite *)
Deposit(F, K, a, x) ==
  IF a.k \in {"P", "N", "X"} \/ ~IsFin(x) THEN Mix(a, x[1])
  ELSE Acc(a.i, AddT(K, a.t, Slices(F, K, a.i, x)))

Add(F, K, a, x) == Deposit(F, K, Update(F, K, a, x), x)

Merge(F, K, a, b) ==
  CASE b.k = "0" -> a
    [] a.k = "0" -> b
    [] a.k # "f" \/ b.k # "f" -> Mix(a, Kinds(b))
    [] OTHER -> LET g == FMin2(a.i, b.i)
                IN  Acc(g, AddT(K, Raise(K, a, g).t, Raise(K, b, g).t))

Negate(a) == CASE a.k = "f" -> Acc(a.i, [j \in 1..Len(a.t) |-> ZNeg(a.t[j])])
               [] a.k = "P" -> Spec("N")
               [] a.k = "N" -> Spec("P")
               [] OTHER -> a

OfFloat(F, K, x) == Add(F, K, Empty, x)

(* Adding the elements of a vector, in whatever order and blocks.  runs is *)
(* a sequence of <<count, datum>>.                                         *)
SumT(F, K, g, runs, T0) ==
  LET add(T, r) == IF r[2][2][1] = 0 THEN T
                   ELSE LET s == Slices(F, K, g, r[2])
                        IN  IF r[1] = 1 THEN AddT(K, T, s)
                            ELSE LET c == ZOfInt(r[1]) IN TLCEval([j \in 1..K |-> ZAdd(T[j], ZMul(c, s[j]))])
  IN  FoldLeft(add, T0, runs)

(* the highest of the bins needed; the kind of the sum; the least of the exponents *)
MinIdx(F, runs) == FoldLeft(LAMBDA g, r : FMin2(g, Idx(F, r[2])), MaxI(F), runs)
MixAll(runs, k0) == FoldLeft(LAMBDA k, r : AddKind(k, r[2][1]), k0, runs)

AddRuns(F, K, a, runs) ==
  IF runs = <<>> THEN a
  ELSE LET kd == MixAll(runs, Kinds(a))
       IN  IF kd # "f" THEN Spec(kd)
           ELSE LET b == Raise(K, a, MinIdx(F, runs))
                IN  Acc(b.i, SumT(F, K, b.i, runs, b.t))

(*------------------------------- value ----------------------------------*)
(* The number an accumulator stands for, in units of 2^BinE(F, MaxI(F)).   *)
LowE(F) == BinE(F, MaxI(F))
Value(F, a) == IF a.k = "f"
               THEN FoldLeft(LAMBDA v, j : ZAdd(v, ZShl(a.t[j], BinE(F, a.i + j - 1) - LowE(F))), ZZero,
                             [j \in 1..Len(a.t) |-> j])
               ELSE ZZero

(* The greatest error 7 eps |V| the conversion of V to the format may have *)
(* (README, "error bound"); r is a finite result, V in units of 2^LowE(F). *)
(* A result of magnitude infinity is admitted only where the true value,   *)
(* with the same margin, reaches the overflow threshold.                   *)
ConvOK(F, V, r) ==
  IF IsFin(r)
  THEN LET lo == FMin2(r[3], LowE(F))
           d  == ZAbs(ZSub(ZShl(r[2], r[3] - lo), ZShl(V, LowE(F) - lo)))
       IN  ZLe(ZShl(d, F.p - 1), ZMul(ZOfInt(7), ZShl(ZAbs(V), LowE(F) - lo)))
  ELSE /\ r[1] = (IF V[1] > 0 THEN "P" ELSE "N")
       /\ V[1] # 0
       /\ LET big == ZSub(ZShl(ZOne, F.emax - LowE(F)), ZShl(ZOne, F.emax - F.p - 1 - LowE(F)))  \* overflow threshold
          IN  ZLe(ZShl(big, F.p - 1), ZMul(ZAdd(ZShl(ZOne, F.p - 1), ZOfInt(7)), ZAbs(V)))

(*--------------------------- representation -----------------------------*)
(* Concretely bin j is a pair of floats: the primary, whose last place is  *)
(* 2^PhysE (bin 0 is stored scaled down by 2^(p-w+1), to keep it in range) *)
(* and which stands for its offset from 1.5 * 2^(p-1) last places; and the *)
(* carry, which counts units of 2^(p-3) last places.                       *)
PhysE(F, g) == IF g = 0 THEN F.emax - F.p ELSE BinE(F, g)

(* top bin of an accumulator whose first primary is the finite datum q; -1 *)
(* if there is no such bin                                                 *)
TopOf(F, q) ==
  LET e == q[3]
      d == F.emax - F.w + 1 - e
  IN  IF q[1] # "f" \/ ZBits(q[2]) # F.p \/ q[2][1] < 0 THEN -1
      ELSE IF e = F.emax - F.p THEN 0
      ELSE IF d % F.w = 0 /\ d \div F.w \in 1..MaxI(F) THEN d \div F.w
      ELSE -1

Off(F, q) == ZSub(q[2], ZMul(ZOfInt(3), ZShl(ZOne, F.p - 2)))

CarInt(c) == IF c[3] >= 0 THEN ZShl(c[2], c[3]) ELSE ZShr(c[2], -c[3])
CarOK(c) == c[1] = "f" /\ (c[3] >= 0 \/ ZDivisible(c[2], -c[3]))

WellFormed(F, K, pri, car) ==
  LET g == TopOf(F, pri[1])
  IN  /\ g >= 0
      /\ \A j \in 1..K : /\ pri[j][1] = "f" /\ pri[j][2][1] > 0 /\ ZBits(pri[j][2]) = F.p
                         /\ pri[j][3] = PhysE(F, FMin2(g + j - 1, MaxI(F)))
                         /\ CarOK(car[j])

(* the accumulator that a stored pair of sequences of floats represents *)
Decode(F, K, pri, car) ==
  CASE pri[1][1] # "f" -> Spec(pri[1][1])
    [] IsZero(pri[1]) -> Empty
    [] WellFormed(F, K, pri, car) ->
         Acc(TopOf(F, pri[1]),
             TLCEval([j \in 1..K |-> ZAdd(Off(F, pri[j]), ZShl(CarInt(car[j]), F.p - 3))]))
    [] OTHER -> Spec("malformed")

(* Renormalised: every offset is in [0, 2^(p-3)), so that the pair is the  *)
(* only one for its totals and there is room for Endurance(F) deposits.    *)
Normal(F, K, pri, car) ==
  pri[1][1] = "f" /\ ~IsZero(pri[1]) =>
    \A j \in 1..K : LET o == Off(F, pri[j]) IN o[1] >= 0 /\ ZBits(o) <= F.p - 3

(*------------------------------ scales ----------------------------------*)
(* The scale of the sum of squares of numbers with largest magnitude |x|:  *)
(* a power of 2^w, given by its exponent.                                  *)
TruncDiv(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)
ScaleE(F, x) ==
  LET lo == F.emin - 1 + F.w - 1      \* the least leading-bit exponent that is told apart
  IN  IF ~IsFin(x) THEN F.w * TruncDiv(F.emax, F.w)
      ELSE IF IsZero(x) THEN F.w * TruncDiv(lo, F.w)
      ELSE F.w * TruncDiv(FMax2(Fexp(x) - 1, lo), F.w)

(* dividing the stored sum by 2^(2 n w): every bin goes down 2 n places,   *)
(* those that would go past the last one are lost                          *)
Rescale(F, K, a, n) ==
  IF a.k # "f" \/ n = 0 THEN a
  ELSE LET g == a.i + 2 * n
       IN  IF g > MaxI(F) THEN Acc(MaxI(F), ZeroT(K))
           ELSE Acc(g, [j \in 1..K |-> IF g + j - 1 > MaxI(F) THEN ZZero ELSE a.t[j]])

================================================================================

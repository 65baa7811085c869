---------------------------------- MODULE ZInt ----------------------------------
(***************************************************************************)
(* Arbitrary-precision integers.  TLC's own integers are 32 bit, and the   *)
(* totals kept by a binned accumulator need more than a hundred bits, so   *)
(* an integer is represented here by a pair <<sign, limbs>>: sign is -1, 0 *)
(* or 1, and limbs is the magnitude, little endian, base 2^15, without     *)
(* leading zeros.  The representation is canonical, so = is equality.      *)
(*                                                                         *)
(* Everything is defined in TLA+ below.  The operators marked (J) are      *)
(* also provided as TLC module overrides (java/rbl/ZIntOverrides.java,     *)
(* BigInteger), which only makes them faster; ZIntTest.tla compares the    *)
(* two.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL B == 32768

ZZero == <<0, <<>>>>

RECURSIVE PowI(_, _)
LOCAL PowI(b, n) == IF n = 0 THEN 1 ELSE b * PowI(b, n - 1)

(*--------------------------- magnitudes ---------------------------------*)
RECURSIVE MTrim(_)
LOCAL MTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN MTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

LOCAL MGet(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE MAddR(_, _, _, _)
LOCAL MAddR(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == MGet(a, i) + MGet(b, i) + c
       IN  <<s % B>> \o MAddR(a, b, i + 1, s \div B)
LOCAL MAdd(a, b) == MAddR(a, b, 1, 0)

RECURSIVE MSubR(_, _, _, _)
LOCAL MSubR(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - MGet(b, i) - c
       IN  <<IF s < 0 THEN s + B ELSE s>> \o MSubR(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
LOCAL MSub(a, b) == MTrim(MSubR(a, b, 1, 0))      \* needs a >= b

RECURSIVE MCmpR(_, _, _)
LOCAL MCmpR(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
  ELSE MCmpR(a, b, i - 1)
LOCAL MCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE MCmpR(a, b, Len(a))

RECURSIVE MMul1R(_, _, _, _)
LOCAL MMul1R(a, d, i, c) ==
  IF i > Len(a) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == a[i] * d + c IN <<s % B>> \o MMul1R(a, d, i + 1, s \div B)
LOCAL MMul1(a, d) == IF d = 0 THEN <<>> ELSE MMul1R(a, d, 1, 0)

RECURSIVE MMulR(_, _, _)
LOCAL MMulR(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE MAdd(MMul1(a, b[i]), IF i = Len(b) THEN <<>> ELSE <<0>> \o MMulR(a, b, i + 1))
LOCAL MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MTrim(MMulR(a, b, 1))

LOCAL MZeros(n) == [i \in 1..n |-> 0]

LOCAL MShl(a, n) ==
  IF a = <<>> THEN <<>> ELSE MZeros(n \div 15) \o MMul1(a, PowI(2, n % 15))

(* quotient and "something was cut off" of a shift to the right *)
LOCAL MShr(a, n) ==
  LET q == n \div 15
      r == n % 15
      t == IF q >= Len(a) THEN <<>> ELSE SubSeq(a, q + 1, Len(a))
      d == PowI(2, r)
  IN  MTrim([i \in 1..Len(t) |-> (t[i] \div d) + (MGet(t, i + 1) % d) * (B \div d)])
LOCAL MCut(a, n) ==
  LET q == n \div 15
      r == n % 15
  IN  (\E i \in 1..Len(a) : i <= q /\ a[i] # 0) \/ MGet(a, q + 1) % PowI(2, r) # 0

RECURSIVE BitsI(_)
LOCAL BitsI(n) == IF n = 0 THEN 0 ELSE 1 + BitsI(n \div 2)

LOCAL ZMake(s, m) == IF m = <<>> THEN ZZero ELSE <<s, m>>

(*----------------------------- operators --------------------------------*)
RECURSIVE MOfInt(_)
LOCAL MOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o MOfInt(n \div B)
ZOfInt(n) == IF n < 0 THEN ZMake(-1, MOfInt(-n)) ELSE ZMake(1, MOfInt(n))      \* (J)

ZNeg(a) == <<-a[1], a[2]>>
ZAbs(a) == IF a[1] < 0 THEN ZNeg(a) ELSE a
ZSign(a) == a[1]

ZAdd(a, b) ==                                                                   \* (J)
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN <<a[1], MAdd(a[2], b[2])>>
  ELSE IF MCmp(a[2], b[2]) >= 0 THEN ZMake(a[1], MSub(a[2], b[2]))
  ELSE ZMake(b[1], MSub(b[2], a[2]))

ZSub(a, b) == ZAdd(a, ZNeg(b))                                                  \* (J)

ZMul(a, b) == ZMake(a[1] * b[1], MMul(a[2], b[2]))                              \* (J)

ZShl(a, n) == ZMake(a[1], MShl(a[2], n))                                        \* (J)

(* floor(a / 2^n) *)
ZShr(a, n) ==                                                                   \* (J)
  LET q == ZMake(a[1], MShr(a[2], n))
  IN  IF a[1] < 0 /\ MCut(a[2], n) THEN ZAdd(q, <<-1, <<1>>>>) ELSE q

ZCmp(a, b) ==                                                                   \* (J)
  IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE IF a[1] >= 0 THEN MCmp(a[2], b[2]) ELSE MCmp(b[2], a[2])

(* bit length of the magnitude *)
ZBits(a) == IF a[1] = 0 THEN 0 ELSE 15 * (Len(a[2]) - 1) + BitsI(a[2][Len(a[2])])   \* (J)

(* Is a a multiple of 2^n? *)
ZDivisible(a, n) == ~MCut(a[2], n)                                              \* (J)

ZLe(a, b) == ZCmp(a, b) <= 0
ZLt(a, b) == ZCmp(a, b) < 0
ZOne == ZOfInt(1)

(* scale by 2^n, n of either sign; with n < 0 the quotient must be exact *)
ZScale(a, n) == IF n >= 0 THEN ZShl(a, n) ELSE ZShr(a, -n)

(* nearest integer to a / 2^n, n >= 0: ties away from zero, ties to even *)
ZRha(a, n) ==                                                                   \* (J)
  IF n = 0 THEN a
  ELSE LET q == ZShr(ZAdd(ZAbs(a), ZShl(ZOne, n - 1)), n)
       IN  IF a[1] < 0 THEN ZNeg(q) ELSE q
ZOdd(a) == a[1] # 0 /\ a[2][1] % 2 = 1
ZRne(a, n) ==
  IF n = 0 THEN a
  ELSE LET m == ZAbs(a)
           q == ZRha(m, n)
           tie == ~ZDivisible(m, n) /\ ZDivisible(m, n - 1)
           r == IF tie /\ ZOdd(q) THEN ZSub(q, ZOne) ELSE q
       IN  IF a[1] < 0 THEN ZNeg(r) ELSE r

(* the nonnegative integer whose base-2^16 digits, most significant first, are ws *)
RECURSIVE ZOfWordsR(_, _, _)
LOCAL ZOfWordsR(ws, i, acc) ==
  IF i > Len(ws) THEN acc ELSE ZOfWordsR(ws, i + 1, ZAdd(ZShl(acc, 16), ZOfInt(ws[i])))
ZOfWords(ws) == ZOfWordsR(ws, 1, ZZero)                                         \* (J)
================================================================================

---------------------------------- MODULE Ieee ----------------------------------
(***************************************************************************)
(* Binary floating point.  A format is a record                            *)
(*    [p |-> precision, emax |-> ..., emin |-> ...]                        *)
(* with the C conventions (DBL_MANT_DIG, DBL_MAX_EXP, DBL_MIN_EXP): every  *)
(* finite number is smaller than 2^emax, the smallest normal one is        *)
(* 2^(emin-1) and the quantum of the subnormal ones is 2^(emin-p).         *)
(*                                                                         *)
(* A datum is <<kind, m, e>>: kind is "f" (finite, value m * 2^e with m an *)
(* integer of ZInt), "P" (+infinity), "N" (-infinity) or "X" (NaN).        *)
(* The sign of a zero is not represented.                                  *)
(***************************************************************************)
EXTENDS ZInt, TLC

(* TLCEval(v) = v.  It only makes TLC compute a function once instead of   *)
(* at each application.                                                    *)

Qexp(F) == F.emin - F.p

Fin(m, e) == <<"f", m, e>>
PInf == <<"P", ZZero, 0>>
NInf == <<"N", ZZero, 0>>
NaN  == <<"X", ZZero, 0>>
FZero == <<"f", ZZero, 0>>
Kind(x) == x[1]
IsFin(x) == x[1] = "f"
IsZero(x) == x[1] = "f" /\ x[2][1] = 0

(* frexp's exponent: 2^(Fexp-1) <= |x| < 2^Fexp; x finite and not zero *)
Fexp(x) == ZBits(x[2]) + x[3]

FNeg(x) == CASE x[1] = "f" -> <<"f", ZNeg(x[2]), x[3]>>
             [] x[1] = "P" -> NInf
             [] x[1] = "N" -> PInf
             [] OTHER -> x
FAbs(x) == CASE x[1] = "f" -> <<"f", ZAbs(x[2]), x[3]>>
             [] x[1] = "N" -> PInf
             [] OTHER -> x

FMin2(a, b) == IF a < b THEN a ELSE b
FMax2(a, b) == IF a > b THEN a ELSE b

(* comparison of the values of two finite data *)
FCmp(x, y) == LET e == FMin2(x[3], y[3])
              IN  ZCmp(ZShl(x[2], x[3] - e), ZShl(y[2], y[3] - e))
FLess(x, y) == CASE x[1] = "X" \/ y[1] = "X" -> FALSE
                 [] x[1] = "f" /\ y[1] = "f" -> FCmp(x, y) < 0
                 [] OTHER -> x # y /\ (x[1] = "N" \/ y[1] = "P")
(* same value (zeros of either sign, and any representation m * 2^e, are the same) *)
FSame(x, y) == x[1] = y[1] /\ (x[1] = "f" => FCmp(x, y) = 0)

(* m * 2^e rounded to the nearest number of the format, ties to even *)
RoundF(F, m, e) ==
  IF m[1] = 0 THEN FZero
  ELSE LET qe == FMax2(ZBits(m) + e - F.p, Qexp(F))        \* exponent of the result's last place
           r  == IF qe <= e THEN m ELSE ZRne(m, qe - e)
           re == IF qe <= e THEN e ELSE qe
       IN  IF r[1] = 0 THEN FZero
           ELSE IF ZBits(r) + re > F.emax THEN (IF m[1] < 0 THEN NInf ELSE PInf)
           ELSE <<"f", r, re>>

(* kinds of infinities and NaN when added, multiplied *)
AddKind(j, k) == CASE j = "X" \/ k = "X" -> "X"
                   [] j \in {"P", "N"} /\ k \in {"P", "N"} /\ j # k -> "X"
                   [] j \in {"P", "N"} -> j
                   [] k \in {"P", "N"} -> k
                   [] OTHER -> "f"
OfKind(k) == CASE k = "P" -> PInf [] k = "N" -> NInf [] OTHER -> NaN

FSgn(x) == CASE x[1] = "P" -> 1 [] x[1] = "N" -> -1 [] OTHER -> x[2][1]

(* IEEE product, sum and quotient by a power of two *)
FMul(F, x, y) ==
  CASE x[1] = "f" /\ y[1] = "f" -> RoundF(F, ZMul(x[2], y[2]), x[3] + y[3])
    [] x[1] = "X" \/ y[1] = "X" -> NaN
    [] FSgn(x) * FSgn(y) = 0 -> NaN
    [] FSgn(x) * FSgn(y) > 0 -> PInf
    [] OTHER -> NInf
FAdd(F, x, y) ==
  IF x[1] = "f" /\ y[1] = "f"
  THEN LET e == FMin2(x[3], y[3])
       IN  RoundF(F, ZAdd(ZShl(x[2], x[3] - e), ZShl(y[2], y[3] - e)), e)
  ELSE OfKind(AddKind(x[1], y[1]))
FSub(F, x, y) == FAdd(F, x, FNeg(y))
FScale2(F, x, n) == IF x[1] = "f" THEN RoundF(F, x[2], x[3] + n) ELSE x    \* x * 2^n

(*---------------------------- encodings ---------------------------------*)
(* ws: the bits of a number as 16-bit words, most significant first: four  *)
(* words are a double, two are a float.                                    *)
OfWords(F, ws) ==
  LET hi  == ws[1] % 32768
      sh  == IF Len(ws) = 4 THEN 16 ELSE 128
      be  == hi \div sh
      top == IF Len(ws) = 4 THEN 2047 ELSE 255
      fr  == ZOfWords([ws EXCEPT ![1] = hi % sh])
      sg(z) == IF ws[1] >= 32768 THEN ZNeg(z) ELSE z
  IN  IF be = top
      THEN IF fr[1] # 0 THEN NaN ELSE IF ws[1] >= 32768 THEN NInf ELSE PInf
      ELSE IF be = 0 THEN <<"f", sg(fr), Qexp(F)>>
      ELSE <<"f", sg(ZAdd(fr, ZShl(ZOne, F.p - 1))), be - 1 + Qexp(F)>>
================================================================================

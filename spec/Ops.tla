----------------------------------- MODULE Ops -----------------------------------
(***************************************************************************)
(* What the vector and matrix operations add to their destinations, on     *)
(* top of Binned.tla.  Vectors are sequences of runs <<count, components>>;*)
(* matrices are sequences of rows of elements.                             *)
(***************************************************************************)
EXTENDS Binned, Sequences

NoS == -100000      \* the exponent of the scale 0

Comp(rs, q) == TLCEval([j \in 1..Len(rs) |-> <<rs[j][1], rs[j][2][q]>>])
AbsRuns(rs) == TLCEval([j \in 1..Len(rs) |-> <<rs[j][1], FAbs(rs[j][2])>>])

(*------------------------- vector operations ----------------------------*)
(* sequences of runs of terms an operation adds to each component of its   *)
(* destination                                                             *)
SumTerms(rs, nc) == [q \in 1..nc |-> Comp(rs, q)]
AsumTerms(rs, nc) == IF nc = 1 THEN <<AbsRuns(Comp(rs, 1))>>
                     ELSE <<AbsRuns(Comp(rs, 1)) \o AbsRuns(Comp(rs, 2))>>
Prod(F, rs, q, r, neg) ==
  TLCEval([j \in 1..Len(rs) |-> <<rs[j][1], LET p == FMul(F, rs[j][2][q], rs[j][2][r]) IN IF neg THEN FNeg(p) ELSE p>>])
DotTerms(F, rs) == <<Prod(F, rs, 1, 2, FALSE)>>
(* x = c1 + c2 i, y = c3 + c4 i *)
DotuTerms(F, rs) == <<Prod(F, rs, 1, 3, FALSE) \o Prod(F, rs, 2, 4, TRUE),
                      Prod(F, rs, 1, 4, FALSE) \o Prod(F, rs, 2, 3, FALSE)>>
DotcTerms(F, rs) == <<Prod(F, rs, 1, 3, FALSE) \o Prod(F, rs, 2, 4, FALSE),
                      Prod(F, rs, 1, 4, FALSE) \o Prod(F, rs, 2, 3, TRUE)>>
AddTerms(F, K, accs, terms) == TLCEval([q \in 1..Len(accs) |-> AddRuns(F, K, accs[q], terms[q])])
Empties(n) == [q \in 1..n |-> Empty]

(*--------------------------- sum of squares -----------------------------*)
MaxAbs(rs) == FoldLeft(LAMBDA m, r : LET a == FAbs(r[2]) IN IF FLess(m, a) THEN a ELSE m, FZero, rs)

(* result: <<accumulator, scale exponent>> *)
Ssq(F, K, a, s, rs) ==
  IF rs = <<>> THEN <<a, s>>
  ELSE LET kd == MixAll(AbsRuns(rs), Kinds(a))
       IN  IF kd # "f" THEN <<Spec(kd), 0>>
           ELSE LET ns == ScaleE(F, MaxAbs(rs))
                    fs == IF s = NoS THEN ns ELSE FMax2(s, ns)
                    a1 == IF s # NoS /\ fs > s THEN Rescale(F, K, a, (fs - s) \div F.w) ELSE a
                    sq == TLCEval([j \in 1..Len(rs) |->
                             LET y == FScale2(F, rs[j][2], -fs) IN <<rs[j][1], FMul(F, y, y)>>])
                IN  <<AddRuns(F, K, a1, sq), fs>>

AddSq(F, K, sx, a, sy, b) ==
  IF sx = NoS THEN <<Merge(F, K, b, a), sy>>
  ELSE IF sy = NoS THEN <<Merge(F, K, b, a), sx>>
  ELSE IF sx > sy THEN <<Merge(F, K, Rescale(F, K, b, (sx - sy) \div F.w), a), sx>>
  ELSE <<Merge(F, K, b, Rescale(F, K, a, (sy - sx) \div F.w)), sy>>

(* exponent of a scale, which has to be zero or a power of 2^w *)
ScaleOf(F, x) == IF IsZero(x) THEN NoS ELSE Fexp(x) - 1
IsScale(F, x) == IsFin(x) /\ (IsZero(x) \/ (x[2][1] > 0 /\ ZDivisible(x[2], ZBits(x[2]) - 1) /\ (Fexp(x) - 1) % F.w = 0))

(*--------------------------- matrix products ----------------------------*)
(* A matrix or vector element is a sequence of 1 or 2 data.                *)
Conj(x) == IF Len(x) = 1 THEN x ELSE <<x[1], FNeg(x[2])>>
IsOne(F, a) == FSame(a[1], Fin(ZOne, 0)) /\ (Len(a) = 1 \/ IsZero(a[2]))
IsNull(a) == \A q \in 1..Len(a) : IsZero(a[q])
(* x * a, rounded as the library does: each product, then their sum *)
CMul(F, x, a) ==
  IF IsOne(F, a) THEN x
  ELSE IF Len(x) = 1 THEN <<FMul(F, x[1], a[1])>>
  ELSE <<FSub(F, FMul(F, x[1], a[1]), FMul(F, x[2], a[2])),
         FAdd(F, FMul(F, x[1], a[2]), FMul(F, x[2], a[1]))>>
(* terms of the inner product of two sequences of elements *)
InnerTerms(F, xs, ys) ==
  IF xs = <<>> THEN <<<<>>, <<>>>>
  ELSE LET rs == TLCEval([j \in 1..Len(xs) |-> <<1, xs[j] \o ys[j]>>])
       IN  IF Len(xs[1]) = 1 THEN DotTerms(F, rs) ELSE DotuTerms(F, rs)

OpRow(A, tr, i) ==      \* row i of op(A)
  CASE tr = "n" -> A[i]
    [] tr = "t" -> [j \in 1..Len(A) |-> A[j][i]]
    [] tr = "c" -> [j \in 1..Len(A) |-> Conj(A[j][i])]
OpCol(B, tr, j) == CASE tr = "n" -> [i \in 1..Len(B) |-> B[i][j]]
                     [] tr = "t" -> B[j]
                     [] tr = "c" -> [i \in 1..Len(B[j]) |-> Conj(B[j][i])]

(* y + op(A) (alpha x) as accumulators; y: one sequence of components per element *)
GemvAcc(F, K, A, ta, al, x0, y) ==
  LET x == TLCEval([j \in 1..Len(x0) |-> CMul(F, x0[j], al)])
  IN  IF IsNull(al) THEN y
      ELSE TLCEval([i \in 1..Len(y) |-> AddTerms(F, K, y[i], InnerTerms(F, OpRow(A, ta, i), x))])

(* c + (alpha op(A)) op(B); c: rows of accumulators of each element *)
GemmAcc(F, K, A, ta, B, tb, al, M, N, c) ==
  LET row(i) == LET r == OpRow(A, ta, i) IN TLCEval([k \in 1..Len(r) |-> CMul(F, r[k], al)])
      col == TLCEval([j \in 1..N |-> OpCol(B, tb, j)])
  IN  IF IsNull(al) THEN c
      ELSE TLCEval([i \in 1..M |-> LET r == row(i)
                                   IN  [j \in 1..N |-> AddTerms(F, K, c[i][j], InnerTerms(F, r, col[j]))]])

(* beta * y as an accumulator *)
BetaAcc(F, K, be, y) ==
  IF IsNull(be) THEN Empties(Len(be))
  ELSE LET z == CMul(F, y, be) IN [q \in 1..Len(z) |-> OfFloat(F, K, z[q])]
==================================================================================

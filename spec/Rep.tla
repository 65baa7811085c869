----------------------------------- MODULE Rep -----------------------------------
(***************************************************************************)
(* How an accumulator is kept in pairs of floating point numbers, and what *)
(* the library does to these: every operation of Binned.tla again, as the  *)
(* sequence of rounded floating point operations that carries it out.      *)
(* A concrete accumulator is [p |-> primaries, c |-> carries], the         *)
(* primaries as data of Ieee.tla whose integer has exactly F.p bits, the   *)
(* carries as integers; <<>> for both is the empty accumulator.            *)
(*                                                                         *)
(* MCRep.tla checks that these refine the operations of Binned.tla as long *)
(* as no more than Endurance(F) deposits follow each other.                *)
(***************************************************************************)
EXTENDS Binned

(* a finite datum with its integer brought to p bits (or to the quantum of *)
(* the subnormal numbers)                                                  *)
Canon(F, x) ==
  IF x[1] # "f" \/ x[2][1] = 0 THEN x
  ELSE LET e == FMax2(ZBits(x[2]) + x[3] - F.p, Qexp(F))
       IN  IF x[3] >= e THEN <<"f", ZShl(x[2], x[3] - e), e>> ELSE <<"f", ZShr(x[2], e - x[3]), e>>

(* the bit pattern of x with its last bit set; that of zero becomes the    *)
(* least subnormal number                                                  *)
Or1(F, x) ==
  IF x[2][1] = 0 THEN <<"f", ZOne, Qexp(F)>>
  ELSE LET y == Canon(F, x)
       IN  IF ZOdd(y[2]) THEN y ELSE <<"f", IF y[2][1] > 0 THEN ZAdd(y[2], ZOne) ELSE ZSub(y[2], ZOne), y[3]>>

AtRest(F, g) == <<"f", ZMul(ZOfInt(3), ZShl(ZOne, F.p - 2)), PhysE(F, FMin2(g, MaxI(F)))>>
Cempty == [p |-> <<>>, c |-> <<>>]

CTop(F, a) == TopOf(F, a.p[1])

(*------------------------------ operations ------------------------------*)
CRaise(F, K, a, g) ==
  IF a.p = <<>> THEN [p |-> [j \in 1..K |-> AtRest(F, g + j - 1)], c |-> [j \in 1..K |-> 0]]
  ELSE LET s == CTop(F, a) - g
       IN  IF s <= 0 THEN a
           ELSE [p |-> [j \in 1..K |-> IF j <= s THEN AtRest(F, g + j - 1) ELSE a.p[j - s]],
                 c |-> [j \in 1..K |-> IF j <= s THEN 0 ELSE a.c[j - s]]]
CUpdate(F, K, a, x) == CRaise(F, K, a, Idx(F, x))

Halves(F) == F.p - F.w + 1           \* log2 of the expansion of bin 0
(* returns the primaries; x is what is left of the number *)
RECURSIVE CDepR(_, _, _, _, _, _)
CDepR(F, K, first, p, j, x) ==
  IF j = K THEN [p EXCEPT ![j] = Canon(F, FAdd(F, p[j], Or1(F, x)))]
  ELSE IF j = 1 /\ first
  THEN LET M == p[1]
           q == FAdd(F, Or1(F, FScale2(F, x, -Halves(F))), M)
           d == FScale2(F, FSub(F, M, q), Halves(F) - 1)
       IN  CDepR(F, K, first, [p EXCEPT ![1] = Canon(F, q)], 2, FAdd(F, FAdd(F, x, d), d))
  ELSE LET M == p[j]
           q == FAdd(F, Or1(F, x), M)
       IN  CDepR(F, K, first, [p EXCEPT ![j] = Canon(F, q)], j + 1, FAdd(F, x, FSub(F, M, q)))
CDeposit(F, K, a, x) == [a EXCEPT !.p = CDepR(F, K, CTop(F, a) = 0, a.p, 1, x)]

(* the two bits below the leading one say in which quarter of its binade a *)
(* primary is; it is brought to the third and the carry takes the rest     *)
Quarter(F, q) == LET z == ZSub(ZShr(q[2], F.p - 3), ZOfInt(4))
                 IN  IF z[1] = 0 THEN 0 ELSE z[2][1]
CRenorm(F, K, a) ==
  IF a.p = <<>> THEN a
  ELSE [p |-> [j \in 1..K |-> <<"f", ZSub(a.p[j][2], ZMul(ZOfInt(Quarter(F, a.p[j]) - 2), ZShl(ZOne, F.p - 3))), a.p[j][3]>>],
        c |-> [j \in 1..K |-> a.c[j] + Quarter(F, a.p[j]) - 2]]

CAdd(F, K, a, x) == CRenorm(F, K, CDeposit(F, K, CUpdate(F, K, a, x), x))

CMerge(F, K, a, b) ==     \* b into a
  CASE b.p = <<>> -> a
    [] a.p = <<>> -> b
    [] OTHER ->
       LET g == FMin2(CTop(F, a), CTop(F, b))
           x == CRaise(F, K, a, g)
           y == CRaise(F, K, b, g)
       IN  CRenorm(F, K, [p |-> [j \in 1..K |-> Canon(F, FAdd(F, x.p[j], FSub(F, y.p[j], AtRest(F, g + j - 1))))],
                          c |-> [j \in 1..K |-> x.c[j] + y.c[j]]])

CNegate(F, K, a) ==
  IF a.p = <<>> THEN a
  ELSE LET g == CTop(F, a)
       IN  [p |-> [j \in 1..K |-> LET r == AtRest(F, g + j - 1) IN Canon(F, FSub(F, r, FSub(F, a.p[j], r)))],
            c |-> [j \in 1..K |-> -a.c[j]]]

(*----------------------------- what it means ----------------------------*)
CarData(a, j) == <<"f", ZOfInt(a.c[j]), 0>>
CDecode(F, K, a) ==
  IF a.p = <<>> THEN Empty
  ELSE Decode(F, K, a.p, [j \in 1..K |-> CarData(a, j)])
CNormal(F, K, a) == a.p = <<>> \/ Normal(F, K, a.p, [j \in 1..K |-> CarData(a, j)])

(* the conversion: carries and primaries from the largest bin down, in the *)
(* arithmetic of the format G, which is F without its limits on exponents  *)
(* (the library scales the numbers, or computes in double precision), then *)
(* rounded to F                                                            *)
RECURSIVE CConvR(_, _, _, _, _, _)
TrueE(F, g) == IF g = 0 THEN PhysE(F, 0) + Halves(F) ELSE PhysE(F, FMin2(g, MaxI(F)))
CConvR(F, G, K, a, j, Y) ==
  IF j > K THEN Y
  ELSE LET g == CTop(F, a) + j - 1
           car == RoundF(G, ZOfInt(a.c[j]), TrueE(F, g) + F.p - 3)
           pre == IF j = 1 THEN FZero ELSE RoundF(G, Off(F, a.p[j - 1]), TrueE(F, g - 1))
       IN  CConvR(F, G, K, a, j + 1, FAdd(G, FAdd(G, Y, car), pre))
CConv(F, G, K, a) ==
  IF a.p = <<>> THEN FZero
  ELSE LET r == FAdd(G, CConvR(F, G, K, a, 1, FZero), RoundF(G, Off(F, a.p[K]), TrueE(F, CTop(F, a) + K - 1)))
       IN  RoundF(F, r[2], r[3])
================================================================================

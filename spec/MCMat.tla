---------------------------------- MODULE MCMat ----------------------------------
(* The blocked loops of the matrix products, over flat arrays with leading    *)
(* dimensions.  Numbers are symbols: an element of A or B is the address it   *)
(* was read from and whether it was conjugated or multiplied by alpha, and an *)
(* element of C is the bag of the products accumulated in it.  A block of     *)
(* rows (YA), columns (YB) and inner indices (X) at a time is, where the      *)
(* inner index is not contiguous, packed into a buffer that is reused without *)
(* being cleared, and conjugation is done by dotc (of its first operand) or   *)
(* while packing, as the library does.                                        *)
(* Invariant: after the last block every element has each product of its row  *)
(* and column exactly once, correctly conjugated and scaled, nothing else was *)
(* touched and nothing was read outside the matrices.  A matrix-vector        *)
(* product is the case N = 1 with B the vector (alpha belongs to the vector,  *)
(* a matter of which operand it is attached to).                              *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS D,     \* largest dimension
          BL,    \* largest block
          Pad,   \* largest excess of the leading dimensions
          Bug    \* 0, or a mistake that the invariant has to catch

VARIABLES cfg, at, bufA, bufB, C, bad
vars == <<cfg, at, bufA, bufB, C, bad>>

Junk == <<"junk">>
Min(a, b) == IF a < b THEN a ELSE b
(* symbols *)
El(m, ad) == <<m, ad, FALSE, FALSE>>     \* matrix, address, conjugated, times alpha
Cj(x) == IF x = Junk THEN x ELSE [x EXCEPT ![3] = ~@]   \* of a scaled symbol: see Dotc
Al(x) == IF x = Junk THEN x ELSE [x EXCEPT ![4] = TRUE]

Dims == 0..D
Init ==
  /\ cfg \in [o : {"r", "c"}, ta : {"n", "t", "c"}, tb : {"n", "t", "c"}, m : Dims, n : Dims, k : Dims,
              ya : 1..BL, yb : 1..BL, x : 1..BL, al : {"one", "null", "some"}, pad : 0..Pad]
  /\ at = <<0, 0, 0>>
  /\ bufA = [q \in {} |-> Junk] /\ bufB = [q \in {} |-> Junk]
  /\ C = [q \in {} |-> {}]
  /\ bad = FALSE

(* is the stored matrix walked along its rows by the inner index? *)
Arow(c) == (c.o = "r") = (c.ta = "n")
Bcol(c) == (c.o = "r") = (c.tb # "n")
(* leading dimensions *)
Lda(c) == c.pad + (IF Arow(c) THEN c.k ELSE c.m)
Ldb(c) == c.pad + (IF Bcol(c) THEN c.k ELSE c.n)
Ldc(c) == c.pad + (IF c.o = "r" THEN c.n ELSE c.m)
(* addresses of op(A)(i,k), op(B)(k,j), C(i,j) *)
AdA(c, i, k) == IF Arow(c) THEN i * Lda(c) + k ELSE k * Lda(c) + i
AdB(c, k, j) == IF Bcol(c) THEN j * Ldb(c) + k ELSE k * Ldb(c) + j
AdC(c, i, j) == IF c.o = "r" THEN i * Ldc(c) + j ELSE j * Ldc(c) + i

(* op(A)(i,k) times alpha, as the definition has it *)
WantA(c, i, k) == LET e == El("A", AdA(c, i, k))
                      f == IF c.ta = "c" THEN Cj(e) ELSE e
                  IN  IF c.al = "some" THEN Al(f) ELSE f
WantB(c, k, j) == LET e == El("B", AdB(c, k, j)) IN IF c.tb = "c" THEN Cj(e) ELSE e

(*---------------------------- the algorithm -----------------------------*)
(* Who conjugates: with alpha = 1, a conjugated A alone is the first operand  *)
(* of dotc; a conjugated B alone is the first operand of dotc; with both, one *)
(* is conjugated while packing.  With another alpha A is conjugated while it  *)
(* is scaled.                                                                 *)
ConjPackA(c) == c.ta = "c" /\ c.al = "some"
ConjPackB(c) == c.tb = "c" /\ c.ta = "c" /\ c.al = "one"
DotA(c) == c.ta = "c" /\ ~ConjPackA(c)
DotB(c) == c.tb = "c" /\ ~ConjPackB(c)
PackA(c) == ~Arow(c) \/ c.al = "some"
PackB(c) == ~Bcol(c) \/ ConjPackB(c)

Done == at[1] >= cfg.m \/ cfg.m = 0 \/ cfg.n = 0 \/ cfg.k = 0 \/ cfg.al = "null"
Next0 == IF at[3] + cfg.x < cfg.k THEN <<at[1], at[2], at[3] + cfg.x>>
         ELSE IF at[2] + cfg.yb < cfg.n THEN <<at[1], at[2] + cfg.yb, 0>>
         ELSE <<at[1] + cfg.ya, 0, 0>>
Block ==
  LET c == cfg
      i0 == at[1]
      j0 == at[2]
      k0 == at[3]
      Is == i0..(Min(c.m, i0 + c.ya) - 1)
      Js == j0..(Min(c.n, j0 + c.yb) - 1)
      Ks == k0..(Min(c.k, k0 + c.x) - 1)
      pa == [q \in {(i - i0) * c.x + (k - k0) : i \in Is, k \in Ks} |->
              LET i == i0 + (q \div c.x)
                  k == k0 + (q % c.x)
                  e == El("A", AdA(c, i, k))
                  f == IF ConjPackA(c) /\ Bug # 1 THEN Cj(e) ELSE e
              IN  IF c.al = "some" THEN Al(f) ELSE f]
      pb == [q \in {(j - j0) * c.x + (k - k0) : j \in Js, k \in Ks} |->
              LET e == El("B", AdB(c, k0 + (q % c.x), j0 + (q \div c.x))) IN IF ConjPackB(c) THEN Cj(e) ELSE e]
      nA == IF PackA(c) THEN pa @@ bufA ELSE bufA
      nB == IF PackB(c) THEN pb @@ bufB ELSE bufB
      (* the inner product: as many elements as are left, from the start of a buffer row or of the matrix row *)
      len == IF Bug = 2 THEN c.x ELSE Min(c.x, c.k - k0)
      Get(f, q) == IF q \in DOMAIN f THEN f[q] ELSE Junk
      ga(i, t) == IF PackA(c) THEN Get(nA, (i - i0) * c.x + t)
                  ELSE IF k0 + t < c.k THEN El("A", i * Lda(c) + k0 + t) ELSE Junk
      gb(j, t) == IF PackB(c) THEN Get(nB, (j - j0) * c.x + t)
                  ELSE IF k0 + t < c.k THEN El("B", j * Ldb(c) + k0 + t) ELSE Junk
      term(i, j, t) == <<IF DotA(c) THEN Cj(ga(i, t)) ELSE ga(i, t), IF DotB(c) THEN Cj(gb(j, t)) ELSE gb(j, t)>>
      add(i, j) == {term(i, j, t) : t \in 0..(len - 1)}
      had(q) == IF q \in DOMAIN C THEN C[q] ELSE {}
      upd == [q \in {AdC(c, i, j) : i \in Is, j \in Js} |->
               LET ij == CHOOSE ij \in Is \X Js : AdC(c, ij[1], ij[2]) = q IN had(q) \cup add(ij[1], ij[2])]
  IN  /\ ~Done
      /\ bufA' = nA
      /\ bufB' = nB
      /\ C' = upd @@ C
      /\ bad' = (bad \/ (\E i \in Is, j \in Js : \/ Cardinality(add(i, j)) # len              \* a product twice
                                                 \/ add(i, j) \cap had(AdC(c, i, j)) # {}))
      /\ at' = (IF Bug = 3 /\ at[3] + cfg.x >= cfg.k - 1 /\ cfg.k > 2 THEN [Next0 EXCEPT ![3] = 0, ![1] = IF at[2] + cfg.yb < cfg.n THEN at[1] ELSE at[1] + cfg.ya,
                                                                                    ![2] = IF at[2] + cfg.yb < cfg.n THEN at[2] + cfg.yb ELSE 0] ELSE Next0)
      /\ UNCHANGED cfg
Next == Block
Spec_ == Init /\ [][Next]_vars

(*------------------------------ invariants ------------------------------*)
Product == Done =>
  LET c == cfg
      null == c.k = 0 \/ c.al = "null"
  IN  /\ DOMAIN C = IF null THEN {} ELSE {AdC(c, i, j) : i \in 0..(c.m - 1), j \in 0..(c.n - 1)}
      /\ ~null => \A i \in 0..(c.m - 1), j \in 0..(c.n - 1) :
                    C[AdC(c, i, j)] = {<<WantA(c, i, k), WantB(c, k, j)>> : k \in 0..(c.k - 1)}
Once == ~bad
Inside == LET c == cfg IN
  \A q \in DOMAIN C : \A t \in C[q] : t[1] # Junk /\ t[2] # Junk
================================================================================

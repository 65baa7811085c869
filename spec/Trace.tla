---------------------------------- MODULE Trace ----------------------------------
(***************************************************************************)
(* Checks traces recorded from the real library against the specification. *)
(* A trace file has one case per line: a format, a fold, the accumulators  *)
(* ("slots", 1 component when real, 2 when complex) and a sequence of      *)
(* events.  An event has an operation with its operands and what was seen  *)
(* after it: the stored accumulators (post), the value returned (ret),     *)
(* the number of memory cells that changed although the operation does not *)
(* own them (stray), the change in the number of blocks the library has    *)
(* allocated (leak), and the number of calls that left the floating-point  *)
(* unit's rounding or denormal modes changed (mode).                       *)
(*                                                                         *)
(* Every case is a behaviour of this module: its state is the abstract     *)
(* memory, the next state is computed from the operation by the operators  *)
(* of Binned.tla alone, and the observation has to agree with it.          *)
(***************************************************************************)
EXTENDS Ops, TLC, TLCExt, Json, IOUtils, FiniteSets, SequencesExt

Cases == ndJsonDeserialize(IOEnv.RB_TRACE)
NCases == Len(Cases)

VARIABLES cid,      \* number of the case
          pc,       \* number of events done
          mem,      \* slot |-> sequence of accumulators (its components)
          scl,      \* slot |-> exponent of its scale, or NoS
          memo,     \* conversions seen so far: sequence of <<kind, scale, accumulator, bits of the result>>
          bad       \* "" or what disagreed
vars == <<cid, pc, mem, scl, memo, bad>>

Fmt(c) == IF c.f = "d" THEN FD ELSE FS

(*------------------------ reading the trace -----------------------------*)
Dat(F, ws) == OfWords(F, ws)
Dats(F, s) == TLCEval([j \in 1..Len(s) |-> OfWords(F, s[j])])

Has(r, fld) == fld \in DOMAIN r

(* components of a run <<n, w_1, .., w_c>> : [n, data] *)
Runs(F, rs) == TLCEval([j \in 1..Len(rs) |-> <<rs[j][1], [q \in 1..(Len(rs[j]) - 1) |-> OfWords(F, rs[j][q + 1])]>>])
Terms(F, ev) ==
  LET rs == Runs(F, ev.runs)
  IN  CASE ev.kind = "sum"  -> SumTerms(rs, ev.nc)
        [] ev.kind = "asum" -> AsumTerms(rs, ev.nc)
        [] ev.kind = "dot"  -> DotTerms(F, rs)
        [] ev.kind = "dotu" -> DotuTerms(F, rs)
        [] ev.kind = "dotc" -> DotcTerms(F, rs)

Mat(F, m) == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> Dats(F, m[i][j])]])
Vec(F, v) == TLCEval([i \in 1..Len(v) |-> Dats(F, v[i])])

(* the accumulators a matrix product leaves, from those there were *)
Gemv(F, K, ev, y) ==
  IF ev.M = 0 \/ ev.N = 0 THEN y
  ELSE GemvAcc(F, K, Mat(F, ev.A), ev.ta, Dats(F, ev.alpha), Vec(F, ev.X), y)
Gemm(F, K, ev, c) ==
  IF ev.M = 0 \/ ev.N = 0 \/ ev.K = 0 THEN c
  ELSE GemmAcc(F, K, Mat(F, ev.A), ev.ta, Mat(F, ev.B), ev.tb, Dats(F, ev.alpha), ev.M, ev.N, c)

(*----------------------- the transition relation ------------------------*)
(* f with the value vs[j] at ds[j], for every j *)
Assign(f, ds, vs) == FoldLeft(LAMBDA g, j : [g EXCEPT ![ds[j]] = vs[j]], f, [j \in 1..Len(ds) |-> j])

NewMem(c, ev) ==
  LET F == Fmt(c)
      K == c.K
      Set(d, v) == [mem EXCEPT ![d] = v]
  IN  CASE ev.op \in {"conv", "fn", "print", "front", "amax", "rgemv", "rgemm", "bound", "norm2", "duet"} -> mem
        [] ev.op = "set0"    -> Set(ev.d, Empties(Len(mem[ev.d])))
        [] ev.op = "copy"    -> Set(ev.d, IF Len(mem[ev.s]) = Len(mem[ev.d]) THEN mem[ev.s] ELSE <<mem[ev.s][1], Empty>>)
        [] ev.op = "add"     -> Set(ev.d, [q \in 1..Len(mem[ev.d]) |-> Add(F, K, mem[ev.d][q], Dat(F, ev.x[q]))])
        [] ev.op = "fromf"   -> Set(ev.d, [q \in 1..Len(mem[ev.d]) |-> OfFloat(F, K, Dat(F, ev.x[q]))])
        [] ev.op = "update"  -> Set(ev.d, [q \in 1..Len(mem[ev.d]) |->
                                  Update(F, K, mem[ev.d][q], Dat(F, ev.x[IF Len(ev.x) = 1 THEN 1 ELSE q]))])
        [] ev.op = "deposit" -> Set(ev.d, [q \in 1..Len(mem[ev.d]) |-> Deposit(F, K, mem[ev.d][q], Dat(F, ev.x[q]))])
        \* n deposits of each of the numbers xs, in turn
        [] ev.op = "deposits" -> LET rs == Runs(F, ev.runs)
                                 IN  Set(ev.d, [q \in 1..Len(mem[ev.d]) |-> AddRuns(F, K, mem[ev.d][q], Comp(rs, q))])
        [] ev.op = "renorm"  -> mem
        [] ev.op = "negate"  -> Set(ev.d, [q \in 1..Len(mem[ev.d]) |-> Negate(mem[ev.d][q])])
        [] ev.op = "merge"   -> Set(ev.d, [q \in 1..Len(mem[ev.d]) |-> Merge(F, K, mem[ev.d][q], mem[ev.s][q])])
        [] ev.op = "mergev"  ->
             [sl \in DOMAIN mem |->
                IF \E j \in 1..Len(ev.ds) : ev.ds[j] = sl
                THEN LET j == CHOOSE j \in 1..Len(ev.ds) : ev.ds[j] = sl
                     IN  [q \in 1..Len(mem[sl]) |-> Merge(F, K, mem[sl][q], mem[ev.ss[j]][q])]
                ELSE mem[sl]]
        [] ev.op = "vec"     -> Set(ev.d, AddTerms(F, K, mem[ev.d], Terms(F, ev)))
        [] ev.op = "ssq"     -> LET rs == Runs(F, ev.runs)
                                IN  Set(ev.d, <<Ssq(F, K, mem[ev.d][1], scl[ev.d],
                                                    IF ev.nc = 1 THEN Comp(rs, 1) ELSE Comp(rs, 1) \o Comp(rs, 2))[1]>>)
        [] ev.op = "addsq"   -> Set(ev.d, <<AddSq(F, K, scl[ev.s], mem[ev.s][1], scl[ev.d], mem[ev.d][1])[1]>>)
        [] ev.op = "addsqv"  ->
             [sl \in DOMAIN mem |->
                IF \E j \in 1..Len(ev.ds) : ev.ds[j] = sl
                THEN LET j == CHOOSE j \in 1..Len(ev.ds) : ev.ds[j] = sl
                     IN  <<AddSq(F, K, scl[ev.ss[j]], mem[ev.ss[j]][1], scl[sl], mem[sl][1])[1]>>
                ELSE mem[sl]]
        [] ev.op = "rescale" -> Set(ev.d, [q \in 1..Len(mem[ev.d]) |-> Rescale(F, K, mem[ev.d][q], ev.n)])
        [] ev.op = "gemv"    -> LET y == [i \in 1..Len(ev.ds) |-> mem[ev.ds[i]]]
                                    z == Gemv(F, K, ev, y)
                                IN  Assign(mem, ev.ds, z)
        [] ev.op = "gemm"    -> LET y == [i \in 1..ev.M |-> [j \in 1..ev.N |-> mem[ev.ds[(i - 1) * ev.N + j]]]]
                                    z == Gemm(F, K, ev, y)
                                IN  Assign(mem, ev.ds, [j \in 1..(ev.M * ev.N) |-> z[((j - 1) \div ev.N) + 1][((j - 1) % ev.N) + 1]])

NewScl(c, ev) ==
  LET F == Fmt(c)
      K == c.K
  IN  CASE ev.op \in {"set0", "copy"} -> [scl EXCEPT ![ev.d] = IF ev.op = "set0" THEN NoS ELSE scl[ev.s]]
        [] ev.op = "ssq"   -> LET rs == Runs(F, ev.runs)
                              IN  [scl EXCEPT ![ev.d] = Ssq(F, K, mem[ev.d][1], scl[ev.d],
                                          IF ev.nc = 1 THEN Comp(rs, 1) ELSE Comp(rs, 1) \o Comp(rs, 2))[2]]
        [] ev.op = "addsq" -> [scl EXCEPT ![ev.d] = AddSq(F, K, scl[ev.s], mem[ev.s][1], scl[ev.d], mem[ev.d][1])[2]]
        [] ev.op = "addsqv" ->
             [sl \in DOMAIN scl |->
                IF \E j \in 1..Len(ev.ds) : ev.ds[j] = sl
                THEN LET j == CHOOSE j \in 1..Len(ev.ds) : ev.ds[j] = sl
                     IN  AddSq(F, K, scl[ev.ss[j]], mem[ev.ss[j]][1], scl[sl], mem[sl][1])[2]
                ELSE scl[sl]]
        [] OTHER -> scl

(*--------------------------- observations -------------------------------*)
SameAcc(a, b) == a.k = b.k /\ (a.k \in {"f"} => a = b)

(* post: sequence of [s |-> slot, c |-> sequence of <<primaries, carries>>] *)
PostErr(F, K, m, ev) ==
  LET one(p) ==
        LET n == Len(p.c)
            errs == TLCEval([q \in 1..n |->
              LET pri == Dats(F, p.c[q][1])
                  car == Dats(F, p.c[q][2])
                  got == Decode(F, K, pri, car)
                  want == m[p.s][q]
              IN  IF ~SameAcc(got, want) THEN "state"
                  ELSE IF ev.op = "set0" /\ \E j \in 1..K : ~IsZero(pri[j]) \/ ~IsZero(car[j]) THEN "notcleared"
                  ELSE IF ev.norm /\ want.k = "f" /\ ~Normal(F, K, pri, car) THEN "notnormal"
                  ELSE ""])
        IN  IF \E q \in 1..n : errs[q] # "" THEN errs[CHOOSE q \in 1..n : errs[q] # ""] ELSE ""
  IN  IF \E j \in 1..Len(ev.post) : one(ev.post[j]) # ""
      THEN LET j == CHOOSE j \in 1..Len(ev.post) : one(ev.post[j]) # ""
           IN  one(ev.post[j]) \o ":" \o ev.post[j].s
      ELSE ""

(* the float returned for accumulator a *)
ConvGood(F, a, r) ==
  CASE a.k \in {"P", "N", "X"} -> r[1] = a.k
    [] a.k = "0" -> IsZero(r)
    [] OTHER -> ConvOK(F, Value(F, a), r)
(* equal accumulators give equal bits (a NaN is a NaN) *)
MemoGood(tag, s, a, ws) ==
  a.k = "X" \/ \A n \in 1..Len(memo) : (memo[n][1] = tag /\ memo[n][2] = s /\ memo[n][3] = a) => memo[n][4] = ws

(* exact: the stored pair is the only one for the accumulator (it has been  *)
(* renormalised), so that the result has to be the same as ever before      *)
ConvErrX(F, accs, ret, exact) ==
  LET n == Len(accs)
      e == TLCEval([q \in 1..n |-> IF ~ConvGood(F, accs[q], Dat(F, ret[q])) THEN "accuracy"
                           ELSE IF exact /\ ~MemoGood("v", 0, accs[q], ret[q]) THEN "irreproducible" ELSE ""])
  IN  IF \E q \in 1..n : e[q] # "" THEN e[CHOOSE q \in 1..n : e[q] # ""] ELSE ""

ConvErr(F, accs, ret) == ConvErrX(F, accs, ret, TRUE)

(*----------------------- accuracy of whole results -----------------------*)
(* exact sum of runs of terms, in units of 2^lo *)
Exact(rs, lo) == FoldLeft(LAMBDA v, r : ZAdd(v, ZMul(ZOfInt(r[1]), ZShl(r[2][2], r[2][3] - lo))), ZZero, rs)
Count(rs) == FoldLeft(LAMBDA n, r : n + r[1], 0, rs)
MinE(rs, m0) == FoldLeft(LAMBDA m, r : FMin2(m, r[2][3]), m0, rs)

(* |T - r| <= N 2^(w(1-K)) max|x| + 7 eps |T|, and N last places of the    *)
(* lowest bin for what lies below it.  All terms finite, r finite.         *)
BoundOK(F, K, rs, r) ==
  LET lo == FMin2(FMin2(MinE(rs, 0), r[3]), LowE(F)) - F.w * K - F.p - 4
      T  == Exact(rs, lo)
      n  == ZOfInt(Count(rs))
      mx == MaxAbs(rs)
      d  == ZAbs(ZSub(T, ZShl(r[2], r[3] - lo)))
      b1 == ZMul(n, ZAdd(ZShl(mx[2], mx[3] - lo - F.w * (K - 1)), ZShl(ZOne, LowE(F) - lo)))
      b2 == ZShr(ZMul(ZOfInt(8), ZAbs(T)), F.p - 1)
  IN  ZLe(d, ZAdd(b1, b2))

(* Overflow of the sum itself: the true sum, with the error allowance,     *)
(* reaches the overflow threshold.                                         *)
BoundInf(F, K, rs, r) ==
  LET lo == FMin2(MinE(rs, 0), LowE(F)) - F.w * K - F.p - 4
      T  == Exact(rs, lo)
      n  == ZOfInt(Count(rs))
      mx == MaxAbs(rs)
      b1 == ZMul(n, ZAdd(ZShl(mx[2], mx[3] - lo - F.w * (K - 1)), ZShl(ZOne, LowE(F) - lo)))
      b2 == ZShr(ZMul(ZOfInt(8), ZAbs(T)), F.p - 1)
      big == ZSub(ZShl(ZOne, F.emax - lo), ZShl(ZOne, F.emax - F.p - 1 - lo))
  IN  /\ ZLe(big, ZAdd(ZAbs(T), ZAdd(b1, b2)))
      /\ T[1] = (IF r[1] = "P" THEN 1 ELSE IF r[1] = "N" THEN -1 ELSE 0)

AllFin(rs) == \A j \in 1..Len(rs) : IsFin(rs[j][2])
AccErr(F, K, terms, ret) ==
  LET n == Len(terms)
      one(q) == LET r == Dat(F, ret[q])
                IN  IF ~AllFin(terms[q])
                    THEN r[1] = MixAll(terms[q], "f")
                    ELSE IF IsFin(r) THEN BoundOK(F, K, terms[q], r)
                    ELSE BoundInf(F, K, terms[q], r)
  IN  IF \E q \in 1..n : ~one(q) THEN "bound" ELSE ""

(* the float r is sqrt(v) 2^s up to 6 eps, v in units of 2^LowE(F): the conversion errs by 7 eps, *)
(* half of which is left by the root, which itself rounds, as does the product                    *)
NrmGood(F, a, s, r) ==
  CASE a.k \in {"P", "X"} -> r[1] = a.k
    [] a.k = "0" -> IsZero(r)
    [] a.k = "f" ->
       LET V  == Value(F, a)
           sq == ZShl(V, 0)
           e  == LowE(F) + 2 * s                       \* true square = V 2^e
           c  == ZAdd(ZShl(ZOne, F.p - 1), ZOfInt(6))  \* (1 + 6 eps) 2^(p-1)
           tiny == Qexp(F)                             \* absolute slack of one subnormal quantum
       IN  IF IsFin(r)
           THEN LET hi == <<ZAdd(r[2], ZShl(ZOne, 0)), r[3]>>
                    lo == FMin2(FMin2(e, 2 * r[3]), 2 * tiny)
                    R  == ZShl(r[2], r[3] - tiny)       \* r in quanta
                    up == ZAdd(R, ZOne)
                    dn == IF R[1] <= 0 THEN ZZero ELSE ZSub(R, ZOne)
                    vv == ZShl(V, e - lo)
                    sh(z) == ZShl(ZMul(z, z), 2 * tiny - lo)
                    c2 == ZMul(c, c)
                IN  /\ r[2][1] >= 0
                    /\ ZLe(ZShl(vv, 2 * F.p - 2), ZMul(c2, sh(up)))
                    /\ ZLe(ZShl(sh(dn), 2 * F.p - 2), ZMul(c2, vv))
           ELSE /\ r[1] = "P"
                /\ LET big == ZSub(ZShl(ZOne, F.emax), ZShl(ZOne, F.emax - F.p - 1))
                       lo  == FMin2(e, 0)
                   IN  ZLe(ZShl(ZMul(big, big), 2 * F.p - 2 - lo), ZMul(ZMul(c, c), ZShl(V, e - lo)))
    [] OTHER -> FALSE

(*------------------------ the helper functions --------------------------*)
(* "just the implicit 1": numbers too small to have one give zero or their  *)
(* leading bit; nothing is promised for what is not finite                  *)
UfpOK(F, x, r) == \/ ~IsFin(x)
                  \/ IsZero(x) /\ IsZero(r)
                  \/ ~IsZero(x) /\ FSame(r, Fin(ZOne, Fexp(x) - 1))
                  \/ ~IsZero(x) /\ Fexp(x) < F.emin /\ IsZero(r)

FnErr(F, K, ev) ==
  LET x == Dat(F, ev.x[1])
      r == IF Has(ev, "ret") THEN Dat(F, ev.ret[1]) ELSE FZero
      ok ==
        CASE ev.fn = "index"  -> ev.reti = Idx(F, x)
          [] ev.fn = "ufp"    -> UfpOK(F, x, r)
          [] ev.fn = "scale"  -> FSame(r, Fin(ZOne, ScaleE(F, x)))
          [] ev.fn = "size"   -> ev.reti = 2 * K * ev.nc * (IF F.p = 53 THEN 8 ELSE 4)
          [] ev.fn = "alloc"  -> ev.reti >= 2 * K * ev.nc * (IF F.p = 53 THEN 8 ELSE 4)
          [] ev.fn = "num"    -> ev.reti = 2 * K * ev.nc
          [] ev.fn = "mindex" -> LET a == mem[ev.d][ev.q] IN a.k = "f" => ev.reti = a.i
          [] ev.fn = "mindex0" -> LET a == mem[ev.d][ev.q] IN a.k = "f" => (ev.reti # 0) = (a.i = 0)
          \* "no denormal bits" may only be said of an accumulator none of whose bins has a
          \* last place, or anything that was cut off below it while depositing, that is denormal
          [] ev.fn = "denorm" -> \A q \in 1..Len(mem[ev.d]) : LET a == mem[ev.d][q] IN
                                   (a.k = "f" /\ ev.reti = 0) => BinE(F, a.i + K - 1) > F.emin - 1
          [] ev.fn = "bins"   -> LET e == BinE(F, ev.n) IN
                                   IF ev.n = 0 THEN FSame(r, Fin(ZOfInt(3), F.emax - 2))
                                   ELSE FSame(r, Fin(ZOfInt(3), e + F.p - 2))
          [] OTHER -> FALSE
  IN  IF ok THEN "" ELSE "fn:" \o ev.fn

(* What is printed of an accumulator: for each bin, and each component in  *)
(* it, the exponent above the stored primary, its offset, the carry, and   *)
(* what the two stand for, which is the bin's total (in the bin's own      *)
(* scale); six significant digits, and the roundings on the way to them.   *)
PrintErr(F, K, m, ev) ==
  LET p == ev.post[1]
      close(F1, ws, z, e, c) ==                  \* the double ws is z 2^e
        LET r  == OfWords(FD, ws)
            lo == FMin2(IF IsFin(r) THEN r[3] ELSE 0, e) - 16
            sl == ZAdd(ZShr(ZAbs(ZShl(z, e - lo)), 16), ZShl(c, e - lo))
        IN  IF IsFin(r) THEN ZLe(ZAbs(ZSub(ZShl(r[2], r[3] - lo), ZShl(z, e - lo))), sl)
            ELSE F1.emax - 4 <= e + ZBits(z) + F1.p \/ F1.emax - 4 <= e + ZBits(c) + F1.p
      one(q, j) ==
        LET row == ev.rows[j]
            a   == m[p.s][q]
            pri == Dat(F, p.c[q][1][j])
            car == Dat(F, p.c[q][2][j])
            g   == FMin2(a.i + j - 1, MaxI(F))
            e   == PhysE(F, g)
            c   == CarInt(car)
            eps == ZAdd(ZAbs(c), ZOfInt(8))
        IN  /\ Len(row) = 4 * Len(p.c)
            /\ close(F, row[4 * q - 3], ZOfInt(e + F.p), 0, ZZero)
            /\ close(F, row[4 * q - 2], Off(F, pri), e, ZZero)
            /\ close(F, row[4 * q - 1], c, 0, ZZero)
            /\ close(F, row[4 * q], a.t[j], e, eps)
  IN  IF \A q \in 1..Len(p.c) : m[p.s][q].k = "f"
      THEN IF Len(ev.rows) = K /\ \A q \in 1..Len(p.c) : \A j \in 1..K : one(q, j) THEN "" ELSE "print"
      ELSE ""

(* dbbound(K, N, X, S) = N 2^(w(1-K)) max(|X|, least normal/..) + 7 eps |S|, rounded up or nearly so *)
BoundFnErr(F, K, ev) ==
  LET X == FAbs(Dat(F, ev.x[1]))
      S == FAbs(Dat(F, ev.x[2]))
      r == Dat(F, ev.ret[1])
      mn == Fin(ZOne, F.emin - 2)
      Y == IF FLess(X, mn) THEN mn ELSE X
      lo == FMin2(FMin2(Y[3], S[3]), FMin2(r[3], Qexp(F))) - F.w * K - F.p - 4
      b1 == ZMul(ZOfInt(ev.n), ZShl(Y[2], Y[3] - lo - F.w * (K - 1)))
      b2 == ZShr(ZMul(ZOfInt(7), ZShl(S[2], S[3] - lo)), F.p - 1)
      b  == ZAdd(b1, b2)
      q  == ZShl(ZOfInt(ev.n + 2), Qexp(F) - lo)        \* for underflow, of each term before it is taken n times
      up == ZAdd(ZAdd(b, ZShr(b, 7)), q)
      dn == ZSub(ZSub(b, ZShr(b, F.p - 4)), q)
  IN  IF IsFin(r) THEN (IF ZLe(ZShl(r[2], r[3] - lo), up) /\ ZLe(dn, ZShl(r[2], r[3] - lo)) THEN "" ELSE "fn:bound")
      ELSE "fn:bound"

(* largest magnitude; nothing is promised of data with NaNs in them (they reach the sum by being deposited) *)
AnyNaN(rs) == \E n \in 1..Len(rs) : rs[n][2][1] = "X"
AmaxErr(F, ev) ==
  LET rs == Runs(F, ev.runs)
      tm == CASE ev.kind = "sum" -> SumTerms(rs, ev.nc)
              [] ev.kind = "dot" -> DotTerms(F, rs)
              [] ev.kind = "dotu" -> DotuTerms(F, rs)
      ok(q) == LET r == Dat(F, ev.ret[q])
               IN  AnyNaN(tm[q]) \/ FSame(r, MaxAbs(tm[q]))
  IN  IF \A q \in 1..Len(tm) : ok(q) THEN "" ELSE "amax"

FrontErr(F, K, ev) ==
  LET tm == Terms(F, ev)
      ac == AddTerms(F, K, Empties(Len(tm)), tm)
      e  == ConvErr(F, ac, ev.ret)
  IN  IF e # "" THEN e ELSE AccErr(F, K, tm, ev.ret)

NormErr(F, K, ev) ==
  LET rs == Runs(F, ev.runs)
      s  == Ssq(F, K, Empty, NoS, IF ev.nc = 1 THEN Comp(rs, 1) ELSE Comp(rs, 1) \o Comp(rs, 2))
      r  == Dat(F, ev.ret[1])
  IN  IF ~NrmGood(F, s[1], IF s[2] = NoS THEN 0 ELSE s[2], r) THEN "norm"
      ELSE IF ~MemoGood("n", s[2], s[1], ev.ret[1]) THEN "irreproducible" ELSE ""

SqMemo(F, K, ev) ==
  LET rs == Runs(F, ev.runs)
      s  == Ssq(F, K, Empty, NoS, IF ev.nc = 1 THEN Comp(rs, 1) ELSE Comp(rs, 1) \o Comp(rs, 2))
  IN  <<"n", s[2], s[1], ev.ret[1]>>

RgemvErr(F, K, ev) ==
  LET be == Dats(F, ev.beta)
      y0 == Vec(F, ev.Y)
      y  == TLCEval([i \in 1..Len(y0) |-> BetaAcc(F, K, be, y0[i])])
      z  == Gemv(F, K, ev, y)
      ers == TLCEval([i \in 1..Len(z) |-> ConvErr(F, z[i], ev.ret[i])])
  IN  IF ev.M = 0 \/ ev.N = 0 THEN (IF ev.ret = ev.Y THEN "" ELSE "touched")
      ELSE IF \E i \in 1..Len(z) : ers[i] # "" THEN ers[CHOOSE i \in 1..Len(z) : ers[i] # ""] ELSE ""

RgemmErr(F, K, ev) ==
  LET be == Dats(F, ev.beta)
      y0 == Mat(F, ev.Y)
      y  == TLCEval([i \in 1..Len(y0) |-> [j \in 1..Len(y0[i]) |-> BetaAcc(F, K, be, y0[i][j])]])
      z  == Gemm(F, K, ev, y)
      er(i) == LET es == TLCEval([j \in 1..Len(z[i]) |-> ConvErr(F, z[i][j], ev.ret[i][j])])
               IN  IF \E j \in 1..Len(es) : es[j] # "" THEN es[CHOOSE j \in 1..Len(es) : es[j] # ""] ELSE ""
      ers == TLCEval([i \in 1..Len(z) |-> er(i)])
  IN  IF ev.M = 0 \/ ev.N = 0 THEN (IF ev.ret = ev.Y THEN "" ELSE "touched")
      ELSE IF \E i \in 1..Len(z) : ers[i] # "" THEN ers[CHOOSE i \in 1..Len(z) : ers[i] # ""] ELSE ""

Err(c, ev, m, s) ==
  LET F == Fmt(c)
      K == c.K
      p == PostErr(F, K, m, ev)
  IN  IF ev.stray # 0 THEN "stray"
      ELSE IF ev.leak # 0 THEN "leak"
      ELSE IF ev.mode # 0 THEN "mode"
      ELSE IF p # "" THEN p
      ELSE CASE ev.op = "conv"  -> ConvErrX(F, mem[ev.s], ev.ret, ~ev.loose)
             [] ev.op = "front" -> FrontErr(F, K, ev)
             [] ev.op = "norm2" -> NormErr(F, K, ev)
             [] ev.op = "duet"  -> IF ev.bad = 0 THEN "" ELSE "disturbed"
             [] ev.op = "fn"    -> FnErr(F, K, ev)
             [] ev.op = "print" -> PrintErr(F, K, m, ev)
             [] ev.op = "bound" -> BoundFnErr(F, K, ev)
             [] ev.op = "amax"  -> AmaxErr(F, ev)
             [] ev.op = "rgemv" -> RgemvErr(F, K, ev)
             [] ev.op = "rgemm" -> RgemmErr(F, K, ev)
             [] ev.op \in {"ssq", "addsq"} ->
                  LET r == Dat(F, ev.ret[1])
                  IN  IF IsScale(F, r) /\ (m[ev.d][1].k \in {"0", "f"} => ScaleOf(F, r) = s[ev.d]) THEN "" ELSE "scale"
             [] ev.op = "addsqv" ->
                  IF \A j \in 1..Len(ev.ds) : LET r == Dat(F, ev.ret[j])
                       IN  IsScale(F, r) /\ (m[ev.ds[j]][1].k \in {"0", "f"} => ScaleOf(F, r) = s[ev.ds[j]])
                  THEN "" ELSE "scale"
             [] OTHER -> ""

Memo(c, ev) ==
  LET F == Fmt(c)
      pairs == CASE ev.op = "conv" /\ ~ev.loose -> [q \in 1..Len(ev.ret) |-> <<"v", 0, mem[ev.s][q], ev.ret[q]>>]
                 [] ev.op = "front" -> LET tm == Terms(F, ev)
                                           ac == AddTerms(F, c.K, Empties(Len(tm)), tm)
                                       IN  [q \in 1..Len(ev.ret) |-> <<"v", 0, ac[q], ev.ret[q]>>]
                 [] ev.op = "norm2" -> <<SqMemo(F, c.K, ev)>>
                 [] OTHER -> <<>>
  IN  memo \o SelectSeq(pairs, LAMBDA p : ~\E n \in 1..Len(memo) : memo[n] = p)

(*------------------------------- spec -----------------------------------*)
SlotNames(c) == DOMAIN c.slots
Init == /\ cid \in 1..NCases
        /\ pc = 0
        /\ mem = [s \in SlotNames(Cases[cid]) |-> Empties(Cases[cid].slots[s])]
        /\ scl = [s \in SlotNames(Cases[cid]) |-> NoS]
        /\ memo = <<>>
        /\ bad = ""

Report(c, ev, e) == PrintT("@@BAD " \o ToString(cid) \o " " \o ToString(pc + 1) \o " " \o ev.op \o " " \o e)
Done(c) == PrintT("@@OK " \o ToString(cid))

Next == /\ bad = ""
        /\ pc < Len(Cases[cid].ev)
        /\ LET c  == Cases[cid]
               ev == c.ev[pc + 1]
               m  == NewMem(c, ev)
               s  == NewScl(c, ev)
               e  == Err(c, ev, m, s)
           IN  /\ mem' = m
               /\ scl' = s
               /\ memo' = Memo(c, ev)
               /\ bad' = e
               /\ pc' = pc + 1
               /\ cid' = cid
               /\ (e # "" => Report(c, ev, e))
               /\ ((e = "" /\ pc + 1 = Len(c.ev)) => Done(c))

TraceSpec == Init /\ [][Next]_vars

(* the invariant that a conforming implementation keeps *)
Conforms == bad = ""
================================================================================

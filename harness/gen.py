"""Plans (sequences of library calls) for the conformance checks.  Every generator is a function of a
random source and a size factor; the cases it makes are executed by driver.py and judged by Trace.tla."""
import itertools, random
from nums import F

FD, FS = F("d"), F("s")
TYPES = [(f, nc) for f in "ds" for nc in (1, 2)]
FMT = {"d": FD, "s": FS}


def firm(F, vecs):
    """At folds so large that the accumulator of a sum of squares reaches down to where the squares of
    the scaled numbers underflow, what is rounded off depends on the scale.  The numbers
    for which it could matter are replaced by zeros (DESIGN.md, "sums of squares")."""
    nums = {b for rs in vecs for x in rs for b in x[1:]}
    top = {}
    for b in nums:
        e = F.exp(b)
        if e is not None:
            top[b] = e
    lo = F.emin - 1 + F.w - 1
    tdiv = lambda n: F.w * (n // F.w if n >= 0 else -(-n // F.w))
    scales = {tdiv(max(e, lo)) for e in top.values()}
    frag = set()
    for b, e in top.items():
        m = b & ((1 << (F.p - 1)) - 1)
        if e >= F.emin - 1:
            m |= 1 << (F.p - 1)
        q = e + 1 - m.bit_length()
        while m & 1 == 0:
            m >>= 1
            q += 1
        n = (m * m).bit_length()
        for s in scales:
            lowbit, hi = 2 * (q - s), 2 * (q - s) + n
            if hi < F.emin and lowbit < F.emin - F.p and hi > F.last(F.maxi) - 3:
                frag.add(b)
    for rs in vecs:
        for x in rs:
            x[1:] = [0 if b in frag else b for b in x[1:]]


class B:
    """one case under construction"""
    n = 0

    def __init__(self, tag, f, K):
        B.n += 1
        self.c = {"id": "%s-%d" % (tag, B.n), "f": f, "K": K, "slots": [], "arrays": [], "ev": []}
        self.F = FMT[f]
        self.K = K

    def slot(self, name, nc=1, lay=None):
        self.c["slots"].append({"name": name, "nc": nc, "lay": lay or ["b"]})
        return name

    def array(self, name, n, nc=1, inc=1, scaled=False):
        self.c["arrays"].append({"name": name, "n": n, "nc": nc, "inc": inc, "scaled": scaled})
        return name

    def ev(self, op, **kw):
        self.c["ev"].append(dict(op=op, **kw))
        return self

    def done(self):
        if self.K > (24 if self.F.f == "d" else 10):
            firm(self.F, [e["runs"] for e in self.c["ev"] if e["op"] in ("ssq", "norm2")])
        return self.c


def fold(r, F):
    k = r.random()
    if k < .55:
        return r.choice([2, 3, 4])
    if k < .8:
        return r.choice([5, 6, 7, 8])
    if k < .9:
        return F.maxfold
    return r.randrange(2, F.maxfold + 1)


def lay(r):
    return ["b"] if r.random() < .5 else ["m", r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 4])]


def inc(r):
    return r.choice([1, 1, 1, 2, 3, 5]) if r.random() < .95 else r.choice([4, 7, 8, 16, 33, 64, 129])


def src(r, F, special=0.0, name=None, cap=None):
    s = F.profile(r, name, cap=cap)
    if special and r.random() < special:
        s = F.special(r, s, r.choice([.05, .2, .5]))
    return s


def vecs(r, F, n, nc, special=0.0, name=None, cap=None):
    ss = [src(r, F, special, name, cap) for _ in range(nc)]
    return [[s() for s in ss] for _ in range(n)]


def runs_of(vs):
    """consecutive equal entries are one run"""
    out = []
    for v in vs:
        if out and out[-1][1:] == v:
            out[-1][0] += 1
        else:
            out.append([1] + v)
    return out


def prestate(r, b, name, nc, special=0.0):
    """leave something in an accumulator"""
    k = r.randrange(5)
    if k == 0:
        return
    for v in vecs(r, b.F, r.randrange(1, 4), nc, special):
        b.ev("add", d=name, x=v, quiet=1)


def pick(r, combos, n):
    combos = list(combos)
    r.shuffle(combos)
    out = []
    while len(out) < n:
        out += combos[:n - len(out)]
    return out


# ---------------------------------------------------------------- scalars
def add_order(r, size, special=0.0, tag="add", names=None):
    """the same numbers, in several orders, directly or through the low-level protocol"""
    for f, nc in pick(r, TYPES, int(100 * size)):
        Fm = FMT[f]
        b = B(tag, f, fold(r, Fm))
        vs = vecs(r, Fm, r.choice([1, 2, 3, 4, 5, 8, 12, 20]), nc, special, r.choice(names) if names else None)
        for k in range(r.choice([2, 3])):
            s = b.slot("a%d" % k, nc, lay(r))
            if k:
                r.shuffle(vs)
            how = r.randrange(4)
            if how == 3:
                # room first, then a few deposits, then renormalise
                i = 0
                while i < len(vs):
                    n = r.choice([1, 2, 3, 7])
                    part = vs[i:i + n]
                    b.ev("update", d=s, x=[maxabs(Fm, [v[q] for v in part]) for q in range(nc)])
                    for v in part:
                        b.ev("deposit", d=s, x=v)
                    b.ev("renorm", d=s)
                    i += n
            else:
                for v in vs:
                    b.ev("add", d=s, x=v)
                    if how == 2 and r.random() < .2:
                        b.ev("renorm", d=s)
                    if r.random() < .1:
                        b.ev("conv", s=s)
            b.ev("conv", s=s)
        yield b.done()


def maxabs(F, bs):
    m = (1 << (F.bits - 1)) - 1
    nan = [x for x in bs if (x & m) > F.inf]
    if nan:
        return nan[0]
    return max((x & m for x in bs), default=0)


def merge_trees(r, size, special=0.0, tag="merge"):
    """the same numbers spread over accumulators and merged in several ways"""
    for f, nc in pick(r, TYPES, int(60 * size)):
        Fm = FMT[f]
        b = B(tag, f, fold(r, Fm))
        vs = vecs(r, Fm, r.choice([2, 4, 6, 10]), nc, special)
        for k in range(2):
            m = r.choice([2, 3, 4, 5])
            use = [b.slot("t%d_%d" % (k, j), nc, lay(r)) for j in range(m)]
            r.shuffle(vs)
            for v in vs:
                d = r.choice(use)
                if r.random() < .5:
                    b.ev("add", d=d, x=v)
                else:
                    b.ev("vec", kind="sum", nc=nc, d=d, runs=[[1] + v])
            while len(use) > 1:
                r.shuffle(use)
                s = use.pop()
                b.ev("merge", s=s, d=r.choice(use))
            if r.random() < .15:
                b.ev("merge", s=use[0], d=use[0])
            b.ev("conv", s=use[0])
        yield b.done()


def merge_vec(r, size, special=0.0, mpi=False, tag="mergev"):
    for f, nc in pick(r, TYPES, int(30 * size)):
        Fm = FMT[f]
        K = fold(r, Fm)
        b = B(tag, f, K)
        n = r.choice([1, 2, 3, 5, 8])
        ia, id_ = (1, 1) if mpi else (inc(r), inc(r))
        b.array("s", n, nc, ia)
        b.array("d", n, nc, id_)
        srcs = [src(r, Fm, special) for _ in range(nc)]
        for a in "sd":
            for i in range(n):
                for _ in range(r.choice([0, 1, 2, 3])):
                    b.ev("add", d=a + str(i), x=[s() for s in srcs], quiet=1)
        b.ev("mergev", sa="s", da="d", n=r.choice([n, n, n, max(0, n - 1), 0]) if not mpi else n, **({"mpi": 1} if mpi else {}))
        for i in range(n):
            b.ev("conv", s="d%d" % i)
        yield b.done()


def housekeeping(r, size, tag="house"):
    """copies, clearing, conversions, negation and renormalisation between other operations"""
    for f in pick(r, "ds", int(80 * size)):
        Fm = FMT[f]
        b = B(tag, f, fold(r, Fm))
        sl = {}
        for j in range(4):
            nc = 1 + j % 2
            sl[b.slot("h%d" % j, nc, lay(r))] = nc
        srcs = [src(r, Fm, .15) for _ in range(2)]
        for _ in range(r.choice([6, 10, 16])):
            d = r.choice(list(sl))
            nc = sl[d]
            k = r.randrange(9)
            x = [srcs[q]() for q in range(nc)]
            if k == 0:
                b.ev("fromf", d=d, x=x)
            elif k == 1:
                b.ev("negate", d=d)
            elif k == 2:
                b.ev("renorm", d=d)
            elif k == 3:
                b.ev("set0", d=d)
            elif k in (4, 5):
                s = r.choice([s for s in sl if s != d and (sl[s] == nc or (nc == 2 and sl[s] == 1))])
                b.ev("copy", s=s, d=d)
            elif k == 6:
                s = [s for s in sl if s != d and sl[s] == nc][0]
                b.ev("merge", s=s, d=d)
            else:
                b.ev("add", d=d, x=x)
            if r.random() < .5:
                b.ev("conv", s=d)
        yield b.done()


def prints(r, size, tag="prt"):
    """printing accumulators in all states, packed and strided"""
    for f, nc in pick(r, TYPES, int(60 * size)):
        Fm = FMT[f]
        b = B(tag, f, fold(r, Fm))
        d = b.slot("p", nc, lay(r))
        e = b.slot("q", nc, lay(r))
        srcs = [src(r, Fm) for _ in range(nc)]
        b.ev("add", d=d, x=[s() for s in srcs])
        b.ev("add", d=e, x=[s() for s in srcs])
        for _ in range(r.choice([2, 4, 8])):
            d, e = r.choice([(d, e), (e, d)])
            k = r.randrange(6)
            x = [s() for s in srcs]
            if k < 2:
                b.ev("add", d=d, x=x)
            elif k == 2:
                b.ev("vec", kind="sum", nc=nc, d=d, runs=[[r.choice([1, 1, 500]), *[s() for s in srcs]] for _ in range(r.randrange(1, 9))], incx=inc(r))
            elif k == 3:
                b.ev("negate", d=d)
            elif k == 4:
                b.ev("merge", s=e, d=d)
            else:
                b.ev("update", d=d, x=x)
                b.ev("deposit", d=d, x=x)
            b.ev("print", d=d)
        b.ev("conv", s=d)
        yield b.done()


def negation(r, size, special=.2, tag="neg"):
    """-(sum of x) = sum of -x; x + (-x) = 0"""
    for f, nc in pick(r, TYPES, int(48 * size)):
        Fm = FMT[f]
        b = B(tag, f, fold(r, Fm))
        for s in ("a", "n", "z"):
            b.slot(s, nc, lay(r))
        vs = vecs(r, Fm, r.choice([1, 2, 5, 9]), nc, special)
        for v in vs:
            b.ev("add", d="a", x=v)
        r.shuffle(vs)
        for v in vs:
            b.ev("add", d="n", x=[Fm.neg(x) for x in v])
        b.ev("conv", s="a").ev("conv", s="n")
        b.ev("copy", s="a", d="z").ev("negate", d="z").ev("conv", s="z")
        b.ev("merge", s="a", d="z").ev("conv", s="z")
        b.ev("negate", d="a").ev("conv", s="a").ev("negate", d="a").ev("conv", s="a")
        b.ev("merge", s="n", d="a").ev("conv", s="a")
        # complex accumulators are raised component by component by a real number
        for v in vs[:3]:
            b.ev("add", d="a", x=v)
        b.ev("negate", d="a").ev("renorm", d="a").ev("conv", s="a")
        yield b.done()


def protocol(r, size, tag="proto"):
    """the low-level protocol: update to a bound on what follows, deposit at most ENDURANCE numbers, renormalise"""
    for f, nc in pick(r, TYPES, int(60 * size)):
        Fm = FMT[f]
        b = B(tag, f, fold(r, Fm))
        s = b.slot("p", nc, lay(r))
        t = b.slot("q", nc, lay(r))
        for _ in range(r.choice([1, 2, 3])):
            n = r.choice([1, 2, 3, 5])
            vs = vecs(r, Fm, n, nc, .1)
            if nc == 2 and r.random() < .3:
                # one real bound for both components
                b.ev("update", d=s, x=[maxabs(Fm, [x for v in vs for x in v])])
            else:
                b.ev("update", d=s, x=[maxabs(Fm, [v[q] for v in vs]) for q in range(nc)])
            for v in vs:
                b.ev("deposit", d=s, x=v)
                b.ev("add", d=t, x=v)
            if r.random() < .3:
                b.ev("negate", d=s).ev("negate", d=t)
            b.ev("renorm", d=s)
            if r.random() < .5:
                b.ev("merge", s=s, d=t)
            b.ev("conv", s=s).ev("conv", s=t)
        yield b.done()
    # as many deposits as are allowed between renormalisations, of numbers as large as possible
    for f, nc in pick(r, TYPES, int(16 * size)):
        Fm = FMT[f]
        b = B(tag + "E", f, r.choice([2, 3, 4, 7]))
        s = b.slot("p", nc, lay(r))
        g = r.randrange(0, Fm.maxi - 1)
        for _ in range(r.choice([1, 2])):
            v = []
            for q in range(nc):
                e = Fm.top(g) - 1
                v.append(Fm.make(r.randrange(2), min(e, Fm.emax - 1), (1 << (Fm.p - 1)) - 1 if r.random() < .7 else Fm.mant(r)))
            b.ev("update", d=s, x=[x & ~(1 << (Fm.bits - 1)) for x in v])
            b.ev("deposits", d=s, runs=[[Fm.endur] + v])
            b.ev("renorm", d=s)
            b.ev("conv", s=s)
        yield b.done()


# ---------------------------------------------------------------- vectors
SUMS = [(f, nc, k) for f in "ds" for nc in (1, 2) for k in ("sum", "asum")]
DOTS = [(f, 1, "dot") for f in "ds"] + [(f, 2, k) for f in "ds" for k in ("dotu", "dotc")]
SQS = [(f, nc, None) for f in "ds" for nc in (1, 2)]
FOLDS = [2, 3, 4, 5, 0]        # 0: some other


def length(r):
    k = r.random()
    if k < .15:
        return r.randrange(0, 4)
    if k < .7:
        return r.randrange(0, 40)
    if k < .9:
        return r.randrange(40, 140)
    return r.choice([255, 256, 257, 300])


def vec_runs(r, Fm, n, nc, kind, special=0.0):
    if kind in ("sum", "asum", None):
        vs = vecs(r, Fm, n, nc, special) if kind else vecs(r, Fm, n, nc, special)
    else:
        ps = [Fm.pair(r) for _ in range(nc)]
        vs = []
        for _ in range(n):
            xy = [p() for p in ps]
            vs.append([a for a, _ in xy] + [c for _, c in xy])
        if special and n and r.random() < special:
            for _ in range(r.choice([1, 1, 2, 3])):
                vs[r.randrange(n)][r.randrange(2 * nc)] = r.choice([Fm.inf, Fm.ninf, Fm.nan, Fm.inf])
    # repeat one of the entries
    rs = [[1] + v for v in vs]
    return rs


def kernels(r, size, ops, per, special=0.0, tag="vec", long=True):
    """vector kernels at every fold specialisation, stride case and tail length"""
    combos = [(o, K) for o in ops for K in FOLDS]
    for (f, nc, kind), K in pick(r, combos, int(len(combos) * per * size)):
        Fm = FMT[f]
        K = K or (Fm.maxfold if r.random() < .3 else r.randrange(6, min(Fm.maxfold, 14)))
        b = B(tag, f, K)
        dnc = nc if kind in ("sum", "dotu", "dotc") else 1
        b.slot("y", dnc, lay(r))
        if kind is None and r.random() < .3:
            pass
        elif kind is not None:
            prestate(r, b, "y", dnc, special)
        for _ in range(r.choice([1, 1, 2, 3])):
            n = length(r) if K < 6 else min(length(r), 40)
            rs = vec_runs(r, Fm, n, nc, kind, special)
            kw = dict(nc=nc, d="y", runs=rs, incx=inc(r), incy=inc(r))
            if kind is None:
                b.ev("ssq", **kw)
            else:
                b.ev("vec", kind=kind, **kw)
        if kind is not None:
            b.ev("conv", s="y")
        yield b.done()
    if not long:
        return
    # around the block and capacity limits: long runs of a few numbers
    for (f, nc, kind), K in pick(r, combos, int(len(ops) * 3 * size)):
        Fm = FMT[f]
        K = K or r.randrange(6, 9)
        b = B(tag + "L", f, K)
        dnc = nc if kind in ("sum", "dotu", "dotc") else 1
        b.slot("y", dnc, lay(r))
        E = Fm.endur
        n = r.choice([E // 8, E // 4, E // 2, E, E, 2 * E]) + r.choice([-1, 0, 1, 3])
        if r.random() < .3:
            n = r.randrange(1, 3 * E)
        rs = vec_runs(r, Fm, r.choice([1, 2, 3, 6]), nc, kind, special)
        if r.random() < .7:
            # every term of the same sign and as large as its bin allows
            g = r.randrange(1, Fm.maxi - 1)
            big = Fm.make(r.randrange(2), Fm.top(g) - 1, (1 << (Fm.p - 1)) - 1)
            one, mone = Fm.one, Fm.neg(Fm.one)
            # a square just below the top of its bin
            sqb = Fm.make(0, 31 if f == "d" and r.random() < .5 else 11, (1 << (Fm.p - 1)) - 1)
            if f == "s" and r.random() < .4:
                sqb = Fm.make(0, 5, int(.41421 * (1 << (Fm.p - 1))))
            sqb += (Fm.w * r.randrange(-2, 3)) << (Fm.p - 1)
            rs = {"sum": [[1] + [big] * nc], "asum": [[1] + [big] * nc], None: [[1] + [sqb] * nc],
                  "dot": [[1, big, one]], "dotu": [[1, big, big, one, mone], [1, big, big, one, one]],
                  "dotc": [[1, big, big, one, one], [1, big, big, one, mone]]}[kind][:r.choice([1, 1, 2])]
        left = n
        for i, q in enumerate(rs):
            q[0] = left if i == len(rs) - 1 else r.randrange(0, left + 1) if left else 0
            left -= q[0]
        rs = [q for q in rs if q[0]]
        kw = dict(nc=nc, d="y", runs=rs, incx=inc(r), incy=inc(r))
        if kind is None:
            b.ev("ssq", **kw)
        else:
            if r.random() < .5:
                prestate(r, b, "y", dnc)
            b.ev("vec", kind=kind, **kw)
            b.ev("conv", s="y")
        yield b.done()


def same_many_ways(r, size, ops, tag="ways", special=0.0):
    """one vector, accumulated whole, permuted, strided, cut into pieces and merged: every result has the same bits"""
    for f, nc, kind in pick(r, ops, int(len(ops) * 5 * size)):
        Fm = FMT[f]
        b = B(tag, f, fold(r, Fm) if r.random() < .5 else 3)
        dnc = nc if kind in ("sum", "dotu", "dotc") else 1
        n = r.choice([3, 7, 16, 33, 60])
        rs = vec_runs(r, Fm, n, nc, kind, special)
        for k in range(3):
            d = b.slot("w%d" % k, dnc, lay(r))
            r.shuffle(rs)
            rr = [list(x) for x in rs]
            if k == 0:
                b.ev("vec", kind=kind, nc=nc, d=d, runs=rr)
            elif k == 1:
                i = 0
                while i < n:
                    m = r.randrange(1, n + 1)
                    b.ev("vec", kind=kind, nc=nc, d=d, runs=rr[i:i + m], incx=inc(r), incy=inc(r))
                    i += m
            else:
                b.slot("v", dnc, lay(r))
                m = r.randrange(0, n + 1)
                b.ev("vec", kind=kind, nc=nc, d=d, runs=rr[:m], incx=inc(r), incy=inc(r))
                b.ev("vec", kind=kind, nc=nc, d="v", runs=rr[m:], incx=inc(r), incy=inc(r))
                b.ev("merge", s="v", d=d)
            b.ev("conv", s=d)
        if f == "d" or f == "s":
            b.ev("front", kind=kind, nc=nc, runs=[list(x) for x in rs], incx=inc(r), incy=inc(r))
        yield b.done()


def fronts(r, size, ops, special=0.0, tag="front"):
    for (f, nc, kind), dflt in pick(r, itertools.product(ops, (0, 0, 1)), int(len(ops) * 6 * size)):
        Fm = FMT[f]
        b = B(tag, f, 3 if dflt else fold(r, Fm))
        for _ in range(r.choice([1, 2])):
            n = length(r)
            if b.K > 8:
                n = min(n, 40)
            rs = vec_runs(r, Fm, n, nc, kind, special)
            for k in range(2):
                kw = dict(nc=nc, runs=[list(x) for x in rs], incx=inc(r), incy=inc(r))
                if dflt:
                    kw["dflt"] = 1 if k == 0 else 0
                if kind is None:
                    b.ev("norm2", **kw)
                else:
                    b.ev("front", kind=kind, **kw)
                r.shuffle(rs)
        yield b.done()


def accuracy(r, size, tag="acc"):
    """sums with much cancellation, whose error is close to what is promised"""
    for (f, nc, kind) in pick(r, SUMS + DOTS, int(70 * size)):
        Fm = FMT[f]
        K = r.choice([2, 2, 3, 3, 4, 5, 6, fold(r, Fm)])
        b = B(tag, f, K)
        n = r.choice([2, 4, 9, 20, 50])
        cap = Fm.emax - 9
        c = r.randrange(Fm.emin + 3 * Fm.w, cap)
        rows = []
        m = nc if kind in ("sum", "asum") else 2 * nc

        def one(d):
            return Fm.num(r, c - d) if kind in ("sum", "asum") else None
        spread = r.choice([0, Fm.w // 2, Fm.w, 2 * Fm.w, K * Fm.w, (K - 1) * Fm.w])
        for _ in range(n):
            d = r.randrange(0, spread + 1)
            if kind in ("sum", "asum"):
                v = [one(d) for _ in range(nc)]
                rows.append(v)
                if r.random() < .8:
                    rows.append([Fm.neg(x) for x in v])
            else:
                h = (c - d) // 2
                v = [Fm.num(r, h + r.randrange(-3, 4)) for _ in range(m)]
                rows.append(v)
                if r.random() < .8:
                    rows.append([Fm.neg(x) for x in v[:nc]] + v[nc:])
        r.shuffle(rows)
        if r.random() < .5 and kind in ("sum", "asum"):
            # a small number that has to survive
            rows.append([Fm.num(r, c - r.randrange(spread, spread + 2 * Fm.w)) for _ in range(m)])
        rs = [[1] + v for v in rows]
        b.ev("front", kind=kind, nc=nc, runs=rs)
        yield b.done()
    # totals that are exactly half way, or a bin apart: the conversion
    for f in pick(r, "ds", int(60 * size)):
        Fm = FMT[f]
        b = B(tag + "C", f, fold(r, Fm))
        for k in range(3):
            d = b.slot("c%d" % k, 1, lay(r))
            g = r.randrange(0, Fm.maxi)
            t = min(Fm.top(g), Fm.emax)
            for _ in range(r.choice([1, 2, 3, 5])):
                e = t - 1 - r.choice([0, 1, Fm.w - 1, Fm.w, Fm.w + 1, Fm.p, Fm.p + 1, r.randrange(0, 3 * Fm.w)])
                b.ev("add", d=d, x=[Fm.num(r, max(e, Fm.emin - Fm.p))], quiet=1)
            if r.random() < .4:
                v = Fm.num(r, max(t - 2, Fm.emin))
                b.ev("vec", kind="sum", nc=1, d=d, runs=[[r.randrange(1, 3 * Fm.endur), v]])
                if r.random() < .5:
                    b.ev("vec", kind="sum", nc=1, d=d, runs=[[r.randrange(1, 3 * Fm.endur), Fm.neg(v)]])
            b.ev("conv", s=d)
        yield b.done()


def intval(F, b):
    """a number as an integer, in units of the least subnormal"""
    e = F.exp(b)
    if e is None:
        return 0
    m = b & ((1 << (F.p - 1)) - 1)
    q = 0
    if e >= F.emin - 1:
        m |= 1 << (F.p - 1)
        q = e - (F.emin - 1)
    return -(m << q) if b >> (F.bits - 1) else m << q


def chunks(r, F, v):
    """numbers whose sum is v (an integer, as above)"""
    out = []
    s, v = v < 0, abs(v)
    while v:
        n = v.bit_length()
        k = max(0, n - r.choice([F.p, F.p, r.randrange(1, F.p + 1)]))
        m = v >> k
        if r.random() < .3 and m + 1 < 1 << F.p and k:
            m += 1                  # too much: the rest changes its sign
        out.append(F.fromint(s, m, k + F.emin - F.p))
        v -= m << k
        if v < 0:
            s, v = not s, -v
    return out


def collapse(r, size, tag="col"):
    """numbers that cancel, though not bin by bin, up to something small (or nothing)"""
    for f in pick(r, "dss", int(40 * size)):
        Fm = FMT[f]
        K = r.choice([3, 4, 5, 6, 7, 8, 10, min(Fm.maxfold, 16)])
        b = B(tag, f, K)
        g = r.randrange(0, Fm.maxi - 1)
        t = min(Fm.top(g), Fm.emax - 3)
        lo = max(Fm.emin - Fm.p + 1, t - (K - 1) * Fm.w)
        vs = [Fm.num(r, r.choice([t - 1, r.randrange(lo, t), r.randrange(max(lo, t - 2 * Fm.w), t)])) for _ in range(r.choice([2, 3, 5, 9]))]
        if r.random() < .4:
            # parts of a last place
            u = Fm.last(g + r.randrange(0, 2))
            vs += [Fm.fromint(r.randrange(2), r.choice([3, 5, 7, 1]), max(u - r.choice([1, 2, 3]), Fm.emin - Fm.p)) for _ in range(4)]
        tot = sum(intval(Fm, x) for x in vs)
        vs += chunks(r, Fm, -tot)
        k = r.random()
        if k < .8:
            small = Fm.num(r, r.randrange(lo, max(lo, t - Fm.w) + 1))
            vs.append(small)
            if k < .3:
                vs.append(Fm.num(r, r.randrange(lo, max(lo, t - Fm.w) + 1)))
        for q in range(2):
            d = b.slot("s%d" % q, 1, lay(r))
            r.shuffle(vs)
            b.ev("vec", kind="sum", nc=1, d=d, runs=[[1, v] for v in vs], incx=inc(r)) if q else [b.ev("add", d=d, x=[v], quiet=1) for v in vs]
            b.ev("conv", s=d)
        b.ev("front", kind="sum", nc=1, runs=[[1, v] for v in vs], incx=inc(r))
        yield b.done()


def deep(r, size, tag="deep"):
    """many bins, room for the largest numbers, and a total anywhere below"""
    for f in pick(r, "dds", int(40 * size)):
        Fm = FMT[f]
        K = min(Fm.maxfold, r.choice([5, 8, 12, 16, 20, 24, 28, 36, 44, 52]))
        b = B(tag, f, K)
        for q in range(2):
            d = b.slot("p%d" % q, 1, lay(r))
            g = r.choice([0, 0, 1, 2, 3, r.randrange(0, Fm.maxi)])
            t = min(Fm.top(g), Fm.emax)
            lo = max(Fm.emin - Fm.p + 1, t - K * Fm.w)
            big = Fm.num(r, t - 1)
            if r.random() < .5:
                b.ev("update", d=d, x=[big]).ev("renorm", d=d)
            else:
                b.ev("add", d=d, x=[big], quiet=1).ev("add", d=d, x=[Fm.neg(big)])
            h = t if r.random() < .2 else r.randrange(lo, t)
            for _ in range(r.choice([1, 1, 2, 4, 7])):
                v = Fm.num(r, max(lo, h - 1 - r.choice([0, 1, r.randrange(0, 2 * Fm.w), r.randrange(0, Fm.p + 2), r.randrange(0, h - lo + 1)])))
                if r.random() < .3:
                    b.ev("vec", kind="sum", nc=1, d=d, runs=[[r.choice([1, 5, 700]), v]])
                else:
                    b.ev("add", d=d, x=[v])
            b.ev("conv", s=d)
        yield b.done()


def bounds(r, size, tag="bound"):
    for f in pick(r, "ds", int(120 * size)):
        Fm = FMT[f]
        b = B(tag, f, r.randrange(2, Fm.maxfold + 1) if r.random() < .5 else r.choice([2, 3, 4]))
        for _ in range(3):
            X = r.choice([Fm.num(r, r.randrange(-30, 30)), Fm.num(r, r.randrange(Fm.emin - Fm.p, Fm.emax - 40)), 0])
            S = r.choice([Fm.num(r, r.randrange(-60, 30)), 0, X, Fm.num(r, r.randrange(Fm.emin - Fm.p, Fm.emax - 8))])
            b.ev("bound", n=r.choice([0, 1, 2, 7, 100, 4096, 1 << 20]), x=[X, S])
        yield b.done()


def blocks(r, size, tag="blk", special=1.0, limit=1 << 30):
    """more numbers than the kernels take at a time, with exceptional ones in some of the blocks: runs of
    equal numbers keep the specification's sums short"""
    for (f, nc, kind) in pick(r, SUMS + DOTS + SQS, int(40 * size)):
        Fm = FMT[f]
        b = B(tag, f, r.choice([2, 3, 4, 5]))
        dnc = nc if kind in ("sum", "dotu", "dotc") else 1
        m = nc if kind in ("sum", "asum", None) else 2 * nc
        nb = min(limit, r.choice([256, 512, 1024, 2048]))
        b.slot("y", dnc, lay(r))
        for _ in range(r.choice([1, 1, 2])):
            rs = []
            for x in vec_runs(r, Fm, r.choice([2, 3, 4, 6]), nc, kind):
                x[0] = r.choice([1, 5, nb - 1, nb, nb + 1, r.randrange(1, 2 * nb)])
                rs.append(x)
            if r.random() < special:
                bad = r.choice([[Fm.inf, Fm.ninf], [Fm.inf], [Fm.ninf], [Fm.nan], [Fm.inf, Fm.nan], [Fm.inf, Fm.ninf, Fm.nan]])
                def put(i, x):
                    v = list(r.choice(rs)[1:])
                    v[r.randrange(m)] = x
                    rs.insert(i, [r.choice([1, 1, 3])] + v)
                if r.random() < .5:
                    for _ in range(r.choice([1, 2, 2, 3])):
                        put(r.randrange(len(rs) + 1), r.choice(bad))
                else:
                    # an infinity in an early block, and only in a later one what decides
                    rs[0][0] = max(1, nb - 2)
                    fin = list(rs[0][1:])
                    put(r.randrange(2), r.choice([Fm.inf, Fm.ninf]))
                    rs.append([r.choice([nb, nb + 1, 2 * nb])] + fin)
                    put(len(rs) - r.randrange(2), r.choice([Fm.nan, Fm.inf, Fm.ninf]))
            kw = dict(nc=nc, d="y", runs=rs, incx=inc(r), incy=inc(r))
            if kind is None:
                b.ev("ssq", **kw)
            else:
                b.ev("vec", kind=kind, **kw)
        if kind is None:
            b.ev("norm2", nc=nc, runs=[list(x) for x in rs], incx=inc(r))
        else:
            b.ev("conv", s="y")
            b.ev("front", kind=kind, nc=nc, runs=[list(x) for x in rs], incx=inc(r), incy=inc(r))
        yield b.done()


def specials(r, size, tag="spec"):
    """infinities and NaNs at every place, with every kind of finite neighbour, through every way of adding"""
    for c in add_order(r, .5 * size, 1.0, tag + "A"):
        yield c
    for c in merge_trees(r, .5 * size, 1.0, tag + "M"):
        yield c
    for c in merge_vec(r, .3 * size, 1.0, False, tag + "V"):
        yield c
    for c in kernels(r, size, SUMS + DOTS, .8, 1.0, tag + "K", long=False):
        yield c
    for c in kernels(r, size, SQS, .5, 1.0, tag + "Q", long=False):
        yield c
    for c in same_many_ways(r, .4 * size, SUMS + DOTS, tag + "W", 1.0):
        yield c
    # large finite numbers whose plain sum overflows, around one or several exceptional ones
    for (f, nc, kind) in pick(r, SUMS + DOTS, int(40 * size)):
        Fm = FMT[f]
        b = B(tag + "O", f, r.choice([2, 3, 4, 5]))
        dnc = nc if kind in ("sum", "dotu", "dotc") else 1
        b.slot("y", dnc, lay(r))
        n = r.choice([3, 5, 12, 40])
        m = nc if kind in ("sum", "asum") else 2 * nc
        s = r.randrange(2)
        half = Fm.emax // 2
        rs = []
        for _ in range(n):
            if kind in ("sum", "asum"):
                rs.append([1] + [Fm.make(s, Fm.emax - 1, Fm.mant(r)) for _ in range(nc)])
            else:
                rs.append([1] + [Fm.make(s, half - 1, Fm.mant(r)) for _ in range(nc)] + [Fm.make(0, half - 1, 0) for _ in range(nc)])
        bad = r.choice([Fm.inf, Fm.ninf, Fm.ninf, Fm.inf, Fm.nan])
        for _ in range(r.choice([1, 1, 2])):
            rs[r.randrange(n)][1 + r.randrange(nc)] = bad
        b.ev("vec", kind=kind, nc=nc, d="y", runs=rs)
        b.ev("conv", s="y")
        b.ev("vec", kind=kind, nc=nc, d="y", runs=[x for x in rs if not any(v in (Fm.inf, Fm.ninf, Fm.nan) for v in x)])
        b.ev("conv", s="y")
        yield b.done()


def extremes(r, size, tag="ext"):
    """the ends of the exponent range"""
    for c in add_order(r, .8 * size, 0, tag + "A", ["huge", "tiny", "wide", "edge"]):
        yield c
    for (f, nc, kind) in pick(r, SUMS + DOTS, int(80 * size)):
        Fm = FMT[f]
        b = B(tag, f, fold(r, Fm))
        dnc = nc if kind in ("sum", "dotu", "dotc") else 1
        b.slot("y", dnc, lay(r))
        n = r.choice([1, 2, 5, 17, 40]) if b.K < 9 else r.choice([1, 5, 12])
        nm = r.choice(["huge", "tiny"])
        if kind in ("sum", "asum"):
            vs = vecs(r, Fm, n, nc, 0, nm)
        else:
            ps = [Fm.pair(r, nm) for _ in range(nc)]
            vs = []
            for _ in range(n):
                xy = [p() for p in ps]
                vs.append([a for a, _ in xy] + [c for _, c in xy])
        b.ev("vec", kind=kind, nc=nc, d="y", runs=[[1] + v for v in vs], incx=inc(r), incy=inc(r))
        b.ev("conv", s="y")
        if nm == "huge" and r.random() < .7 and kind == "sum":
            # beyond the range and back
            b.ev("vec", kind=kind, nc=nc, d="y", runs=[[1] + [Fm.neg(x) for x in v] for v in vs[1:]], incx=inc(r))
            b.ev("conv", s="y")
        b.ev("front", kind=kind, nc=nc, runs=[[1] + v for v in vs])
        yield b.done()
    for f in pick(r, "ds", int(30 * size)):
        # many of the largest numbers
        Fm = FMT[f]
        b = B(tag + "H", f, r.choice([2, 3, 4, 5]))
        b.slot("y")
        v = r.choice([Fm.max, Fm.make(0, Fm.emax - 1, 0), Fm.num(r, Fm.emax - 1, 0)])
        n = r.choice([1, 2, 100, Fm.endur, 3 * Fm.endur + 1])
        m = r.choice([n, n - 1, n + 1, 0])
        b.ev("vec", kind="sum", nc=1, d="y", runs=[[n, v]]).ev("conv", s="y")
        if m:
            b.ev("vec", kind="sum", nc=1, d="y", runs=[[m, Fm.neg(v)]]).ev("conv", s="y")
        b.ev("add", d="y", x=[Fm.num(r, r.randrange(Fm.emin - Fm.p, Fm.emax))]).ev("conv", s="y")
        yield b.done()


def endurance(r, size, tag="end"):
    """long accumulations"""
    for c in kernels(r, size, SUMS + DOTS, 0, 0, tag, long=True):
        yield c
    for (f, nc, kind) in pick(r, SUMS + DOTS, int(24 * size)):
        Fm = FMT[f]
        K = r.choice([2, 3, 4, 5])
        b = B(tag + "X", f, K)
        dnc = nc if kind in ("sum", "dotu", "dotc") else 1
        b.slot("y", dnc, lay(r))
        g = r.randrange(1, Fm.maxi - 1)
        for _ in range(r.choice([2, 3])):
            big = Fm.make(r.randrange(2), Fm.top(g) - 1, r.choice([(1 << (Fm.p - 1)) - 1, Fm.mant(r)]))
            n = r.choice([20000, 50000, 3 * Fm.endur, 100003])
            run = {"sum": [big] * nc, "asum": [big] * nc, "dot": [big, Fm.one], "dotu": [big, big, Fm.one, Fm.neg(Fm.one)],
                   "dotc": [big, big, Fm.one, Fm.one]}[kind]
            b.ev("vec", kind=kind, nc=nc, d="y", runs=[[n] + run])
        b.ev("conv", s="y")
        yield b.done()
    # an accumulator doubled again and again: the carries grow as they would after very many additions
    for f, nc in pick(r, TYPES, int(16 * size)):
        Fm = FMT[f]
        b = B(tag + "D", f, r.choice([2, 3, 5]))
        b.slot("a", nc, lay(r))
        b.slot("b", nc, lay(r))
        for v in vecs(r, Fm, 3, nc, 0, r.choice(["local", "full", "huge"])):
            b.ev("add", d="a", x=v)
        b.ev("copy", s="a", d="b")
        # capacity of the carry field: 2^p units of 2^(p-3) last places; deposits are at most 2^w last places
        for _ in range(r.choice([10, 20]) if f == "s" else r.choice([20, 40])):
            b.ev("merge", s="a", d="b")
            b.ev("copy", s="b", d="a")
        b.ev("conv", s="b")
        b.ev("add", d="b", x=vecs(r, Fm, 1, nc)[0])
        b.ev("conv", s="b")
        yield b.done()


# ---------------------------------------------------------------- sums of squares
def sqsrc(r, Fm, special=0.0):
    nm = r.choice(["unit", "wide", "wide", "huge", "tiny", "local", "edge", "zeros", "scales"])
    if nm == "scales":
        w = Fm.w
        k = r.randrange(-(Fm.emax // w), Fm.emax // w)
        h = lambda: Fm.num(r, min(Fm.emax - 1, w * k + r.choice([-1, 0, 1, w - 1])))
    else:
        h = Fm.profile(r, nm)
    return Fm.special(r, h) if r.random() < special else h


def squares(r, size, special=0.0, tag="ssq"):
    for f, nc, K in pick(r, itertools.product("ds", (1, 2), [2, 3, 4, 5, 0]), int(50 * size)):
        Fm = FMT[f]
        K = K or r.choice([6, 7, 8, 12])
        b = B(tag, f, K)
        b.slot("y", 1, lay(r))
        ss = [sqsrc(r, Fm, special) for _ in range(nc)]
        for _ in range(r.choice([1, 2, 3])):
            n = length(r) if K < 6 else min(length(r), 30)
            if r.random() < .3:
                ss = [sqsrc(r, Fm, special) for _ in range(nc)]
            b.ev("ssq", nc=nc, d="y", runs=[[1] + [s() for s in ss] for _ in range(n)], incx=inc(r))
        yield b.done()
    for c in kernels(r, .5 * size, SQS, .3, special, tag + "K"):
        yield c


def square_parts(r, size, mpi=False, tag="sqp", special=0.0):
    """sums of squares of parts, with scales of their own, combined in every order"""
    for f, nc in pick(r, TYPES, int(50 * size)):
        Fm = FMT[f]
        K = r.choice([2, 3, 3, 4, 5, 6])
        b = B(tag, f, K)
        parts = r.choice([2, 3, 4])
        groups = []
        base = sqsrc(r, Fm, special)
        for _ in range(parts):
            if r.random() < .6:
                base = sqsrc(r, Fm, special)
            groups.append([[1] + [base() for _ in range(nc)] for _ in range(r.choice([0, 1, 1, 3, 8]))])
        if mpi:
            n = r.choice([1, 2, 3])
            for k in range(parts):
                b.array("m%d_" % k, n, 1, 1, True)
                for i in range(n):
                    if groups[(k + i) % parts]:
                        b.ev("ssq", nc=nc, d="m%d_%d" % (k, i), runs=[list(x) for x in groups[(k + i) % parts]], quiet=1)
            ks = list(range(parts))
            while len(ks) > 1:
                r.shuffle(ks)
                s = ks.pop()
                b.ev("addsqv", sa="m%d_" % s, da="m%d_" % r.choice(ks), n=n)
            yield b.done()
            continue
        for k in range(2):
            use = []
            for j, gset in enumerate(groups):
                s = b.slot("q%d_%d" % (k, j), 1, lay(r))
                use.append(s)
                if gset:
                    b.ev("ssq", nc=nc, d=s, runs=[list(x) for x in gset], incx=inc(r))
            while len(use) > 1:
                r.shuffle(use)
                s = use.pop()
                b.ev("addsq", s=s, d=r.choice(use))
            # go on adding squares to the combination
            if r.random() < .4:
                b.ev("ssq", nc=nc, d=use[0], runs=[[1] + [base() for _ in range(nc)] for _ in range(3)])
        yield b.done()


def unlike(r, size, tag="unl"):
    """sums of squares of the two orders of scales, combined: either into the other"""
    for f, nc in pick(r, TYPES, int(40 * size)):
        Fm = FMT[f]
        w = Fm.w
        b = B(tag, f, r.choice([2, 3, 3, 4, 5]))
        k = r.randrange(-(Fm.emax // w) + 3, Fm.emax // w - 3)
        ks = [k, k + r.choice([1, 1, 2])]
        if r.random() < .5:
            ks.reverse()
        for s, j in zip("xy", ks):
            b.slot(s, 1, lay(r))
            b.ev("ssq", nc=nc, d=s, runs=[[1] + [Fm.num(r, w * j + r.choice([0, 1, w // 2])) for _ in range(nc)] for _ in range(r.choice([1, 2, 5]))])
        b.ev("addsq", s="x", d="y")
        yield b.done()


def rescales(r, size, tag="resc"):
    """the division of a stored sum by a power of the square of the scale step, on its own"""
    for f, nc in pick(r, TYPES, int(40 * size)):
        Fm = FMT[f]
        K = r.choice([2, 3, 4, 5, 8])
        b = B(tag, f, K)
        d = b.slot("y", nc, lay(r))
        m = Fm.emax // Fm.w - 1
        for _ in range(r.choice([1, 2, 3])):
            n = r.choice([0, 1, 1, 1, 2, 3, r.randrange(0, m)])
            # what a scaled sum holds: nothing in the topmost bins
            h = lambda: Fm.num(r, r.randrange(Fm.emin - Fm.p, Fm.emax - 2 * Fm.w - 1) if r.random() < .5 else r.randrange(-2 * Fm.w, 2 * Fm.w))
            for _ in range(r.choice([1, 2, 5])):
                b.ev("add", d=d, x=[h() for _ in range(nc)])
            b.ev("rescale", d=d, n=n, **{"from": r.randrange(-m, m - n + 1)})
            b.ev("renorm", d=d)
            b.ev("conv", s=d)
        b.ev("add", d=d, x=[h() for _ in range(nc)])
        b.ev("conv", s=d)
        yield b.done()


def norms(r, size, special=0.0, tag="nrm"):
    for f, nc, dflt in pick(r, itertools.product("ds", (1, 2), (0, 0, 1)), int(60 * size)):
        Fm = FMT[f]
        b = B(tag, f, 3 if dflt else r.choice([2, 3, 4, 5, 6, 7, 9]))
        ss = [sqsrc(r, Fm, special) for _ in range(nc)]
        n = length(r) if b.K < 6 else min(length(r), 30)
        rs = [[1] + [s() for s in ss] for _ in range(n)]
        for k in range(3):
            b.ev("norm2", nc=nc, runs=[list(x) for x in rs], incx=inc(r), **({"dflt": 1} if dflt and k < 2 else {}))
            r.shuffle(rs)
        yield b.done()


# ---------------------------------------------------------------- matrices
def sparse(r, Fm, n):
    """few different numbers, mostly zero"""
    h = Fm.profile(r, r.choice(["unit", "local"]), cap=Fm.emax // 2 - 12)
    p = min(.5, 40 / n)
    return lambda: h() if r.random() < p else 0


def coef(r, Fm, nc, kind=None):
    k = kind if kind is not None else 0 if r.random() < .25 else r.randrange(7)
    one, mone = Fm.one, Fm.neg(Fm.one)
    if k == 0:
        v = [one, 0]
    elif k == 1:
        v = [0, 0]
    elif k == 2:
        v = [mone, 0]
    elif k == 3:
        v = [one, one]
    elif k == 4:
        v = [0, one]
    else:
        v = [Fm.num(r, r.randrange(-3, 4)), Fm.num(r, r.randrange(-3, 4))]
    return v[:nc]


def elem(r, Fm, nc, prof):
    return [prof() for _ in range(nc)]


def dims(r, mode):
    if mode == 0:
        return r.choice([1, 2, 3, 4, 5, 7])
    if mode == 1:
        return r.randrange(1, 14)
    return r.choice([1, 8, 9, 16, 17])


TR = [("n", "n"), ("t", "t"), ("c", "c"), ("N", "n"), ("T", "t"), ("C", "c")]


def trans(r, t, nc):
    """the character passed and what it means"""
    ch = t if r.random() < .7 else t.upper()
    return ch, ("t" if t == "c" and nc == 1 else t)


def gemv(r, size, tag="gemv", front=.5, special=0.0, big=True, far=0):
    combos = list(itertools.product("ds", (1, 2), "rc", "ntc"))
    for f, nc, order, t in pick(r, combos, int(len(combos) * 2.5 * size)):
        Fm = FMT[f]
        isf = r.random() < front
        dflt = isf and r.random() < .4
        b = B(tag, f, 3 if dflt else r.choice([2, 2, 3, 3, 4, 5, 6]))
        M, N = dims(r, r.randrange(3)), dims(r, r.randrange(3))
        if far and r.random() < far:
            M, N = r.choice([(r.randrange(1, 5), r.randrange(1, 24)), (r.randrange(1, 24), r.randrange(1, 5))])
        if r.random() < .04:
            M = 0
        elif r.random() < .04:
            N = 0
        prof = Fm.profile(r, r.choice(["unit", "local", "wide", "cancel", "edge"]), cap=Fm.emax // 2 - 12)
        if r.random() < special:
            prof = Fm.special(r, prof, .08)
        yield one_gemv(r, b, f, nc, order, t, M, N, prof, isf, dflt)
    if not big:
        return
    # beyond the block sizes of the loops (kept cheap: few distinct rows)
    for f, nc, order, t in pick(r, combos, int(len(combos) * .35 * size)):
        Fm = FMT[f]
        b = B(tag + "L", f, r.choice([2, 3]))
        M, N = r.choice([(3, 70), (70, 3), (2, 150), (150, 2), (20, 20), (33, 34), (1, 300), (300, 1)])
        prof = Fm.profile(r, r.choice(["unit", "local"]), cap=Fm.emax // 2 - 12)
        yield one_gemv(r, b, f, nc, order, t, M, N, prof, r.random() < .3, False)
    # one more than the longest block there is: most terms are zero, so that the sums stay cheap
    for f, nc, order, t in pick(r, combos, int(len(combos) * .12 * size)):
        Fm = FMT[f]
        b = B(tag + "X", f, r.choice([2, 3, 4, 5]))
        k = r.choice([270, 530, 1030, 2060, 4100])
        M, N = r.choice([(k, 1), (1, k), (2, k), (k, 2)])
        prof = sparse(r, Fm, k)
        yield one_gemv(r, b, f, nc, order, t, M, N, prof, r.random() < .3, False)


def one_gemv(r, b, f, nc, order, t, M, N, prof, isf, dflt):
    Fm = b.F
    ch, tn = trans(r, t, nc)
    xn, yn = (N, M) if tn == "n" else (M, N)
    A = [[elem(r, Fm, nc, prof) for _ in range(N)] for _ in range(M)]
    X = [elem(r, Fm, nc, prof) for _ in range(xn)]
    o = order if r.random() < .8 else order.upper()
    ev = dict(nc=nc, order=o, tac=ch, ta=tn, M=M, N=N, A=A, X=X, alpha=coef(r, Fm, nc), xlda=r.choice([0, 0, 1, 5]),
              incx=inc(r), incy=inc(r))
    if isf:
        Y = [elem(r, Fm, nc, prof) for _ in range(yn)]
        b.ev("rgemv", beta=coef(r, Fm, nc), Y=Y, **ev, **({"dflt": 1} if dflt else {}))
    else:
        b.array("y", yn, nc, r.choice([1, 1, 2]))
        for i in range(yn):
            if r.random() < min(.4, 25 / yn):
                b.ev("add", d="y%d" % i, x=elem(r, Fm, nc, prof), quiet=1)
        if yn and M and N:
            b.ev("gemv", da="y", **ev)
            if r.random() < .5:
                b.ev("gemv", da="y", **ev)
            for i in range(min(yn, 5)):
                b.ev("conv", s="y%d" % i)
    return b.done()


def gemm(r, size, tag="gemm", front=.5, special=0.0, big=True, far=0):
    combos = list(itertools.product("ds", (1, 2), "rc", "ntc", "ntc"))
    for f, nc, order, ta, tb in pick(r, combos, int(len(combos) * 1.3 * size)):
        Fm = FMT[f]
        isf = r.random() < front
        dflt = isf and r.random() < .4
        b = B(tag, f, 3 if dflt else r.choice([2, 2, 3, 4, 5]))
        M, N, K = (r.choice([1, 2, 3, 4, 5, 6]) for _ in range(3))
        if far and r.random() < far:
            M, N, K = (r.choice([1, 2, 2, 3]) for _ in range(3))
            k = r.randrange(2, 24)
            M, N, K = r.choice([(k, N, K), (M, k, K), (M, N, k), (M, N, k), (M, N, k)])
        if r.random() < .08:
            M, N, K = r.choice([(0, N, K), (M, 0, K), (M, N, 0)])
        prof = Fm.profile(r, r.choice(["unit", "local", "wide", "cancel", "edge"]), cap=Fm.emax // 2 - 12)
        if r.random() < special:
            prof = Fm.special(r, prof, .05)
        yield one_gemm(r, b, f, nc, order, ta, tb, M, N, K, prof, isf, dflt)
    if not big:
        return
    for f, nc, order, ta, tb in pick(r, combos, int(len(combos) * .25 * size)):
        Fm = FMT[f]
        b = B(tag + "L", f, 2)
        M, N, K = r.choice([(2, 2, 70), (2, 34, 3), (34, 2, 3), (2, 66, 2), (66, 2, 2), (9, 9, 5), (3, 3, 40), (20, 3, 20), (3, 20, 36), (2, 2, 140), (130, 1, 2), (1, 130, 2), (2, 2, 260)])
        prof = Fm.profile(r, r.choice(["unit", "local"]), cap=Fm.emax // 2 - 12)
        yield one_gemm(r, b, f, nc, order, ta, tb, M, N, K, prof, r.random() < .4, False)
    for f, nc, order, ta, tb in pick(r, combos, int(len(combos) * .12 * size)):
        Fm = FMT[f]
        b = B(tag + "X", f, r.choice([2, 3, 4, 5]))
        M, N, K = r.choice([(2, 1, 530), (2, 2, 1030), (1, 2, 1030), (2, 1, 2060), (2, 2, 1100), (1, 1, 1540)])
        prof = sparse(r, Fm, K)
        yield one_gemm(r, b, f, nc, order, ta, tb, M, N, K, prof, r.random() < .4, False)


def one_gemm(r, b, f, nc, order, ta, tb, M, N, K, prof, isf, dflt):
    Fm = b.F
    ca, na = trans(r, ta, nc)
    cb, nb = trans(r, tb, nc)
    ar, ac = (M, K) if na == "n" else (K, M)
    br, bc = (K, N) if nb == "n" else (N, K)
    A = [[elem(r, Fm, nc, prof) for _ in range(ac)] for _ in range(ar)]
    Bm = [[elem(r, Fm, nc, prof) for _ in range(bc)] for _ in range(br)]
    ev = dict(nc=nc, order=order if r.random() < .8 else order.upper(), tac=ca, ta=na, tbc=cb, tb=nb, M=M, N=N, K=K, A=A, B=Bm,
              alpha=coef(r, Fm, nc), xlda=r.choice([0, 0, 1, 3]), xldb=r.choice([0, 0, 1, 3]))
    if isf:
        Y = [[elem(r, Fm, nc, prof) for _ in range(N)] for _ in range(M)]
        b.ev("rgemm", beta=coef(r, Fm, nc), Y=Y, xldc=r.choice([0, 0, 1, 3]), **ev, **({"dflt": 1} if dflt else {}))
    elif M and N:
        ld = (N if order == "r" else M) + r.choice([0, 0, 1, 2])
        n = (M - 1) * ld + N if order == "r" else (N - 1) * ld + M
        b.array("c", n, nc, 1)
        for i in range(n):
            if r.random() < min(.3, 25 / n):
                b.ev("add", d="c%d" % i, x=elem(r, Fm, nc, prof), quiet=1)
        b.ev("gemm", da="c", ld=ld, **ev)
        for i in range(min(n, 3)):
            b.ev("conv", s="c%d" % i)
    return b.done()


# ---------------------------------------------------------------- queries
def helpers(r, size, tag="fn"):
    for f in "ds":
        Fm = FMT[f]
        # every exponent, and the boundary mantissas
        es = list(range(Fm.emin - Fm.p, Fm.emax))
        if f == "d" and size < 2:
            # about the bin and scale boundaries, and some others
            keep = set()
            for e in es:
                if any((Fm.emax - e + d) % Fm.w == 0 or (e + d) % Fm.w == 0 for d in (-1, 0, 1, 2)) or e < Fm.emin + 3 or e > Fm.emax - 3:
                    keep.add(e)
            es = sorted(keep | set(r.sample(es, 100)))
        xs = [0, Fm.nzero, Fm.inf, Fm.ninf, Fm.nan, Fm.max, Fm.mins]
        for e in es:
            xs.append(Fm.make(r.randrange(2), e, r.choice([0, (1 << (Fm.p - 1)) - 1, Fm.mant(r)])))
            if r.random() < .5:
                xs.append(Fm.make(r.randrange(2), e, (1 << (Fm.p - 1)) - 1))
        for i in range(0, len(xs), 12):
            b = B(tag + f, f, fold(r, Fm))
            for x in xs[i:i + 12]:
                b.ev("fn", fn="index", x=[x])
                b.ev("fn", fn="ufp", x=[x])
                b.ev("fn", fn="scale", x=[x])
            yield b.done()
        for K in range(1, Fm.maxfold + 1):
            b = B(tag + "K", f, K)
            for nc in (1, 2):
                b.ev("fn", fn="size", nc=nc).ev("fn", fn="num", nc=nc).ev("fn", fn="alloc", nc=nc)
            yield b.done()
        b = B(tag + "B", f, 2)
        for n in range(Fm.maxi + 1):
            b.ev("fn", fn="bins", n=n)
        yield b.done()
    for f, nc in pick(r, TYPES, int(60 * size)):
        Fm = FMT[f]
        b = B(tag + "S", f, fold(r, Fm))
        s = b.slot("s", nc, lay(r))
        for _ in range(r.choice([1, 2, 3])):
            b.ev("add", d=s, x=vecs(r, Fm, 1, nc, 0)[0])
            for q in range(nc):
                b.ev("fn", fn="mindex", d=s, q=q)
                b.ev("fn", fn="mindex0", d=s, q=q)
            b.ev("fn", fn="denorm", d=s, nc=nc)
        yield b.done()


def scans(r, size, tag="amax"):
    combos = [(f, nc, k) for f in "ds" for nc, k in ((1, "sum"), (2, "sum"), (1, "dot"), (2, "dotu"))]
    for f, nc, kind in pick(r, combos, int(len(combos) * 18 * size)):
        Fm = FMT[f]
        b = B(tag, f, 2)
        for _ in range(4):
            n = r.randrange(0, 150) if r.random() < .6 else r.randrange(0, 20)
            rs = vec_runs(r, Fm, n, nc, kind, .3)
            if kind == "sum" and n and r.random() < .6:
                # the largest one, at a place of its own
                small = [Fm.num(r, -40 if f == "d" else -30) for _ in range(nc)]
                rs = [[1] + list(small) for _ in range(n)]
                for q in range(nc):
                    rs[r.randrange(n)][1 + q] = Fm.num(r, 3)
            b.ev("amax", kind=kind, nc=nc, runs=rs, incx=inc(r), incy=inc(r))
        yield b.done()


# ---------------------------------------------------------------- everything
def everything(r, size, tag="all"):
    """short histories over all operations, in all layouts"""
    gens = [lambda: add_order(r, .12 * size, .1, tag), lambda: merge_trees(r, .1 * size, .1, tag), lambda: merge_vec(r, .3 * size, .1, False, tag),
            lambda: housekeeping(r, .2 * size, tag), lambda: protocol(r, .15 * size, tag),
            lambda: kernels(r, size, SUMS + DOTS + SQS, .5, .1, tag, long=False), lambda: squares(r, .15 * size, .1, tag),
            lambda: square_parts(r, .2 * size, False, tag), lambda: norms(r, .2 * size, .1, tag), lambda: gemv(r, .35 * size, tag, big=False),
            lambda: gemm(r, .3 * size, tag, big=False), lambda: fronts(r, .25 * size, SUMS + DOTS, .1, tag), lambda: scans(r, .15 * size, tag),
            lambda: prints(r, .1 * size, tag)]
    for g in gens:
        for c in g():
            yield c


def mixed_histories(r, size, tag="mix"):
    """random walks over the operations on a few accumulators of the same type"""
    for f, nc in pick(r, TYPES, int(50 * size)):
        Fm = FMT[f]
        b = B(tag, f, fold(r, Fm))
        sl = [b.slot("m%d" % j, nc, lay(r)) for j in range(3)]
        srcs = [src(r, Fm, .05) for _ in range(nc)]
        for _ in range(r.choice([8, 15, 25])):
            d = r.choice(sl)
            s = r.choice([x for x in sl if x != d])
            k = r.randrange(12)
            if k < 4:
                b.ev("add", d=d, x=[q() for q in srcs])
            elif k < 6:
                b.ev("merge", s=s, d=d)
            elif k == 6:
                b.ev("negate", d=d)
            elif k == 7:
                b.ev("vec", kind="sum", nc=nc, d=d, runs=[[1] + [q() for q in srcs] for _ in range(r.randrange(0, 9))], incx=inc(r))
            elif k == 8:
                kind = "dot" if nc == 1 else r.choice(["dotu", "dotc"])
                b.ev("vec", kind=kind, nc=nc, d=d, runs=vec_runs(r, Fm, r.randrange(0, 9), nc, kind), incx=inc(r), incy=inc(r))
            elif k == 9:
                b.ev(r.choice(["copy"]), s=s, d=d)
            elif k == 10:
                b.ev("renorm", d=d)
            else:
                b.ev("conv", s=d)
        for s in sl:
            b.ev("conv", s=s)
        yield b.done()

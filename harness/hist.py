"""Histories enumerated by TLC from the specification (MCHist.tla), as plans for the driver."""
import json, os, random, re, tempfile, shutil
import rb
from gen import B, FMT, lay

STATS = []          # what was enumerated: for the evidence


def enumerate_(fmt, K, base, depth, timeout=300):
    d = tempfile.mkdtemp(prefix="rb-hist-")
    try:
        for f in os.listdir(rb.SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(rb.SPEC, f), d)
        with open(os.path.join(d, "H.cfg"), "w") as fd:
            fd.write('CONSTANTS Fmt = "%s"\n K = %d\n Base = %d\n Depth = %d\nSPECIFICATION Spec_\nVIEW View\nINVARIANT Room\nCHECK_DEADLOCK FALSE\n' %
                     (fmt, K, base, depth))
        rc, out, wall = rb.tlc(["-config", "H.cfg", "MCHist.tla"], d, workers=1, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if rc != 0:
        raise RuntimeError("MCHist: TLC exit %s\n%s" % (rc, out[-1500:]))
    g, n = rb.states(out)
    hs = set()
    for m in re.finditer(r'<<\s*"H",(.*?)>>\s*(?=\n<<\s*"H"|\n[A-Z0-9])', out, re.S):
        hs.add(re.sub(r"\s+", " ", m.group(1).replace("<<", "[").replace(">>", "]").strip()))
    STATS.append({"model": "MCHist", "config": "%s K=%d bin %d depth %d" % (fmt, K, base, depth), "states": n, "transitions": g,
                  "wall_s": round(wall, 1), "what": "enumeration of histories by the representation they lead to; %d distinct" % len(hs)})
    return [json.loads(x) for x in sorted(hs)]


def number(Fm, x):
    n, s, e = x
    top = 1 << (Fm.p - 1)
    if n == "zero":
        return 0
    if n == "inf":
        return Fm.ninf if s else Fm.inf
    if n == "nan":
        return Fm.nan
    return Fm.make(s, e, {"full": top - 1, "one": 0, "odd": 1, "tie": 1 << (Fm.p - 2 - Fm.w)}[n])


SECOND = [lambda F, v, x: v, lambda F, v, x: F.neg(v), lambda F, v, x: 0, lambda F, v, x: v & ~1]


def case(r, fmt, K, h):
    Fm = FMT[fmt]
    b = B("hist", fmt, K)
    nc = r.choice([1, 1, 2])
    two = r.choice(SECOND)
    sl = [b.slot("a", nc, lay(r)), b.slot("b", nc, lay(r))]

    def val(x):
        v = number(Fm, x)
        return [v] if nc == 1 else [v, two(Fm, v, x)]
    for e in h:
        k = e[0]
        a, o = sl
        if k == "update":
            b.ev("update", d=a, x=[v & ~(1 << (Fm.bits - 1)) for v in val(e[1])])
        elif k == "deposit":
            b.ev("deposit", d=a, x=val(e[1]))
        elif k == "fill":
            b.ev("deposits", d=a, runs=[[e[2]] + val(e[1])])
        elif k == "renorm":
            b.ev("renorm", d=a)
        elif k == "add":
            b.ev("add", d=a, x=val(e[1]))
        elif k == "sum":
            b.ev("vec", kind="sum", nc=nc, d=a, runs=[[e[3]] + val(e[1]), [1] + val(e[2])])
        elif k == "merge":
            b.ev("merge", s=o, d=a)
        elif k == "negate":
            b.ev("negate", d=a).ev("renorm", d=a)
        elif k == "copy":
            b.ev("copy", s=a, d=o)
        elif k == "swap":
            sl.reverse()
        elif k == "zero":
            b.ev("set0", d=a)
        elif k == "ofnum":
            b.ev("fromf", d=a, x=val(e[1]))
    if h[-1][0] not in ("update", "deposit", "fill"):
        b.ev("conv", s=sl[0])
    return b.done()


def histories(r, size, depth=4, configs=2):
    """random configurations; of each, histories covering what TLC distinguished"""
    configs = max(1, round(configs * (size / 2 if size > 2 else 1)))
    for _ in range(configs):
        fmt = r.choice("ds")
        Fm = FMT[fmt]
        K = r.choice([2, 2, 3, 4])
        base = r.choice([0, 0, 1, 2, Fm.maxi // 2, Fm.maxi - 3, Fm.maxi - 2, Fm.maxi - 1])
        hs = enumerate_(fmt, K, base, depth)
        r.shuffle(hs)
        hs.sort(key=lambda h: -len(h))
        # the longest ones have the others as prefixes; a few of those that end early as well
        n = int(150 * min(size, 2))
        for h in hs[:n] + (r.sample(hs[n:], min(len(hs) - n, n // 4)) if len(hs) > n else []):
            yield case(r, fmt, K, h)

#!/usr/bin/env python3
"""Executes plans (sequences of library calls) on the real library and records what happens.

  driver.py LIB.so PLAN.jsonl TRACE.jsonl PROGRESS [MPILIB.so]

A plan line is a case: format, fold, accumulators and events.  A trace line is the same case with,
for every event, the stored accumulators it owns after the call, what it returned, and the number
of memory cells that changed although the operation does not own them.  Every buffer ends at an
inaccessible page (and starts after one where it is page-sized), so that an access beyond it ends
the process; PROGRESS always names the case and event being executed.
"""
import ctypes as C
import json, mmap, os, random, re, struct, sys, tempfile

libc = C.CDLL(None, use_errno=True)
libc.mmap.restype = C.c_void_p
libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]
libc.mprotect.argtypes = [C.c_void_p, C.c_size_t, C.c_int]
libc.munmap.argtypes = [C.c_void_p, C.c_size_t]
PAGE = mmap.PAGESIZE


class Region:
    """n cells of size sz, the last one next to an inaccessible page."""

    def __init__(self, n, sz, poison):
        self.n, self.sz = n, sz
        self.bytes = n * sz
        self.pages = (self.bytes + PAGE - 1) // PAGE
        self.len = (self.pages + 2) * PAGE
        self.map = libc.mmap(None, self.len, 3, 0x22, -1, 0)
        if self.map in (None, 2**64 - 1):
            raise MemoryError
        libc.mprotect(self.map, PAGE, 0)
        libc.mprotect(self.map + (self.pages + 1) * PAGE, PAGE, 0)
        self.base = self.map + (self.pages + 1) * PAGE - self.bytes
        if n:
            C.memmove(self.base, poison * n, self.bytes)

    def free(self):
        libc.munmap(self.map, self.len)

    def snap(self):
        return C.string_at(self.base, self.bytes) if self.n else b""

    def at(self, i):
        return self.base + i * self.sz

    def put(self, i, raw):
        C.memmove(self.base + i * self.sz, raw, len(raw))

    def get(self, i):
        return C.string_at(self.base + i * self.sz, self.sz)


class Fmt:
    def __init__(self, f):
        self.f = f
        if f == "d":
            self.sz, self.c, self.w, self.R, self.Z = 8, C.c_double, ">4H", "d", "z"
            self.pk = "<Q"
        else:
            self.sz, self.c, self.w, self.R, self.Z = 4, C.c_float, ">2H", "s", "c"
            self.pk = "<I"

    def T(self, nc):
        return self.R if nc == 1 else self.Z

    def raw(self, bits):
        return struct.pack(self.pk, bits)

    def words(self, raw):
        return list(struct.unpack(self.w, raw[::-1]))

    def wbits(self, bits):
        return self.words(self.raw(bits))

    def val(self, bits):
        # a ctypes scalar with exactly these bits
        return self.c.from_buffer_copy(self.raw(bits))

    def wval(self, x):
        return self.words(bytes(self.c(x)))


class Slot:
    def __init__(self, name, nc, pri, prioff, ip, car, caroff, ic):
        self.name, self.nc = name, nc
        self.pri, self.prioff, self.ip, self.car, self.caroff, self.ic = pri, prioff, ip, car, caroff, ic
        self.scale = None      # (region, index) of an explicit scale cell, or the raw scale


class Area(C.Structure):
    _fields_ = [("base", C.c_void_p), ("len", C.c_size_t), ("pre", C.c_char_p), ("post", C.c_char_p)]


class CCall(C.Structure):
    _fields_ = [("fn", C.c_void_p), ("step", C.c_long), ("nstack", C.c_long), ("stack", C.POINTER(C.c_long)), ("ints", C.c_long * 6),
                ("fps", C.c_uint64 * 8), ("rax", C.c_long), ("xmm", C.c_uint64), ("rsize", C.c_long), ("rfp", C.c_long),
                ("ret", C.c_uint64), ("nareas", C.c_long), ("areas", C.POINTER(Area))]


class Call:
    """a call that was made, with the memory before and after it, as sched.c wants it"""

    def __init__(self, f, args, val, before, ev):
        c = self.c = CCall()
        self.ev = ev
        c.fn = C.cast(f, C.c_void_p).value
        ints, fps = [], []
        for a in args:
            if isinstance(a, (C.c_double, C.c_float)):
                fps.append(int.from_bytes(bytes(a), "little"))
            elif isinstance(a, C.c_char):
                ints.append(a.value[0])
            else:
                ints.append(a.value or 0)
        for n, v in enumerate(ints[:6]):
            c.ints[n] = v
        for n, v in enumerate(fps):
            c.fps[n] = v
        rest = ints[6:]
        self.stack = (C.c_long * max(1, len(rest)))(*rest)
        c.nstack, c.stack = len(rest), self.stack
        if f.restype is not None:
            raw = bytes(f.restype(val))
            c.rsize, c.rfp, c.ret = len(raw), int(f.restype in (C.c_double, C.c_float)), int.from_bytes(raw, "little")
        self.keep = [(r, b, r.snap()) for r, b in before if r.n]
        self.areas = (Area * max(1, len(self.keep)))()
        for n, (r, b, p) in enumerate(self.keep):
            self.areas[n] = Area(r.base, r.bytes, b, p)
        c.nareas, c.areas = len(self.keep), self.areas


CAP = 30000         # instructions of a call that are stepped through


def crowd(drv, plan):
    """Several cases, each first alone; then calls of theirs interleaved as the plan says."""
    lib = drv.lib
    lib.rb_count.restype = C.c_long
    cases, res = [], []
    for p in plan["crowd"]:
        c = Case(drv, p)
        c.rec = []
        res.append(c.run())
        cases.append(c)
    ev = []
    out = (C.c_long * 256)()

    def note(**kw):
        kw.update(op="duet", norm=False, stray=0, mode=0, leak=0, post=[])
        ev.append(kw)
    counts = {}

    def count(x, fresh):
        if (x, fresh) not in counts:
            n = lib.rb_count(C.byref(cases[x[0]].rec[x[1]].c), C.c_int(fresh), C.c_long(CAP))
            counts[x, fresh] = n
        return counts[x, fresh]
    for n, s in enumerate(plan["ev"]):
        drv.progress(n)
        live = drv.live()
        if s["how"] == "crowd":
            # one thread per case: their memory is their own
            ths = [c.rec for c in cases if c.rec]
            if len(ths) < 2:
                note(how="crowd", bad=0, runs=0, calls=0)
                continue
            flat = [x for t in ths for x in t]
            ptr = (C.c_void_p * len(flat))(*[C.addressof(x.c) for x in flat])
            num = (C.c_long * len(ths))(*[len(t) for t in ths])
            lib.rb_crowd(ptr, num, C.c_long(len(ths)), C.c_long(s["ms"]), C.c_int(s["fresh"]), out)
            note(how="crowd", bad=sum(out[3 * k] for k in range(len(ths))), runs=sum(out[3 * k + 1] for k in range(len(ths))), calls=len(flat))
        else:
            xa, xb = s["a"], s["b"]
            ra, rb_ = cases[xa[0]].rec, cases[xb[0]].rec
            if not ra or not rb_:
                note(how=s["how"], bad=0, runs=0, calls=0)
                continue
            # the call made in that event, or else one of the others
            at = lambda x, rec: (x[0], next((n for n, c in enumerate(rec) if c.ev == x[1]), x[1] % len(rec)))
            xa, xb = at(xa, ra), at(xb, rb_)
            a, b = ra[xa[1]].c, rb_[xb[1]].c
            na, nb = count(xa, s["fresh"]), count(xb, s["fresh"])
            if na < 0 or nb < 0:
                note(how="alone", bad=1, runs=1, calls=1)
                continue
            if s["how"] == "duet":
                ka = max(1, int(s["pa"] * na))
                kb = -1 if s["pb"] is None else max(1, int(s["pb"] * nb))
                lib.rb_duet(C.byref(a), C.byref(b), C.c_long(ka), C.c_long(kb), C.c_int(s["fresh"]), out)
                note(how="duet", bad=out[0] + out[1], runs=2, calls=2, ka=ka, kb=kb, na=na, nb=nb, fresh=s["fresh"])
            else:
                stride = max(s["stride"], na // s["most"])
                lib.rb_within(C.byref(a), C.byref(b), C.c_long(max(1, int(s["pa"] * stride))), C.c_long(stride), C.c_long(na), C.c_int(s["fresh"]), out)
                note(how="within", bad=out[0] + out[1], runs=out[4] + out[5], calls=2, na=na, stride=stride, fresh=s["fresh"])
        ev[-1]["leak"] = drv.live() - live
    res.append({"id": plan["id"], "f": "d", "K": 2, "slots": {"_": 1}, "ev": ev})
    for c in cases:
        for r in c.regions:
            r.free()
    return {"multi": res}


class Case:
    def __init__(self, drv, plan):
        self.d = drv
        self.p = plan
        self.F = Fmt(plan["f"])
        self.K = plan["K"]
        self.rnd = random.Random(plan["id"])
        self.regions = []
        self.slots = {}
        self.slot_scale = {}
        self.loose = set()          # slots that nothing says are renormalised
        self.arrays = {}
        self.rec = None             # the calls made, when they are to be made again
        for s in plan.get("slots", []):
            self.slots[s["name"]] = self.new_slot(s)
        for a in plan.get("arrays", []):
            self.new_array(a)

    def region(self, n, poison=None):
        if poison is None:
            poison = self.poison()
        r = Region(n, self.F.sz, poison)
        self.regions.append(r)
        return r

    def poison(self):
        d = self.F.f == "d"
        return self.F.raw(self.rnd.choice(
            [0x7FF8DEADBEEF0001, 0x7FE123456789ABCD, 0xC0F1234567ABCDEF] if d else
            [0x7FC0BEEF, 0x7F123456, 0xC7123457]))

    def new_slot(self, s):
        K, nc = self.K, s["nc"]
        lay = s.get("lay", ["b"])
        if lay[0] == "b":
            r = self.region(2 * K * nc)
            sl = Slot(s["name"], nc, r, 0, 1, r, K * nc, 1)
            sl.b = True
        else:
            ip, ic = lay[1], lay[2]
            p = self.region(((K - 1) * ip + 1) * nc)
            c = self.region(((K - 1) * ic + 1) * nc)
            sl = Slot(s["name"], nc, p, 0, ip, c, 0, ic)
            sl.b = False
        sl.b_ok = sl.b
        self.zero(sl)
        return sl

    def new_array(self, a):
        K, nc, n, inc = self.K, a["nc"], a["n"], a.get("inc", 1)
        extra = 1 if a.get("scaled") else 0
        num = 2 * K * nc + extra
        r = self.region(((n - 1) * inc + 1) * num if n else 0)
        self.arrays[a["name"]] = (r, n, inc, num)
        for i in range(n):
            o = i * inc * num + extra
            sl = Slot(a["name"] + str(i), nc, r, o, 1, r, o + K * nc, 1)
            sl.b = True
            self.slots[sl.name] = sl
            if extra:
                sl.scale_cell = (r, o - 1)
                r.put(o - 1, self.F.raw(0))
            self.zero(sl)

    def cells(self, sl):
        K = self.K
        out = []
        for i in range(K):
            for q in range(sl.nc):
                out.append((sl.pri, sl.prioff + sl.nc * sl.ip * i + q))
                out.append((sl.car, sl.caroff + sl.nc * sl.ic * i + q))
        return out

    def zero(self, sl):
        for r, i in self.cells(sl):
            r.put(i, self.F.raw(0))

    def view(self, sl):
        """per component [primaries, carries] as words"""
        F = self.F
        ps, cs = sl.pri.snap(), sl.car.snap()
        out = []
        for q in range(sl.nc):
            pr, ca = [], []
            for i in range(self.K):
                o = (sl.prioff + sl.nc * sl.ip * i + q) * F.sz
                pr.append(F.words(ps[o:o + F.sz]))
                o = (sl.caroff + sl.nc * sl.ic * i + q) * F.sz
                ca.append(F.words(cs[o:o + F.sz]))
            out.append([pr, ca])
        return out

    # ------------------------------------------------------------------ calls
    def fn(self, name, res=None):
        f = getattr(self.d.lib, name)
        f.restype = res
        return f

    def ptrs(self, sl, b):
        """argument list for a slot: one pointer, or the manual form"""
        p = C.c_void_p(sl.pri.at(sl.prioff))
        if b:
            return [p]
        return [p, C.c_int(sl.ip), C.c_void_p(sl.car.at(sl.caroff)), C.c_int(sl.ic)]

    def useb(self, ev, *sls):
        return all(s.b for s in sls) and not ev.get("m")

    def scalars(self, ev, nc):
        """a number argument: by value when real, by reference when complex"""
        F = self.F
        if nc == 1:
            return [F.val(ev["x"][0])]
        r = self.region(2)
        for q in range(2):
            r.put(q, F.raw(ev["x"][q]))
        self.tmp.append(r)
        return [C.c_void_p(r.base)]

    def out(self, nc):
        r = self.region(nc)
        self.tmp.append(r)
        for q in range(nc):
            self.own.add((r, q))
        return r

    def vector(self, runs, inc, lo, nc):
        """place components lo .. lo+nc-1 of the runs in a strided buffer"""
        F = self.F
        N = sum(r[0] for r in runs)
        rg = self.region(((N - 1) * inc + 1) * nc if N else 0)
        self.tmp.append(rg)
        if inc == 1:
            C.memmove(rg.base, b"".join(b"".join(F.raw(b) for b in r[1 + lo:1 + lo + nc]) * r[0] for r in runs), rg.bytes)
        else:
            i = 0
            for r in runs:
                raw = b"".join(F.raw(b) for b in r[1 + lo:1 + lo + nc])
                for _ in range(r[0]):
                    rg.put(i * inc * nc, raw)
                    i += 1
        return N, rg

    def matrix(self, m, order, ld_extra, nc):
        """logical rows m in row ('r') or column order; returns region and leading dimension"""
        F = self.F
        rows = len(m)
        cols = len(m[0]) if rows else 0
        if order in "rR":
            ld = cols + ld_extra
            n = (rows - 1) * ld + cols if rows and cols else 0
        else:
            ld = rows + ld_extra
            n = (cols - 1) * ld + rows if rows and cols else 0
        ld = max(ld, 1)
        rg = self.region(n * nc)
        self.tmp.append(rg)
        for i in range(rows):
            for j in range(cols):
                o = i * ld + j if order in "rR" else j * ld + i
                rg.put(o * nc, b"".join(F.raw(b) for b in m[i][j]))
        return rg, ld

    def wm(self, m):
        F = self.F
        return [[[F.wbits(b) for b in e] for e in row] for row in m]

    def wv(self, v):
        F = self.F
        return [[F.wbits(b) for b in e] for e in v]

    def run(self):
        F, K = self.F, self.K
        res = {"id": self.p["id"], "f": self.p["f"], "K": K,
               "slots": dict([("_", 1)] + [(n, s.nc) for n, s in self.slots.items()]), "ev": []}
        for n, ev in enumerate(self.p["ev"]):
            self.d.progress(n)
            self.nev = n
            self.tmp, self.own = [], set()
            res["ev"].append(self.event(dict(ev)))
            for r in self.tmp:
                self.regions.remove(r)
                if self.rec is None:
                    r.free()
        for r in self.regions:
            if self.rec is None:
                r.free()
        return res

    def track(self, op, o):
        """Operations that may leave their destination as they found it are only held to the
        normal form when what went in was in it."""
        ds = o.get("ds") or ([o["d"]] if "d" in o else [])
        ss = o.get("ss") or ([o["s"]] if "s" in o else [])
        if op in ("negate", "deposit", "deposits", "rescale"):
            self.loose.update(ds)
        elif op in ("add", "fromf", "renorm", "set0") or op in ("vec", "ssq") and o.get("runs"):
            self.loose.difference_update(ds)
        elif op == "copy":
            for d, s in zip(ds, ss):
                (self.loose.add if s in self.loose else self.loose.discard)(d)
        elif ds and op != "update":
            for j, d in enumerate(ds):
                if j < len(ss) and ss[j] in self.loose:
                    self.loose.add(d)
            if self.loose & set(ds):
                o["norm"] = False

    def call(self, f, args):
        before = [(r, r.snap()) for r in self.regions]
        live, mode = self.d.live(), self.d.mode()
        val = f(*args)
        self.mode += self.d.mode() != mode
        if self.rec is not None and isinstance(f, C._CFuncPtr) and f.restype is not C.c_void_p:
            self.rec.append(Call(f, args, val, before, self.nev))
        self.leak += self.d.live() - live
        stray = 0
        for r, b in before:
            a = r.snap()
            if a != b:
                sz = r.sz
                for i in range(r.n):
                    if a[i * sz:(i + 1) * sz] != b[i * sz:(i + 1) * sz] and (r, i) not in self.own:
                        stray += 1
        self.stray += stray
        return val

    def ownslot(self, *sls):
        for s in sls:
            self.own.update(self.cells(s))

    def vecname(self, kind, nc, b, F):
        x = "b" if b else "m"
        R, T = F.R, F.T(nc)
        if kind in ("asum", "ssq"):
            return "binnedBLAS_%s%s%s%s" % (R, x, T, kind)
        return "binnedBLAS_%s%s%s%s" % (T, x, T, kind)

    def event(self, ev):
        F, K, S = self.F, self.K, self.slots
        ci = C.c_int
        op = ev["op"]
        self.stray = self.leak = self.mode = 0
        bad = self.d.smashed()
        o = {"op": op, "norm": False, "post": []}
        posts = []
        k = ci(K)
        if op in ("set0", "add", "update", "deposit", "renorm", "negate", "fromf"):
            d = S[ev["d"]]
            b = self.useb(ev, d)
            x = "b" if b else "m"
            T = F.T(d.nc)
            self.ownslot(d)
            o["d"] = ev["d"]
            if op == "set0":
                name, args = "setzero", []
            elif op in ("renorm", "negate"):
                name, args = op, []
            else:
                xn = len(ev["x"])
                o["x"] = [F.wbits(v) for v in ev["x"]]
                name = F.T(xn) + {"fromf": "conv"}.get(op, op)
                args = self.scalars(ev, xn)
            name = "binned_" + T + x + name
            if op == "deposit" and not b:
                pr = self.ptrs(d, False)[:2]
            else:
                pr = self.ptrs(d, b)
            self.call(self.fn(name), [k] + args + pr)
            o["norm"] = bool(ev.get("norm", op in ("add", "fromf", "renorm")))
            posts = [ev["d"]]
            if op == "set0":
                self.slot_scale[ev["d"]] = 0
        elif op == "print":
            d = S[ev["d"]]
            b = self.useb(ev, d)
            o["d"], o["rows"] = ev["d"], []
            f = self.fn("binned_" + F.T(d.nc) + ("b" if b else "m") + "print")
            text = printed(lambda: self.call(f, [k] + self.ptrs(d, b)))
            for l in text.splitlines():
                v = [float(x) for x in NUMBER.findall(l)]
                # "2^" goes before each exponent
                o["rows"].append([words64(x) for j, x in enumerate(v) if j % 5])
                if any(x != 2 for x in v[::5]):
                    o["rows"].append([])
            posts = [ev["d"]]
        elif op == "deposits":
            # many deposits: n of each of the runs' numbers
            d = S[ev["d"]]
            b = self.useb(ev, d)
            T = F.T(d.nc)
            self.ownslot(d)
            f = self.fn("binned_" + T + ("b" if b else "m") + T + "deposit")
            pr = self.ptrs(d, b)[: 1 if b else 2]
            before = [(r, r.snap()) for r in self.regions if r not in (d.pri, d.car)]
            for r in ev["runs"]:
                a = [k] + self.scalars({"x": r[1:]}, d.nc) + pr
                for _ in range(r[0]):
                    f(*a)
            for r, bb in before:
                if r.snap() != bb:
                    self.stray += 1
            o["d"] = ev["d"]
            o["runs"] = [[r[0]] + [F.wbits(v) for v in r[1:]] for r in ev["runs"]]
            o["norm"] = False
            posts = [ev["d"]]
        elif op in ("copy", "merge"):
            s, d = S[ev["s"]], S[ev["d"]]
            b = self.useb(ev, s, d)
            x = "b" if b else "m"
            nm = F.T(d.nc) + x + F.T(s.nc) + x + ("set" if op == "copy" else "add")
            self.ownslot(d)
            self.call(self.fn("binned_" + nm), [k] + self.ptrs(s, b) + self.ptrs(d, b))
            o["d"], o["s"] = ev["d"], ev["s"]
            o["norm"] = bool(ev.get("norm", op == "merge"))
            posts = [ev["d"], ev["s"]]
            if op == "copy":
                self.slot_scale[ev["d"]] = self.slot_scale.get(ev["s"], 0)
        elif op == "mergev":
            rs, ns, is_, _ = self.arrays[ev["sa"]]
            rd, nd, id_, _ = self.arrays[ev["da"]]
            nc = S[ev["da"] + "0"].nc
            n = ev["n"]
            ds = [ev["da"] + str(i) for i in range(n)]
            ss = [ev["sa"] + str(i) for i in range(n)]
            self.ownslot(*[S[x] for x in ds])
            T = F.T(nc)
            if ev.get("mpi"):
                self.stray += self.d.mpi_reduce(self, {"d": "DBDBADD", "z": "ZBZBADD", "s": "SBSBADD", "c": "CBCBADD"}[T],
                                  {"d": "DOUBLE_BINNED", "z": "DOUBLE_COMPLEX_BINNED", "s": "FLOAT_BINNED",
                                   "c": "FLOAT_COMPLEX_BINNED"}[T], K, rs, rd, n)
            else:
                self.call(self.fn("binned_%sb%sbaddv" % (T, T)),
                          [k, ci(n), C.c_void_p(rs.base), ci(is_), C.c_void_p(rd.base), ci(id_)])
            o["ds"], o["ss"], o["norm"] = ds, ss, True
            posts = ds + ss
        elif op == "addsqv":
            rs, rd = self.arrays[ev["sa"]][0], self.arrays[ev["da"]][0]
            n = ev["n"]
            ds = [ev["da"] + str(i) for i in range(n)]
            ss = [ev["sa"] + str(i) for i in range(n)]
            self.ownslot(*[S[x] for x in ds])
            for x in ds:
                self.own.add(S[x].scale_cell)
            dbl = F.f == "d"
            self.stray += self.d.mpi_reduce(self, "DBDBADDSQ" if dbl else "SBSBADDSQ",
                                            "DOUBLE_BINNED_SCALED" if dbl else "FLOAT_BINNED_SCALED", K, rs, rd, n)
            o["ds"], o["ss"], o["norm"] = ds, ss, True
            o["ret"] = [F.words(S[x].scale_cell[0].get(S[x].scale_cell[1])) for x in ds]
            posts = ds + ss
        elif op == "conv":
            s = S[ev["s"]]
            b = self.useb(ev, s)
            T = F.T(s.nc)
            x = "b" if b else "m"
            if s.nc == 1:
                r = self.call(self.fn("binned_%s%s%sconv" % (T, T, x), F.c), [k] + self.ptrs(s, b))
                o["ret"] = [F.wval(r)]
            else:
                rg = self.out(2)
                self.call(self.fn("binned_%s%s%sconv_sub" % (T, T, x)), [k] + self.ptrs(s, b) + [C.c_void_p(rg.base)])
                o["ret"] = [F.words(rg.get(0)), F.words(rg.get(1))]
            o["s"] = ev["s"]
            o["loose"] = ev["s"] in self.loose
        elif op in ("vec", "ssq", "front", "norm2", "amax"):
            kind, nc = ev.get("kind"), ev["nc"]
            runs = ev["runs"]
            two = kind in ("dot", "dotu", "dotc")
            incx, incy = ev.get("incx", 1), ev.get("incy", 1)
            N, X = self.vector(runs, incx, 0, nc)
            args = [ci(N), C.c_void_p(X.base), ci(incx)]
            if two:
                _, Y = self.vector(runs, incy, nc, nc)
                args += [C.c_void_p(Y.base), ci(incy)]
            o["runs"] = [[r[0]] + [F.wbits(v) for v in r[1:]] for r in runs]
            o["nc"] = nc
            if kind:
                o["kind"] = kind
            T = F.T(nc)
            if op == "vec":
                d = S[ev["d"]]
                b = self.useb(ev, d)
                self.ownslot(d)
                self.call(self.fn(self.vecname(kind, nc, b, F)), [k] + args + self.ptrs(d, b))
                o["d"] = ev["d"]
                o["norm"] = True
                posts = [ev["d"]]
            elif op == "ssq":
                d = S[ev["d"]]
                b = self.useb(ev, d)
                self.ownslot(d)
                sc = self.getscale(ev["d"])
                r = self.call(self.fn(self.vecname("ssq", nc, b, F), F.c), [k] + args + [F.val(sc)] + self.ptrs(d, b))
                self.setscale(ev["d"], r)
                o["ret"] = [F.wval(r)]
                o["d"] = ev["d"]
                o["norm"] = True
                posts = [ev["d"]]
            elif op == "amax":
                nm = {"sum": "amax", "dot": "amaxm", "dotu": "amaxm"}[kind]
                if nc == 1:
                    r = self.call(self.fn("binnedBLAS_" + T + nm, F.c), args)
                    o["ret"] = [F.wval(r)]
                else:
                    rg = self.out(2)
                    self.call(self.fn("binnedBLAS_" + T + nm + "_sub"), args + [C.c_void_p(rg.base)])
                    o["ret"] = [F.words(rg.get(0)), F.words(rg.get(1))]
            else:
                dflt = ev.get("dflt")
                pre = [] if dflt else [k]
                sub = False
                if op == "norm2":
                    nm = (F.R if nc == 1 else F.R + T) + "nrm2"
                elif kind == "asum":
                    nm = (F.R if nc == 1 else F.R + T) + "asum"
                else:
                    nm = T + kind
                    sub = nc == 2
                nm = "reproBLAS_" + ("" if dflt else "r") + nm
                if sub:
                    rg = self.out(2)
                    self.call(self.fn(nm + "_sub"), pre + args + [C.c_void_p(rg.base)])
                    o["ret"] = [F.words(rg.get(0)), F.words(rg.get(1))]
                else:
                    r = self.call(self.fn(nm, F.c), pre + args)
                    o["ret"] = [F.wval(r)]
        elif op == "addsq":
            s, d = S[ev["s"]], S[ev["d"]]
            b = self.useb(ev, s, d)
            x = "b" if b else "m"
            self.ownslot(d)
            r = self.call(self.fn("binned_%s%s%s%saddsq" % (F.R, x, F.R, x), F.c),
                          [k, F.val(self.getscale(ev["s"]))] + self.ptrs(s, b)
                          + [F.val(self.getscale(ev["d"]))] + self.ptrs(d, b))
            self.setscale(ev["d"], r)
            o["ret"] = [F.wval(r)]
            o["d"], o["s"], o["norm"] = ev["d"], ev["s"], bool(ev.get("norm", True))
            posts = [ev["d"], ev["s"]]
        elif op == "rescale":
            d = S[ev["d"]]
            self.ownslot(d)
            w = 40 if F.f == "d" else 13
            lo = ev["from"]
            T = F.T(d.nc)
            self.call(self.fn("binned_%sm%srescale" % (T, F.R)),
                      [k, F.c(2.0 ** (w * (lo + ev["n"]))), F.c(2.0 ** (w * lo))] + self.ptrs(d, False))
            o["d"], o["n"] = ev["d"], ev["n"]
            posts = [ev["d"]]
        elif op == "fn":
            fnm = ev["fn"]
            o["fn"] = fnm
            x = ev.get("x", [0])
            o["x"] = [F.wbits(v) for v in x]
            o["nc"] = nc = ev.get("nc", 1)
            T = F.T(nc)
            if fnm == "index":
                o["reti"] = self.call(self.fn("binned_%sindex" % F.R, C.c_int), [F.val(x[0])])
            elif fnm == "ufp":
                o["ret"] = [F.wval(self.call(self.fn("binned_ufp" + ("" if F.f == "d" else "f"), F.c), [F.val(x[0])]))]
            elif fnm == "scale":
                o["ret"] = [F.wval(self.call(self.fn("binned_%sscale" % F.R, F.c), [F.val(x[0])]))]
            elif fnm == "size":
                o["reti"] = self.call(self.fn("binned_%sbsize" % T if T != "s" else "binned_sbsbze", C.c_size_t), [k])
            elif fnm == "num":
                o["reti"] = self.call(self.fn("binned_%sbnum" % T, C.c_int), [k])
            elif fnm == "alloc":
                f = self.fn("binned_%sballoc" % T, C.c_void_p)
                p = self.call(f, [k])
                self.d.lib.rb_size.restype = C.c_long
                o["reti"] = self.d.lib.rb_size(C.c_void_p(p))
                self.d.lib.rb_free(C.c_void_p(p))
                self.leak -= 1
            elif fnm in ("mindex", "mindex0"):
                d = S[ev["d"]]
                o["d"], o["q"] = ev["d"], ev.get("q", 0) + 1
                o["reti"] = self.call(self.fn("binned_%sm%s" % (F.R, fnm[1:]), C.c_int),
                                      [C.c_void_p(d.pri.at(d.prioff + ev.get("q", 0)))])
            elif fnm == "denorm":
                d = S[ev["d"]]
                o["d"] = ev["d"]
                o["reti"] = self.call(self.fn("binned_%smdenorm" % F.T(d.nc), C.c_int), [k, C.c_void_p(d.pri.at(d.prioff))])
            elif fnm == "bins":
                o["n"] = ev["n"]
                f = self.fn("binned_%smbins" % F.R, C.c_void_p)
                p = self.call(f, [ci(ev["n"])])
                o["ret"] = [F.words(C.string_at(p, F.sz))]
        elif op == "bound":
            o["x"] = [F.wbits(v) for v in ev["x"]]
            o["n"] = ev["n"]
            r = self.call(self.fn("binned_%sbbound" % F.R, F.c), [k, ci(ev["n"]), F.val(ev["x"][0]), F.val(ev["x"][1])])
            o["ret"] = [F.wval(r)]
        elif op in ("gemv", "rgemv"):
            nc = ev["nc"]
            T = F.T(nc)
            A, lda = self.matrix(ev["A"], ev["order"], ev.get("xlda", 0), nc)
            incx, incy = ev.get("incx", 1), ev.get("incy", 1)
            N, X = self.vector([[1] + e for e in ev["X"]], incx, 0, nc)
            al = self.number(ev["alpha"])
            common = [C.c_char(ev["order"].encode()), C.c_char(ev["tac"].encode()), ci(ev["M"]), ci(ev["N"])]
            mid = [C.c_void_p(A.base), ci(lda), C.c_void_p(X.base), ci(incx)]
            o.update(A=self.wm(ev["A"]), X=self.wv(ev["X"]), alpha=[F.wbits(v) for v in ev["alpha"]],
                     M=ev["M"], N=ev["N"], ta=ev["ta"])
            if op == "gemv":
                rd, n, inc, _ = self.arrays[ev["da"]]
                ds = [ev["da"] + str(i) for i in range(n)]
                self.ownslot(*[S[x] for x in ds])
                self.call(self.fn("binnedBLAS_%sb%sgemv" % (T, T)), [k] + common + al + mid + [C.c_void_p(rd.base), ci(inc)])
                o["ds"], o["norm"] = ds, bool(ev.get("norm", True))
                posts = ds
            else:
                be = self.number(ev["beta"])
                n, Y = self.vector([[1] + e for e in ev["Y"]], incy, 0, nc)
                for i in range(n):
                    for q in range(nc):
                        self.own.add((Y, i * incy * nc + q))
                pre = [] if ev.get("dflt") else [k]
                self.call(self.fn("reproBLAS_%s%sgemv" % ("" if ev.get("dflt") else "r", T)),
                          pre + common + al + mid + be + [C.c_void_p(Y.base), ci(incy)])
                o["ret"] = [[F.words(Y.get(i * incy * nc + q)) for q in range(nc)] for i in range(n)]
                o["beta"] = [F.wbits(v) for v in ev["beta"]]
                o["Y"] = self.wv(ev["Y"])
        elif op in ("gemm", "rgemm"):
            nc = ev["nc"]
            T = F.T(nc)
            A, lda = self.matrix(ev["A"], ev["order"], ev.get("xlda", 0), nc)
            B, ldb = self.matrix(ev["B"], ev["order"], ev.get("xldb", 0), nc)
            al = self.number(ev["alpha"])
            M, N, KK = ev["M"], ev["N"], ev["K"]
            common = [C.c_char(ev["order"].encode()), C.c_char(ev["tac"].encode()), C.c_char(ev["tbc"].encode()),
                      ci(M), ci(N), ci(KK)]
            mid = [C.c_void_p(A.base), ci(lda), C.c_void_p(B.base), ci(ldb)]
            o.update(A=self.wm(ev["A"]), B=self.wm(ev["B"]), alpha=[F.wbits(v) for v in ev["alpha"]],
                     M=M, N=N, K=KK, ta=ev["ta"], tb=ev["tb"])
            row = ev["order"] in "rR"
            if op == "gemm":
                # the array holds M x N accumulators, with leading dimension ld
                rd, n, _, num = self.arrays[ev["da"]]
                ld = ev["ld"]
                idx = [[(i * ld + j if row else j * ld + i) for j in range(N)] for i in range(M)]
                ds = [ev["da"] + str(idx[i][j]) for i in range(M) for j in range(N)]
                self.ownslot(*[S[x] for x in ds])
                self.call(self.fn("binnedBLAS_%sb%sgemm" % (T, T)), [k] + common + al + mid + [C.c_void_p(rd.base), ci(ld)])
                o["ds"], o["norm"] = ds, bool(ev.get("norm", True))
                posts = ds
            else:
                be = self.number(ev["beta"])
                Cm, ldc = self.matrix(ev["Y"], ev["order"], ev.get("xldc", 0), nc)
                at = lambda i, j: (i * ldc + j if row else j * ldc + i) * nc
                for i in range(M):
                    for j in range(N):
                        for q in range(nc):
                            self.own.add((Cm, at(i, j) + q))
                pre = [] if ev.get("dflt") else [k]
                self.call(self.fn("reproBLAS_%s%sgemm" % ("" if ev.get("dflt") else "r", T)),
                          pre + common + al + mid + be + [C.c_void_p(Cm.base), ci(ldc)])
                o["ret"] = [[[F.words(Cm.get(at(i, j) + q)) for q in range(nc)] for j in range(N)] for i in range(M)]
                o["beta"] = [F.wbits(v) for v in ev["beta"]]
                o["Y"] = self.wm(ev["Y"])
        else:
            raise ValueError(op)
        o["stray"] = self.stray + self.d.smashed() - bad
        o["leak"], o["mode"] = self.leak, self.mode
        self.track(op, o)
        if not ev.get("quiet"):
            o["post"] = [{"s": s, "c": self.view(S[s])} for s in posts]
        return o

    def number(self, bits):
        """alpha or beta: by value when real, by reference when complex"""
        F = self.F
        if len(bits) == 1:
            return [F.val(bits[0])]
        r = self.region(2)
        self.tmp.append(r)
        for q in range(2):
            r.put(q, F.raw(bits[q]))
        return [C.c_void_p(r.base)]

    def getscale(self, name):
        sl = self.slots[name]
        if hasattr(sl, "scale_cell"):
            return struct.unpack(self.F.pk, sl.scale_cell[0].get(sl.scale_cell[1]))[0]
        return self.slot_scale.get(name, 0)

    def setscale(self, name, val):
        raw = bytes(self.F.c(val))
        sl = self.slots[name]
        if hasattr(sl, "scale_cell"):
            sl.scale_cell[0].put(sl.scale_cell[1], raw)
        else:
            self.slot_scale[name] = struct.unpack(self.F.pk, raw)[0]


NUMBER = re.compile(r"[-+]?(?:inf|nan|[0-9]+(?:\.[0-9]*)?(?:e[-+]?[0-9]+)?)")


def words64(x):
    n = struct.unpack("<Q", struct.pack("<d", x))[0]
    return [n >> 48, n >> 32 & 0xffff, n >> 16 & 0xffff, n & 0xffff]


def printed(f):
    """what f writes to the standard output"""
    sys.stdout.flush()
    old = os.dup(1)
    with tempfile.TemporaryFile() as t:
        os.dup2(t.fileno(), 1)
        try:
            f()
            libc.fflush(None)
        finally:
            os.dup2(old, 1)
            os.close(old)
        t.seek(0)
        return t.read().decode("latin-1")


class Driver:
    def __init__(self, lib, prog, mpilib=None):
        self.lib = C.CDLL(lib, mode=C.RTLD_GLOBAL)
        self.live, self.smashed = self.lib.rb_live, self.lib.rb_smashed
        self.mode = self.lib.rb_mode
        self.live.restype = self.smashed.restype = C.c_long
        self.fd = os.open(prog, os.O_CREAT | os.O_RDWR | os.O_TRUNC)
        self.case = 0
        self.mpi = None
        self.mpilib = mpilib

    def progress(self, n):
        os.pwrite(self.fd, b"%8d %8d\n" % (self.case, n), 0)

    def mpi_init(self):
        m = C.CDLL("libmpi.so.40", mode=C.RTLD_GLOBAL)
        self.blib = C.CDLL(self.mpilib, mode=C.RTLD_GLOBAL)
        m.MPI_Init(None, None)
        self.mpi = m

    def mpi_reduce(self, case, opname, tname, K, rs, rd, n):
        if self.mpi is None:
            self.mpi_init()
        of = getattr(self.blib, "binnedMPI_" + opname)
        tf = getattr(self.blib, "binnedMPI_" + tname)
        of.restype = tf.restype = C.c_void_p
        t = tf(C.c_int(K))
        o = of(C.c_int(K))
        stray = 0
        sz = C.c_int(0)
        self.mpi.MPI_Type_size(C.c_void_p(t), C.byref(sz))
        num = case.arrays
        want = [a for a in num.values() if a[0] is rs][0][3] * rs.sz
        if sz.value != want:
            return 1000
        case.call(lambda *a: self.mpi.MPI_Reduce_local(*a),
                  [C.c_void_p(rs.base), C.c_void_p(rd.base), C.c_int(n), C.c_void_p(t), C.c_void_p(o)])
        return stray


def main():
    lib, plan, trace, prog = sys.argv[1:5]
    drv = Driver(lib, prog, sys.argv[5] if len(sys.argv) > 5 else None)
    with open(plan) as pf, open(trace, "w") as tf:
        for n, line in enumerate(pf):
            drv.case = n
            drv.progress(0)
            p = json.loads(line)
            res = crowd(drv, p) if "crowd" in p else Case(drv, p).run()
            tf.write(json.dumps(res, separators=(",", ":")) + "\n")
            tf.flush()
    os.pwrite(drv.fd, b"done%14s\n" % b"", 0)
    if drv.mpi:
        drv.mpi.MPI_Finalize()


if __name__ == "__main__":
    main()

"""Floating-point numbers, as bits, chosen to reach the boundaries the specification talks about."""
import struct


class F:
    def __init__(self, f):
        self.f = f
        if f == "d":
            self.p, self.emax, self.emin, self.w, self.eb, self.bias = 53, 1024, -1021, 40, 11, 1023
        else:
            self.p, self.emax, self.emin, self.w, self.eb, self.bias = 24, 128, -125, 13, 8, 127
        self.bits = 1 + self.eb + self.p - 1
        self.maxi = (self.emax - self.emin + self.p - 1) // self.w - 1
        self.maxfold = self.maxi + 1
        self.endur = 1 << (self.p - self.w - 2)
        self.inf = ((1 << self.eb) - 1) << (self.p - 1)
        self.ninf = self.neg(self.inf)
        self.nan = self.inf | (1 << (self.p - 2))
        self.one = self.make(0, 0, 0)
        self.zero = 0
        self.nzero = self.neg(0)
        self.max = self.make(0, self.emax - 1, (1 << (self.p - 1)) - 1)
        self.minn = self.make(0, self.emin - 1, 0)
        self.mins = 1

    def neg(self, b):
        return b ^ (1 << (self.bits - 1))

    def make(self, s, e, m):
        """(-1)^s 1.m 2^e; subnormal when e is below the least normal exponent"""
        b = 0
        if e < self.emin - 1:
            sh = self.emin - 1 - e
            m = ((1 << (self.p - 1)) | m) >> sh if sh <= self.p else 0
            b = m
        elif e > self.emax - 1:
            b = self.max
        else:
            b = ((e + self.bias) << (self.p - 1)) | m
        return b | (s << (self.bits - 1))

    def exp(self, b):
        """exponent of the leading bit, or None"""
        b &= (1 << (self.bits - 1)) - 1
        e = b >> (self.p - 1)
        if e == (1 << self.eb) - 1 or b == 0:
            return None
        if e:
            return e - self.bias
        return b.bit_length() - 1 + self.emin - self.p

    def of(self, x):
        return struct.unpack("<Q", struct.pack("<d", x))[0] if self.f == "d" else struct.unpack("<I", struct.pack("<f", x))[0]

    def to(self, b):
        return struct.unpack("<d", struct.pack("<Q", b))[0] if self.f == "d" else struct.unpack("<f", struct.pack("<I", b))[0]

    def top(self, g):
        """exponent just above the largest numbers that go to bin g"""
        return self.emax - self.w * g

    def last(self, g):
        """exponent of the last place of bin g"""
        return self.emax + 1 - self.w * (min(g, self.maxi) + 1)

    # ------------------------------------------------------------ choices
    def mant(self, r):
        k = r.randrange(6)
        P = self.p - 1
        if k == 0:
            return 0
        if k == 1:
            return (1 << P) - 1
        if k == 2:
            return 1 << r.randrange(P)
        if k == 3:
            return r.getrandbits(P) & ~((1 << r.randrange(1, P)) - 1)
        return r.getrandbits(P)

    def num(self, r, e, s=None):
        return self.make(r.randrange(2) if s is None else s, e, self.mant(r))

    def tie(self, r, g=None):
        """a number with a bit exactly at half the last place of some bin it is cut at"""
        g = r.randrange(1, self.maxi) if g is None else g
        l = self.last(g) - 1
        lo = max(l, self.emin - self.p)
        n = min(self.p - 1, r.choice([0, 1, 2, 3, 12, self.w // 2, self.w - 1, self.p - 1]))
        e = lo + n
        m = 1 if n == 0 else ((1 << n) | 1)
        if n > 1 and r.random() < .6:
            m |= r.getrandbits(n) & ~1
        if r.random() < .3 and n + 3 < self.p:
            m = m << 2 | r.choice([0, 1, 3])
            lo -= 2
        # value m * 2^lo
        return self.fromint(r.randrange(2), m, lo)

    def fromint(self, s, m, e):
        if m == 0:
            return s << (self.bits - 1)
        n = m.bit_length()
        if n > self.p:
            e += n - self.p
            m >>= n - self.p
            n = self.p
        E = e + n - 1
        return self.make(s, E, (m << (self.p - n)) - (1 << (self.p - 1)))

    def edge(self, r):
        g = r.randrange(0, self.maxi + 1)
        e = self.top(g) - r.choice([0, 1, 1])
        k = r.randrange(3)
        s = r.randrange(2)
        if k == 0:
            return self.make(s, min(e, self.emax - 1), 0)
        if k == 1:
            return self.make(s, min(e, self.emax - 1), 1)
        return self.make(s, min(e, self.emax) - 1, (1 << (self.p - 1)) - 1)

    PROFILES = ["unit", "wide", "local", "local", "huge", "tiny", "tie", "edge", "full", "cancel", "mixed", "zeros", "stair"]

    def profile(self, r, name=None, safe=False, cap=None):
        """a source of numbers; cap limits the exponent"""
        name = name or r.choice(self.PROFILES)
        cap = self.emax - 1 if cap is None else cap
        lo = self.emin - self.p
        w = self.w
        c = r.randrange(lo + 2 * w, cap + 1)
        state = {"prev": []}
        g0 = max(0, (self.emax - c) // w)
        if name == "unit":
            h = lambda: self.num(r, -r.randrange(0, 4))
        elif name == "wide":
            h = lambda: self.num(r, r.randrange(lo, cap + 1))
        elif name == "local":
            h = lambda: self.num(r, c - r.randrange(0, 2 * w))
        elif name == "huge":
            h = lambda: self.num(r, cap - r.choice([0, 1, 2, 5, w - 1, w, w + 1, r.randrange(0, 3 * w)]))
        elif name == "tiny":
            h = lambda: self.num(r, lo + r.choice([0, 1, 2, self.p - 1, self.p, r.randrange(0, 2 * w + self.p)]))
        elif name == "tie":
            h = lambda: self.tie(r, r.choice([None, min(self.maxi, g0 + 1), min(self.maxi, g0 + 2)]))
        elif name == "edge":
            h = lambda: self.edge(r)
        elif name == "full":
            s = r.choice([0, 1, None])
            t = min(cap + 1, self.top(g0))
            h = lambda: self.make(r.randrange(2) if s is None else s, t - 1 - (r.random() < .1), (1 << (self.p - 1)) - 1)
        elif name == "cancel":
            def h():
                if state["prev"] and r.random() < .5:
                    return self.neg(state["prev"].pop(r.randrange(len(state["prev"]))))
                b = self.num(r, r.choice([c, c - w, c - 2 * w, r.randrange(lo, cap + 1)]))
                state["prev"].append(b)
                return b
        elif name == "zeros":
            h = lambda: r.choice([0, self.nzero, 0, self.nzero, self.num(r, c)])
        elif name == "stair":
            n = [0]
            step = r.choice([-w, w, 7, -7, 1 - w, w + 1])

            def h():
                n[0] += 1
                return self.num(r, lo + (c - lo + step * n[0]) % (cap - lo + 1))
        else:  # mixed
            subs = [self.profile(r, x, cap=cap) for x in r.sample(["unit", "wide", "local", "huge", "tiny", "tie", "edge", "zeros"], 3)]
            h = lambda: r.choice(subs)()

        def out():
            b = h()
            e = self.exp(b)
            if e is not None and e > cap:
                b = self.make(b >> (self.bits - 1), cap, b & ((1 << (self.p - 1)) - 1))
            return b
        return out

    def special(self, r, base, prob=.15):
        kinds = r.choice([[self.inf], [self.ninf], [self.inf, self.ninf], [self.nan], [self.inf, self.nan], [self.inf, self.inf, self.ninf]])
        return lambda: r.choice(kinds) if r.random() < prob else base()

    def pair(self, r, name=None, over=False):
        """a source of factor pairs whose products follow a profile"""
        src = self.profile(r, name, cap=self.emax - 1 if over else self.emax - 2)
        how = r.randrange(4)

        def h():
            a = src()
            e = self.exp(a)
            if e is None:
                return (a, self.num(r, r.randrange(-20, 20))) if r.random() < .5 else (self.num(r, r.randrange(-20, 20)), a)
            if how == 0:
                d = 0
            elif how == 1:
                d = e // 2
            elif how == 2:
                d = r.randrange(-self.w, self.w)
            else:
                d = e - r.randrange(-3, 3)
            # a 2^-d and a number near 2^d
            d = max(-(self.emax - 3), min(self.emax - 3, d))
            x = self.make(a >> (self.bits - 1), max(self.emin - self.p, min(self.emax - 1, e - d)), a & ((1 << (self.p - 1)) - 1)) if self.exp(a) >= self.emin - 1 else a
            if x is a:
                d = 0
            y = self.make(r.randrange(2), d, self.mant(r) if r.random() < .6 else 0)
            return (x, y) if r.random() < .5 else (y, x)
        return h

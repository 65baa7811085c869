"""Does the validation really look at what was recorded?  Accepted traces, altered in one place, have to be rejected.

  corrupt(r, line) -> list of (what, altered line)"""
import copy, json


def special(ws):
    m = 0x7ff0 if len(ws) == 4 else 0x7f80
    return ws[0] & m == m


def zero(ws):
    return ws[0] & 0x7fff == 0 and not any(ws[1:])


def flip(ws, bit):
    ws[len(ws) - 1 - bit // 16] ^= 1 << (bit % 16)


def corrupt(r, line):
    c = json.loads(line)
    out = []
    K = c["K"]
    if not c["ev"]:
        return out
    todo = {}

    def offer(what, n, f):
        todo.setdefault(what, []).append((n, f))
    was = {}
    for n, e in enumerate(c["ev"]):
        offer("stray", n, lambda e: e.update(stray=1))
        offer("mode", n, lambda e: e.update(mode=1))
        offer("leak", n, lambda e: e.update(leak=1))
        for j, p in enumerate(e["post"]):
            for q, (pri, car) in enumerate(p["c"]):
                if special(pri[0]) or zero(pri[0]):
                    continue
                i = r.randrange(K)
                if not special(pri[i]) and not zero(pri[i]):
                    b = r.choice([0, r.randrange(20), len(pri[0]) * 16 - 1])
                    offer("primary", n, lambda e, j=j, q=q, i=i, b=b: flip(e["post"][j]["c"][q][0][i], b))
                if not zero(car[i]):
                    b = r.choice([0, r.randrange(20), len(pri[0]) * 16 - 1])
                    offer("carry", n, lambda e, j=j, q=q, i=i, b=b: flip(e["post"][j]["c"][q][1][i], b))
        if e["op"] == "add" and e["post"]:
            p = e["post"][0]
            old = was.get(p["s"])
            for q in range(len(p["c"])):
                if old and old[0][q] and not zero(old[0][q][0][0]) and not special(e["x"][q]) and not special(p["c"][q][0][0]) and e["norm"] and old[1] and old[0][q] != p["c"][q]:
                    # the number mattered, so that its opposite would have given something else
                    offer("number", n, lambda e, q=q: flip(e["x"][q], len(e["x"][q]) * 16 - 1))
        for p in e["post"]:
            was[p["s"]] = (p["c"], e["norm"])
        if e["op"] in ("conv", "front") and not e.get("loose"):
            q = r.randrange(len(e["ret"]))
            ws = e["ret"][q]
            if not special(ws) and not zero(ws):
                hi = len(ws) * 16 - (12 if len(ws) == 4 else 9)
                offer("result", n, lambda e, q=q, hi=hi: flip(e["ret"][q], r.randrange(hi - 8, hi)))
                offer("sign of result", n, lambda e, q=q: flip(e["ret"][q], len(e["ret"][q]) * 16 - 1))
            elif not special(ws) or not (ws[0] & (0xf if len(ws) == 4 else 0x7f) or any(ws[1:])):
                offer("kind of result", n, lambda e, q=q: flip(e["ret"][q], 5))
        if e["op"] in ("norm2", "amax", "rgemv", "rgemm", "bound"):
            def f(e):
                w = e["ret"]
                if e["op"] == "amax" and any(special(x) for run in e["runs"] for x in run[1:]):
                    return False
                while w and isinstance(w[0], list) and w[0]:
                    w = w[r.randrange(len(w))]
                if not w or w[0] == [] or special(w) and (w[0] & (0xf if len(w) == 4 else 0x7f) or any(w[1:])):
                    return False
                if zero(w):
                    flip(w, len(w) * 16 - 3)        # a number of moderate size
                else:
                    flip(w, len(w) * 16 - 2)        # another exponent by far
            offer("result of " + e["op"], n, f)
        if e["op"] in ("ssq", "addsq"):
            if e["post"] and not special(e["post"][0]["c"][0][0][0]):
                offer("scale", n, lambda e: flip(e["ret"][0], len(e["ret"][0]) * 16 - (12 if len(e["ret"][0]) == 4 else 9)))
        if e["op"] == "fn" and "reti" in e and e["fn"] in ("index", "size", "num"):
            offer("integer", n, lambda e: e.update(reti=e["reti"] + 1))
        if e["op"] == "print" and all(len(x) for x in e["rows"]) and not any(zero(p[0]) for q in e["post"][0]["c"] for p in q) and not any(special(p[0]) for q in e["post"][0]["c"] for p in q):
            offer("printed exponent", n, lambda e: e["rows"][r.randrange(K)].__setitem__(0, [0x3fe8, 0, 0, 0]))
            offer("printed line", n, lambda e: e["rows"].pop())
        if e["op"] == "duet":
            offer("duet", n, lambda e: e.update(bad=1))
    for what, l in sorted(todo.items()):
        n, f = r.choice(l)
        d = copy.deepcopy(c)
        if f(d["ev"][n]) is not False:
            out.append((what, json.dumps(d, separators=(",", ":"))))
    return out

"""Interleavings of calls on separate data: the schedules that TLC enumerates from MCThreads.tla, as plans for the driver."""
import json, os, random, re
import rb, gen
from gen import SUMS, DOTS

SAME = 6            # events of the same kind to a crowd, which take different branches
STATS = []
_S = []


def schedules():
    """[(first calls in the process?, share of the first call done at the switch, share of the second when it is switched back or None)]"""
    if not _S:
        rc, out, wall = rb.tlc(["-config", "MCThreads.cfg", "MCThreads.tla"], rb.SPEC, workers=1)
        if rc != 0:
            raise RuntimeError("MCThreads: TLC exit %s\n%s" % (rc, out[-1500:]))
        for m in re.finditer(r'<<"S", (\d), <<([^<>]*)>>, (\d+), (\d+)>>', out):
            sw = [int(x) for x in m.group(2).split(",") if x.strip()]
            if sw:
                na, nb = int(m.group(3)), int(m.group(4))
                _S.append((int(m.group(1)), sw[0] / na, sw[1] / nb if len(sw) > 1 else None))
        _S.sort(key=repr)
        g, n = rb.states(out)
        STATS.append({"model": "MCThreads", "config": "schedules", "states": n, "transitions": g, "wall_s": round(wall, 1),
                      "what": "enumeration of schedules of two calls with at most two preemptions; %d schedules" % len(_S)})
    return _S


def weight(c):
    n = 0
    for e in c["ev"]:
        n += sum(x[0] for x in e.get("runs", [])) + 3 * len(e.get("A", [])) * len(e.get("X", e.get("B", []))) * max(1, len((e.get("B") or [[]])[0]))
    return n * c["K"]


def keys(c):
    """what each event is: operations that share code"""
    nc = {s["name"]: s["nc"] for s in c.get("slots", [])}
    for n, e in enumerate(c["ev"]):
        if e["op"] != "set0":
            yield (e["op"], e.get("kind") or e.get("fn"), c["f"], e.get("nc", nc.get(e.get("d", e.get("s")), 0))), n


def pool(r, size):
    out = []
    for c in list(gen.everything(r, size)) + list(gen.helpers(r, .01 * size))[:10] + list(gen.collapse(r, .1 * size)) + list(gen.unlike(r, size)) + \
            list(gen.gemv(r, .3 * size, "thr", big=False)) + list(gen.gemm(r, .3 * size, "thr", big=False)):
        c = dict(c, ev=[e for e in c["ev"] if e["op"] not in ("deposits", "print") and e.get("fn") not in ("alloc", "bins")][:6])
        if c["ev"] and weight(c) < (200 if r.random() < .9 else 3000):
            out.append(c)
    r.shuffle(out)
    return out


def threads(r, size, tag="thr"):
    """crowds of cases: pairs under the enumerated schedules, one call within another at every so many instructions, and all at once"""
    sc = schedules()
    cs = pool(r, 1.5 * size)
    by = {}
    for c in cs:
        for k, n in keys(c):
            by.setdefault(k, []).append((c, n))
    todo = []
    for n in range(int(30 * size)):
        if not todo:
            todo = sorted(by, key=repr)
            r.shuffle(todo)
        k = todo.pop()
        if len(by[k]) < 2:
            continue
        pick = [r.choice(by[k]) for _ in range(SAME)] + [(c, r.randrange(len(c["ev"]))) for c in r.sample(cs, 1)]
        crowd = [dict(json.loads(json.dumps(c)), id="%s-%d.%d" % (c["id"], n, j)) for j, (c, _) in enumerate(pick)]

        def two():
            a, b = r.sample(range(SAME), 2) if r.random() < .8 else r.sample(range(SAME + 1), 2)
            return {"a": [a, pick[a][1]], "b": [b, pick[b][1]]}
        ev = []
        for _ in range(10):
            fresh, pa, pb = r.choice(sc)
            jit = lambda p: None if p is None else min(.999, max(0, p + r.uniform(-.12, .12) if r.random() < .8 else r.random()))
            ev.append(dict(two(), op="duet", how="duet", fresh=fresh, pa=jit(pa), pb=jit(pb)))
        for _ in range(5):
            ev.append(dict(two(), op="duet", how="within", fresh=int(r.random() < .1), pa=r.random(), stride=r.choice([1, 1, 1, 2, 5]),
                           most=r.choice([1500, 4000])))
        if n % 4 == 0:
            ev.append({"op": "duet", "how": "crowd", "ms": 20, "fresh": 1})
        yield {"id": "%s%d" % (tag, n), "f": "d", "K": 2, "crowd": crowd, "ev": ev}

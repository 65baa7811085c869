"""check.py ID quick|thorough : decide one property (see DESIGN.md).

Exit 0: the property held on everything explored.  Exit 1: a line "VIOLATION property=ID replay=PATH".
Exit 2: no answer (the tree does not build, or the machinery itself failed)."""
import hashlib, json, os, random, shutil, sys, tempfile, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rb, gen, hist, models, threads, binding
from gen import SUMS, DOTS, SQS

S = gen
# property -> list of (generator, share).  Sizes are what one quick round has; a thorough run does many rounds.
DEPTH = {"quick": 4, "thorough": 5}
TIER = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in DEPTH else "quick"


def HIST(z0=1):
    return lambda r, z: hist.histories(r, z0 * z, DEPTH[TIER])


PLANS = {
    "P01": [(lambda r, z: S.add_order(r, 1.7 * z), 1), (lambda r, z: S.add_order(r, .3 * z, .1, "addS"), 1), (lambda r, z: S.mixed_histories(r, z), 1), (HIST(), 1)],
    "P02": [(lambda r, z: S.merge_trees(r, 1.3 * z), 1), (lambda r, z: S.merge_vec(r, 2 * z), 1),
            (lambda r, z: S.merge_trees(r, .3 * z, .1, "mergeS"), 1),
            (lambda r, z: S.mixed_histories(r, .6 * z), 1), (HIST(), 1)],
    "P03": [(lambda r, z: S.kernels(r, z, SUMS, 4), 1), (lambda r, z: S.same_many_ways(r, z, SUMS), 1),
            (lambda r, z: S.kernels(r, z, SUMS, 1.5, .2, "vecS", False), 1),
            (lambda r, z: S.kernels(r, z, SUMS, 1, .05, "vecT", False), "tiny")],
    "P04": [(lambda r, z: S.kernels(r, z, DOTS, 3), 1), (lambda r, z: S.same_many_ways(r, z, DOTS), 1),
            (lambda r, z: S.kernels(r, z, DOTS, 1, .3, "vecS", False), 1),
            (lambda r, z: S.kernels(r, z, DOTS, 1, .05, "vecT", False), "tiny")],
    "P05": [(lambda r, z: S.squares(r, 1.2 * z), 1), (lambda r, z: S.norms(r, .7 * z), 1),
            (lambda r, z: S.squares(r, .5 * z, .05, "ssqS"), 1), (lambda r, z: S.norms(r, .3 * z, .05, "nrmS"), 1),
            (lambda r, z: S.squares(r, .4 * z, .02, "ssqT"), "tiny")],
    "P06": [(lambda r, z: S.square_parts(r, 1.7 * z), 1), (lambda r, z: S.square_parts(r, .3 * z, special=.1, tag="sqpS"), 1),
            (lambda r, z: S.rescales(r, .4 * z), 1)],
    "P07": [(lambda r, z: S.accuracy(r, 1.5 * z), 1), (lambda r, z: S.collapse(r, z), 1), (lambda r, z: S.deep(r, 1.5 * z), 1), (lambda r, z: S.bounds(r, z), 1)],
    "P08": [(lambda r, z: S.specials(r, .6 * z), 1), (lambda r, z: S.blocks(r, z), 1), (lambda r, z: S.specials(r, .2 * z, "specT"), "tiny"),
            (lambda r, z: S.blocks(r, z, "blkT", limit=32), "tiny")],
    "P09": [(lambda r, z: S.endurance(r, z), 1), (lambda r, z: S.protocol(r, .5 * z), 1), (HIST(), 1)],
    "P10": [(lambda r, z: S.extremes(r, z), 1), (HIST(), 1)],
    "P11": [(lambda r, z: S.gemv(r, .6 * z), 1), (lambda r, z: S.gemv(r, .15 * z, "gemvS", special=.03, big=False), 1),
            (lambda r, z: S.gemv(r, .4 * z, "gemvT", big=False, far=.6), "tiny"), (lambda r, z: S.gemv(r, .6 * z, "gemvU", big=False, far=.7), "thin")],
    "P12": [(lambda r, z: S.gemm(r, .5 * z), 1), (lambda r, z: S.gemm(r, .15 * z, "gemmS", special=.03, big=False), 1),
            (lambda r, z: S.gemm(r, .3 * z, "gemmT", big=False, far=.6), "tiny"), (lambda r, z: S.gemm(r, z, "gemmU", big=False, far=.9), "thin")],
    "P13": [(lambda r, z: S.housekeeping(r, 1.5 * z), 1), (lambda r, z: S.negation(r, z), 1), (HIST(), 1)],
    "P14": [(lambda r, z: S.protocol(r, 2 * z), 1), (HIST(2), 1)],
    "P15": [(lambda r, z: S.helpers(r, z), 1)],
    "P16": [(lambda r, z: S.merge_vec(r, 2 * z, .1, True), 1), (lambda r, z: S.square_parts(r, 1.5 * z, True, special=.03), 1)],
    "P17": [(lambda r, z: S.everything(r, .5 * z), "ALL")],
    "P18": [(lambda r, z: S.fronts(r, z, SUMS + DOTS), 1), (lambda r, z: S.norms(r, .5 * z, .02), 1),
            (lambda r, z: S.fronts(r, .25 * z, SUMS + DOTS, .2, "frontS"), 1),
            (lambda r, z: S.gemv(r, .4 * z, "fgemv", front=1, big=False), 1), (lambda r, z: S.gemm(r, .3 * z, "fgemm", front=1, big=False), 1)],
    "P19": [(lambda r, z: S.everything(r, z), 1), (lambda r, z: S.everything(r, .6 * z, "allA"), "asan"),
            (lambda r, z: S.blocks(r, .3 * z, "blkA"), "asan"), (lambda r, z: S.helpers(r, min(1, .2 * z), "fnA"), "asan")],
    "P20": [(lambda r, z: S.scans(r, z), 1)],
    "P22": [(lambda r, z: S.prints(r, z), 1)],
    "P21": [(lambda r, z: threads.threads(r, z), 1)],
}
MPI = {"P16"}
# builds: "std", or those named in the second place of an entry of PLANS (together: the same cases on each, compared with each other)
ALL = ["std", "sse", "sisd", "args", "tiny", "nopy", "clang"]
ALL_THOROUGH = ["std", "sse", "sisd", "args", "O1", "nopy", "clang", "tiny", "thin", "rand1", "rand2", "rand3", "rand4"]
MODELS = models.MODELS
# size of a quick check: what takes about half a minute
SIZE = {"P01": 5, "P02": 7, "P03": 5, "P04": 4, "P05": 4, "P06": 9, "P07": 6, "P08": 10, "P09": 4, "P10": 6, "P11": 8, "P12": 8, "P13": 6,
        "P14": 6, "P15": 9, "P16": 6, "P17": 2.5, "P18": 7, "P19": 5, "P20": 14, "P21": 6, "P22": 5}
BUDGET = {"quick": 0, "thorough": 560}
EVID = os.path.join(rb.VERIF, "evidence")


def merge_lines(lines_by_cfg):
    """the same case on several builds becomes one case with the accumulators of each"""
    out = []
    for group in zip(*lines_by_cfg):
        if any(l is None for l in group):
            out.append(None)
            continue
        m = None
        for k, l in enumerate(group):
            c = json.loads(l)
            p = "%d/" % k
            c["slots"] = {p + s: n for s, n in c["slots"].items()}
            for e in c["ev"]:
                for q in ("s", "d"):
                    if q in e:
                        e[q] = p + e[q]
                for q in ("ss", "ds"):
                    if q in e:
                        e[q] = [p + x for x in e[q]]
                for x in e["post"]:
                    x["s"] = p + x["s"]
            if m is None:
                m = c
            else:
                m["slots"].update(c["slots"])
                m["ev"] += c["ev"]
        out.append(json.dumps(m, separators=(",", ":")))
    return out


def crash_text(err):
    for l in err.split("\n"):
        if l.startswith("SUMMARY:"):
            return l
    return err.strip()[-300:]


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol = []          # (key, text, replay)
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events": 0, "cases_without_events": 0,
                    "rounds": 0, "models": [], "samples": [], "operations": {}}
        self.err = []
        self.work = tempfile.mkdtemp(prefix="rb-check-")
        self.findings = load_findings(prop)

    def left(self):
        return BUDGET[self.tier] - (time.time() - self.t0)

    # ---------------------------------------------------------------- violations
    def violation(self, case, what, n, cfgs):
        ev = case["ev"][n] if 0 <= n < len(case["ev"]) else {}
        key = "%s/%s/%s" % (self.prop, ev.get("op", "-") + (":" + str(ev["kind"]) if "kind" in ev else ""), what.split(":")[0])
        for k in self.findings:
            if k == key:
                self.known.append(key)
                return
        top, case = case.get("_in", case), {k: v for k, v in case.items() if k != "_in"}
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha256(json.dumps(case).encode()).hexdigest()[:12]))
        with open(path, "w") as fd:
            json.dump({"property": self.prop, "what": what, "event": n, "configs": cfgs, "mpi": self.prop in MPI, "case": top, "in": case["id"]}, fd)
        self.viol.append((key, "%s f=%s K=%s event %d %s: %s" % (case["id"], case["f"], case["K"], n, ev.get("op"), what), path))

    def model_violation(self, name, out):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.txt" % (self.prop, name))
        with open(path, "w") as fd:
            fd.write(out)
        self.viol.append((name, "the design model %s has a counterexample" % name, path))

    # ---------------------------------------------------------------- one batch of cases
    def batch(self, cases, libs, cfgs, tag):
        """libs: list of (lib, mpilib)"""
        per = []
        gone = set()
        for k, (lib, mlib) in enumerate(libs):
            lines, crashes = rb.run_driver(self.work, cases, lib, mlib, tag="%s%d" % (tag, k))
            for c in crashes:
                if c["rc"] == 1 and "Traceback" in c["stderr"]:
                    self.err.append("driver: " + c["stderr"][-1500:])
                    continue
                gone.add(c["case"])
                what = "hangs" if c["rc"] == "timeout" else "crash (%s) %s" % (c["rc"], crash_text(c["stderr"]))
                self.violation(cases[c["case"]], what, c["event"], cfgs)
            per.append(lines)
        whole = cases
        if len(per) == 1:
            cases, per[0] = rb.expand(whole, per[0])
        lines = per[0] if len(per) == 1 else merge_lines(per)
        self.check_lines(cases, lines, cfgs, tag)
        if self.tier == "thorough" and self.cov["rounds"] == 0 and not self.viol and not self.err:
            self.corrupted([l for l in lines if l and json.loads(l)["ev"]], tag)

    def corrupted(self, lines, tag):
        """traces that were accepted, altered in one place: they have to be rejected"""
        r = random.Random(self.seed)
        some = r.sample(lines, min(60, len(lines)))
        alt = [(what, x) for l in some for what, x in binding.corrupt(r, l)]
        caught, left = {}, list(range(len(alt)))
        for attempt in range(60):
            bad, ok, g, d, err = rb.validate(self.work, [alt[k][1] if k in left else None for k in range(len(alt))], tag=tag + "x")
            for k in bad:
                caught[k] = True
            for k in ok:
                caught[k] = False
            left = [k for k in left if k not in caught]
            if err is None or not left:
                break
            import re
            m = re.findall(r"cid = (\d+)", err)
            if not m:
                self.err.append(err)
                return
            idx = [k for k in range(len(alt)) if k in left or k in bad or k in ok]
            k = idx[int(m[-1]) - 1]
            caught[k] = True            # cannot even be read
            left = [j for j in left if j != k]
        n = self.cov.setdefault("corrupted_traces", {})
        for k, (what, x) in enumerate(alt):
            n.setdefault(what, [0, 0])
            n[what][0] += 1
            n[what][1] += bool(caught.get(k))
            if k in caught and not caught[k]:
                self.err.append("a corrupted trace was accepted (%s): %s" % (what, x[:3000]))

    def check_lines(self, cases, lines, cfgs, tag):
        lines = list(lines)
        nev = {}
        for i, l in enumerate(lines):
            if l is None:
                continue
            c = json.loads(l)
            nev[i] = len(c["ev"])
            if not c["ev"]:
                lines[i] = None
                self.cov["cases_without_events"] += 1
            for e in c["ev"]:
                self.cov["operations"][e["op"]] = self.cov["operations"].get(e["op"], 0) + 1
                self.cov["events"] += 1
        for attempt in range(4):
            bad, ok, gen_, dis, err = rb.validate(self.work, lines, tag=tag)
            self.cov["states"] += dis
            self.cov["transitions"] += max(0, gen_ - sum(1 for l in lines if l))
            n0 = len(cases[0]["ev"]) if cases else 0
            for i, (n, op, why) in sorted(bad.items()):
                m = len(cases[i]["ev"])
                self.violation(cases[i], why + (" (build %s)" % cfgs[n // m] if len(cfgs) > 1 and m else ""), n % m if m else n, cfgs)
            self.cov["traces_validated_against_impl"] += len(ok)
            if err is None:
                miss = [i for i, l in enumerate(lines) if l and i not in bad and i not in ok]
                if miss:
                    self.err.append("no verdict on cases %s" % [cases[i]["id"] for i in miss[:5]])
                return
            # an observation the specification cannot even read
            import re
            idx = [i for i, l in enumerate(lines) if l]
            m = re.findall(r"cid = (\d+)", err)
            pcs = re.findall(r"pc = (\d+)", err)
            if not m or "exit timeout" in err:
                self.err.append(err)
                return
            i = idx[int(m[-1]) - 1]
            evn = int(pcs[-1]) if pcs else 0
            self.violation(cases[i], "outside the specification: " + err[-300:].replace("\n", " "), evn % max(1, len(cases[i]["ev"])), cfgs)
            for j in list(bad) + [i] + list(ok):
                lines[j] = None
        return

    # ---------------------------------------------------------------- everything
    def models(self):
        for m in MODELS.get(self.prop, []):
            for args in m[self.tier]:
                if self.tier == "thorough" and self.left() < 60:
                    self.cov["models"].append({"model": m["module"], "config": args["cfg"], "over": args["over"], "skipped": "out of time"})
                    continue
                name = args["cfg"].replace(".cfg", "") + "".join("-%s%s" % kv for kv in sorted(args["over"].items()))
                rc, out, wall = rb.tlc(["-config", models.config(args, self.work), m["module"] + ".tla"], rb.SPEC,
                                       timeout=args["timeout"] if self.tier == "quick" else max(30, self.left() + 120),
                                       workers=args["workers"], heap=args["heap"])
                g, d = rb.states(out)
                self.cov["states"] += d
                self.cov["transitions"] += g
                self.cov["models"].append({"model": m["module"], "config": name, "states": d, "transitions": g, "wall_s": round(wall, 1), "what": m["what"]})
                rb.log("[model] %s: %d states, %.1f s, rc %s" % (name, d, wall, rc))
                if rc in (12, 13) or "is violated" in out:
                    self.model_violation(name, out)
                elif rc == "timeout" and self.tier == "thorough":
                    self.cov["models"][-1]["incomplete"] = "stopped at the time limit"
                elif rc != 0:
                    self.err.append("%s: TLC exit %s\n%s" % (name, rc, out[-2000:]))

    def controls(self):
        """models with a fault put in have to fail: else what they say of the others means nothing"""
        for m in MODELS.get(self.prop, []):
            for args in m["controls"]:
                name = args["cfg"].replace(".cfg", "") + "".join("-%s%s" % kv for kv in sorted(args["over"].items()))
                rc, out, wall = rb.tlc(["-config", models.config(args, self.work), m["module"] + ".tla"], rb.SPEC,
                                       timeout=args["timeout"], workers=1, heap=args["heap"])
                g, d = rb.states(out)
                self.cov["models"].append({"model": m["module"], "config": name, "states": d, "transitions": g, "wall_s": round(wall, 1),
                                           "what": "control: has to fail, and does" if rc in (12, 13) else "control: does not fail"})
                if rc not in (12, 13):
                    self.err.append("the control %s did not fail: TLC exit %s\n%s" % (name, rc, out[-800:]))

    def builds(self, w):
        if w == "ALL":
            return tuple(ALL_THOROUGH if self.tier == "thorough" else ALL)
        return (w,) if isinstance(w, str) else ("std",)

    def go(self):
        groups = sorted({self.builds(w) for _, w in PLANS[self.prop]})
        cfgs = sorted({c for g in groups for c in g})
        mpi = self.prop in MPI
        rb.java_classes()
        libs = [None] * len(cfgs)

        def bld(k):
            try:
                libs[k] = rb.build(cfgs[k], mpi)
            except rb.BuildError as e:
                libs[k] = e
            except Exception as e:
                libs[k] = rb.BuildError(repr(e))
        ths = [threading.Thread(target=bld, args=(k,)) for k in range(len(cfgs))]
        mt = threading.Thread(target=self.guard(self.models))
        for t in ths:
            t.start()
        mt.start()
        for t in ths:
            t.join()
        for l in libs:
            if isinstance(l, Exception):
                mt.join()
                raise l
        rnd = 0
        while True:
            z = SIZE[self.prop] if self.tier == "quick" else 3.0
            t1 = time.time()
            by, cases = {}, []
            for k, (g, w) in enumerate(PLANS[self.prop]):
                r = random.Random("%d/%d/%d/%s" % (self.seed, rnd, k, self.prop))
                by.setdefault(self.builds(w), []).extend(c for c in g(r, z) if c["ev"])
            cases = [c for cs in by.values() for c in cs]
            if rnd == 0:
                for c in cases[::max(1, len(cases) // 3)][:3]:
                    t = json.dumps(c)
                    self.cov["samples"].append(t if len(t) < 1500 else t[:1500] + " ...")
            for k, (names, cs) in enumerate(sorted(by.items())):
                if not any(what.find("hangs") >= 0 for _, what, _ in self.viol):
                    self.batch(cs, [libs[cfgs.index(n)] for n in names], names, "r%d.%d-" % (rnd, k))
            rnd += 1
            self.cov["rounds"] = rnd
            dt = time.time() - t1
            rb.log("[round %d] %d cases, %.1f s, %d violations" % (rnd, len(cases), dt, len(self.viol)))
            if self.viol or self.err or self.left() < 1.3 * dt:
                break
        mt.join()
        if self.tier == "thorough":
            self.controls()

    def guard(self, f):
        def g():
            try:
                f()
            except Exception:
                self.err.append(traceback.format_exc())
        return g

    def finish(self):
        for st in (hist.STATS, threads.STATS):
            self.cov["models"] += st
            self.cov["states"] += sum(x["states"] for x in st)
            self.cov["transitions"] += sum(x["transitions"] for x in st)
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "assumptions": ["the driver's view of memory is faithful (page-guarded allocations, byte snapshots around every call)",
                              "TLC and the arbitrary precision integer overrides compute what ZInt.tla defines (ZIntTest.tla checks them against each other)",
                              "the compiler in the sandbox is the compiler of interest"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as fd:
            json.dump(ev, fd, indent=1)
            fd.write("\n")
        shutil.rmtree(self.work, ignore_errors=True)


def load_findings(prop):
    out = []
    try:
        for l in open(os.path.join(rb.VERIF, "known_findings.txt")):
            if l.startswith("known: property=%s " % prop):
                for w in l.split():
                    if w.startswith("key="):
                        out.append(w[4:])
    except FileNotFoundError:
        pass
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier == "thorough":
        seed += 1000
    run = Run(prop, tier, seed)
    rc = 0
    try:
        run.go()
    except rb.BuildError as e:
        print("the tree does not build: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    run.finish()
    for k in sorted(set(run.known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if run.viol:
        seen = set()
        for key, text, path in run.viol:
            if key in seen and len(seen) > 0:
                continue
            seen.add(key)
            if len(seen) > 8:
                break
            print("  " + text)
        print("VIOLATION property=%s replay=%s" % (prop, run.viol[0][2]))
        sys.exit(1)
    if run.err:
        for e in run.err[:5]:
            print("ERROR: " + e)
        sys.exit(2)
    if rc == 0:
        c = run.cov
        print("%s holds: %d traces (%d events) validated, %d states, %d transitions, %.0f s" %
              (prop, c["traces_validated_against_impl"], c["events"], c["states"], c["transitions"], time.time() - run.t0))
    sys.exit(rc)


if __name__ == "__main__":
    main()

"""writes MANIFEST.json from properties.jsonl and harness/models.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import models, check
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
C = []
for p in P:
    i = p["id"]
    t = "TLA+ specification: traces recorded from the real library are validated against it with TLC (Trace.tla)"
    ms = [m["module"] for m in models.MODELS.get(i, [])]
    if ms:
        t += "; design models checked exhaustively within bounds with TLC (%s)" % ", ".join(ms)
    if any(f.__name__ == "<lambda>" and "histories" in str(f.__code__.co_names) for f, _ in check.PLANS[i]):
        t += "; histories enumerated by TLC from MCHist replayed into the library"
    b = sorted({c for _, w in check.PLANS[i] for c in (check.ALL if w == "ALL" else [w] if isinstance(w, str) else ["std"])})
    C.append({"property": i, "quick_cmd": "python3 harness/check.py %s quick" % i, "thorough_cmd": "python3 harness/check.py %s thorough" % i,
              "technique": t, "level": "model_checking",
              "level_note": "Every recorded call is compared with the transition the specification allows: abstract accumulator, normal form of the stored pairs, returned bits, "
              "stray writes, allocations. Inputs of the real code are generated from VERIF_SEED towards the boundaries of the specification, so its coverage is by sampling; "
              "the design models are exhaustive within their bounds. Builds used: %s. Trusts TLC, the integer overrides (cross-checked by ZIntTest) and the driver." % ", ".join(b)})
M = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": C, "not_applicable": [],
     "notes": "No hooks in /repo are needed: the checks build the working tree as a shared library and observe through the public API and guarded memory. See DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as fd:
    json.dump(M, fd, indent=1)
    fd.write("\n")

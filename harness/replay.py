"""replay.py FILE : run the case of a violation again on the current tree and say what the specification thinks of it."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rb, check


def main():
    if sys.argv[1].endswith(".txt"):
        print(open(sys.argv[1]).read())
        return 1
    d = json.load(open(sys.argv[1]))
    work = tempfile.mkdtemp(prefix="rb-replay-")
    try:
        per = []
        for cfg in d["configs"]:
            lib, mlib = rb.build(cfg, d.get("mpi", False))
            lines, crashes = rb.run_driver(work, [d["case"]], lib, mlib)
            for c in crashes:
                print("crash: event %d, %s\n%s" % (c["event"], c["rc"], c["stderr"]))
                return 1
            per.append(lines)
        lines = per[0] if len(per) == 1 else check.merge_lines(per)
        cases = [d["case"]]
        if len(per) == 1:
            cases, lines = rb.expand(cases, lines)
        if "-v" in sys.argv:
            for l in lines:
                print(json.dumps(json.loads(l), indent=1))
        bad, ok, g, n, err = rb.validate(work, lines)
        for i, (e, op, why) in bad.items():
            m = len(cases[i]["ev"])
            print("event %d (%s) does not conform: %s" % (e % m, op, why))
            print(json.dumps(cases[i]["ev"][e % m])[:2000])
        if err:
            print(err)
        print("conforms" if ok and not bad and not err else "does not conform")
        return 0 if ok and not bad and not err else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

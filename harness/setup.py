"""setup: compile the arbitrary precision overrides, and test them against their TLA+ definitions."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rb

rb.java_classes()
seen = []
for override in (True, False):
    rc, out, wall = rb.tlc(["-config", "ZIntTest.cfg", "ZIntTest.tla"], rb.SPEC, override=override, workers=1)
    body = out[out.find('<<"LAWS"'):out.find("Computing initial")]
    if rc != 0 or not re.search(r'"LAWS", TRUE', out) or len(body) < 1000:
        print(out[-3000:])
        sys.exit(1)
    seen.append(body)
if seen[0] != seen[1]:
    print("the integer overrides differ from ZInt.tla")
    sys.exit(1)
print("ready")

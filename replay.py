#!/opt/venv/bin/python
"""replay.py FILE [--trace]: repeat a recorded failing run exactly.  Exit 1 when it fails the same way again, 0 when it does not."""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

from dsim import runner  # noqa: E402


def main():
    path = sys.argv[1]
    with open(path) as f:
        doc = json.load(f)
    pool = runner.Pool(1)
    pool.start(0, lambda: runner.execute(doc["plan"], trace="--trace" in sys.argv))
    (_, s, v), = pool.wait()
    viol, out = runner.judge(doc["property"], s, v)
    if out and "--trace" in sys.argv:
        print("\n".join(out["extra"].get("trace", [])))
        print(out["extra"].get("tb", ""))
    same = [x for x in viol if x[1] == doc["kind"]]
    if not same:
        print(f"not reproduced; this run shows {viol or 'no violation'}")
        return 0
    print(f"{same[0][1]}: {same[0][2]}")
    if out and doc.get("digest"):
        print("digest", out["digest"], "identical to the recorded run" if out["digest"] == doc["digest"] else f"differs from recorded {doc['digest']}")
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main())

"""replay.py FILE: executes a recorded failing run again, in fresh processes.  Exit 1 and the VIOLATION line if it fails as
recorded, 0 if it does not fail."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sim import check, pool, reduce  # noqa: E402


def main():
    rec = json.load(open(sys.argv[1]))
    check.prepare(pool.REPO)
    with pool.Pool({rec["scenario"].get("manager", "signalfd"): 1}) as P:
        res = P.run([{"sc": rec["scenario"], "choices": rec["choices"], "trace": True}])[0]
    if res.get("error"):
        print(res["error"])
        return 2
    if "-v" in sys.argv:
        for t in res.get("trace", ()):
            print(str(t)[:250])
    v = reduce.same(rec["violation"], res)
    print("digest %s, recorded %s" % (res["digest"], rec["digest"]))
    if v is None:
        print("did not fail")
        return 0
    print("%s: %s" % (v["code"], v["msg"]))
    if res["digest"] != rec["digest"]:
        print("(the code has changed: the execution is not the recorded one)")
    print("VIOLATION property=%s replay=%s" % (rec["property"], sys.argv[1]))
    return 1


if __name__ == "__main__":
    sys.exit(main())

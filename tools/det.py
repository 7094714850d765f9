"""Runs scenarios repeatedly on different workers and shows the first difference of their traces."""
import sys
sys.path.insert(0, "/verif")
from sim import gen, pool
prop, idx = sys.argv[1], [int(x) for x in sys.argv[2].split(",")]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 8
for i in idx:
    sc = gen.scenario(prop, "1:%s:%d" % (prop, i))
    out = []
    for rep in range(2):
        with pool.Pool({sc.get("manager", "signalfd"): 4}) as P:
            out += P.run([{"sc": sc, "trace": True} for _ in range(n)])
    ds = {}
    for r in out:
        ds.setdefault(r.get("digest"), r)
    print(prop, i, "digests:", len(ds), [r.get("error", "")[-300:] for r in ds.values()])
    if len(ds) > 1:
        a, b = list(ds.values())[:2]
        ta, tb = a["trace"], b["trace"]
        for j in range(max(len(ta), len(tb))):
            x = ta[j] if j < len(ta) else None
            y = tb[j] if j < len(tb) else None
            if x != y:
                for t in ta[max(0, j - 4):j]:
                    print("   ", str(t)[:250])
                print("  <", str(x)[:600])
                print("  >", str(y)[:600])
                break
        else:
            print("traces same")

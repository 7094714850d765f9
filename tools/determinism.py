"""determinism.py N [START]: executes N runs of every property three times - on 6 workers, on 3 workers with another
PYTHONHASHSEED, and replayed from the recorded choices - and compares the hashes of everything that happened."""
import os
import sys
sys.path.insert(0, "/verif")
from sim import gen, pool
n = int(sys.argv[1])
start = int(sys.argv[2]) if len(sys.argv) > 2 else 0
props = sys.argv[3:] or ["C%02d" % i for i in range(1, 26)]
bad = total = 0
for p in props:
    scs = [gen.scenario(p, "7:%s:%d" % (p, i)) for i in range(start, start + n)]
    os.environ["SIM_HASHSEED"] = "0"
    with pool.Pool(dict({"signalfd": 5, "asyncio": 1}, **gen.MANAGERS.get(p, {}))) as P:
        a = P.run([{"sc": s, "log": True} for s in scs])
    os.environ["SIM_HASHSEED"] = "4711"
    with pool.Pool(dict({"signalfd": 3, "asyncio": 1}, **gen.MANAGERS.get(p, {}))) as P:
        b = P.run([{"sc": s} for s in scs])
        c = P.run([{"sc": s, "choices": r.get("draws")} for s, r in zip(scs, a)])
    for i, (x, y, z) in enumerate(zip(a, b, c)):
        total += 1
        if not (x.get("digest") == y.get("digest") == z.get("digest")) or x.get("error"):
            bad += 1
            print(p, i + start, x.get("digest"), y.get("digest"), z.get("digest"), x.get("error", "")[-200:], flush=True)
print("%d runs, each executed 3 times: %d not deterministic" % (total, bad))

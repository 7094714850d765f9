"""reducetest.py N [START]: random reductions of good runs, and good runs with all choices 0, must be good."""
import random
import sys
sys.path.insert(0, "/verif")
from sim import gen, pool, reduce
n = int(sys.argv[1])
start = int(sys.argv[2]) if len(sys.argv) > 2 else 0
props = sys.argv[3:] or ["C%02d" % i for i in range(1, 26)]


def jobs():
    for i in range(start, start + n):
        for p in props:
            r = random.Random("%s %d" % (p, i))
            sc = gen.scenario(p, "9:%s:%d" % (p, i))
            ds = []
            for _ in range(r.choice((0, 1, 2, 5, 20))):
                cs = reduce.candidates(sc)
                if not cs:
                    break
                d, sc = r.choice(cs)
                ds.append(d)
            k = r.random()
            q = {"sc": sc, "p": p, "i": i, "ds": ds}
            if k < 0.4:
                q["choices"] = []
            elif k < 0.7:
                q["choices"] = [r.randrange(0, 40) if r.random() < 0.1 else 0 for _ in range(3000)]
            yield q


cnt = [0, 0]


def handle(q, res):
    cnt[0] += 1
    vs = [v for v in res.get("violations", ()) if q["p"] in v["props"]]
    if vs or res.get("error") or res.get("stuck"):
        cnt[1] += 1
        print(q["p"], q["i"], "choices" if "choices" in q else "", q["ds"][:6], vs and (vs[0]["code"], vs[0]["msg"][:300]),
              (res.get("error") or "")[-300:], flush=True)


with pool.Pool(dict({"signalfd": 7, "asyncio": 2}, **dict(x for m in gen.MANAGERS.values() for x in m.items()))) as P:
    P.map(jobs(), handle)
print(cnt)

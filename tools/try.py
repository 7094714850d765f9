"""Development aid: run n scenarios of a property and summarise."""
import collections
import json
import sys
import time
sys.path.insert(0, "/verif")
from sim import gen, pool
prop = sys.argv[1]
n = int(sys.argv[2])
start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
own = collections.OrderedDict()
oth = collections.Counter()
ab = collections.Counter()
errs = []
steps = []
t = time.time()
loop = collections.Counter()


def jobs():
    for i in range(start, start + n):
        yield {"sc": gen.scenario(prop, "1:%s:%d" % (prop, i)), "i": i}


def handle(req, res):
    if res.get("error") or res.get("stuck"):
        errs.append((req["i"], res.get("error", "stuck")))
        return
    steps.append(res["steps"])
    if res["aborted"]:
        ab[res["aborted"].split(":")[0]] += 1
    for v in res["violations"]:
        if prop in v["props"]:
            own.setdefault(v["code"], []).append((req["i"], v["msg"]))
        else:
            oth[(v["code"], ",".join(v["props"]))] += 1
    for e in res["loop_errors"]:
        loop[e[:100]] += 1


with pool.Pool(dict({"signalfd": 7, "asyncio": 2}, **gen.MANAGERS.get(prop, {}))) as P:
    P.map(jobs(), handle)
dt = time.time() - t
print(prop, "%d runs %.1f/s steps avg %d max %d" % (len(steps), len(steps) / dt, sum(steps) / max(1, len(steps)),
                                                  max(steps or [0])), dict(ab))
for c, l in own.items():
    runs = sorted({i for i, m in l})
    print("  OWN %-20s %d runs, e.g. %s\n      %s" % (c, len(runs), runs[:6], l[0][1][:int(sys.argv[4]) if len(sys.argv) > 4
                                                                             else 260]))
print("  other", dict(oth.most_common(12)))
print("  loop", dict(loop.most_common(4)))
for i, e in errs[:2]:
    print("  ERROR", i, e[-600:])
print("  errors:", len(errs))

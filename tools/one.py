"""Development aid: one run with its trace.  one.py PROP INDEX [last n trace lines]"""
import json
import sys
sys.path.insert(0, "/verif")
from sim import gen, pool
prop, i = sys.argv[1], int(sys.argv[2])
n = int(sys.argv[3]) if len(sys.argv) > 3 else 60
sc = gen.scenario(prop, "1:%s:%d" % (prop, i))
print(json.dumps({k: v for k, v in sc.items()}, indent=None)[:6000])
with pool.Pool({sc.get("manager", "signalfd"): 1}) as P:
    r = P.run([{"sc": sc, "trace": True}])[0]
if r.get("error"):
    print(r["error"])
for t in r.get("trace", ())[-n:]:
    print(str(t)[:220])
for v in r.get("violations", ()):
    print(v["props"], v["code"], v["msg"][:500])
print({k: r.get(k) for k in ("steps", "simtime", "aborted", "fired", "probes", "loop_errors", "jobs", "wall")})

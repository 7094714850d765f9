"""Minimising a failing run: a smaller scenario, fewer faults, then a simpler schedule.

Only reductions that leave a scenario's expectations meaningful are made: faults and adversarial settings are taken away,
data shrinks, a trailing part of the session is cut when nothing refers to it.  The violation has to keep its property and
its kind.  What is left of the schedule is then set to "choice 0" (go on with the same task, nothing unusual) as far as it
goes."""
import copy
import time


def same(viol, res):
    for v in res.get("violations") or ():
        if v["code"] == viol["code"] and set(v["props"]) & set(viol["props"]):
            return v
    return None


def candidates(sc):
    """Smaller scenarios, boldest first."""
    cfg = sc.get("cfg", {})
    out = []

    def put(desc, f):
        s = copy.deepcopy(sc)
        if f(s) is not False:
            out.append((desc, s))
    noise = [i for i, f in enumerate(cfg.get("faults", ())) if f.get("name") in ("spurious_chld", "stop_kid", "time_jump")]
    if len(noise) > 1:
        def f(s):
            s["cfg"]["faults"] = [x for i, x in enumerate(s["cfg"]["faults"]) if i not in noise]
        put("no background faults", f)
    for i in noise:
        def f(s, i=i):
            del s["cfg"]["faults"][i]
        put("without fault %d" % i, f)
    for k in ("short_read", "short_write", "pid_reuse"):
        if cfg.get(k):
            put("no " + k, lambda s, k=k: s["cfg"].pop(k))
    for k, v in (("preempt", 0), ("preempt", 1), ("policy", 0), ("slots", 16)):
        if cfg.get(k) not in (v, 0):
            put("%s=%d" % (k, v), lambda s, k=k, v=v: s["cfg"].__setitem__(k, v))
    for l, spec in sc.get("specs", {}).items():
        for i, act in enumerate(spec.get("do", ()) if isinstance(spec.get("do"), list) else ()):
            if isinstance(act, list) and len(act) > 1 and isinstance(act[1], dict) and act[0] in ("out", "err"):
                n = len(act[1].get("lines") or ())
                for a, b in {(0, n // 2), (n // 2, n), (0, n - 1)}:
                    if n and b - a < n:
                        def f(s, l=l, i=i, a=a, b=b):
                            d = s["specs"][l]["do"][i][1]
                            d["lines"] = d["lines"][a:b]
                        put("data of %s" % l, f)
                if n and max(act[1]["lines"]) > 8:
                    def f(s, l=l, i=i):
                        d = s["specs"][l]["do"][i][1]
                        d["lines"] = [x // 2 for x in d["lines"]]
                    put("shorter lines of %s" % l, f)
    if not sc.get("expect") and len(sc["steps"]) > 1:
        plain = [i for i, st in enumerate(sc["steps"]) if "job" in st and not any(
            k in st for k in ("snap",)) and isinstance(st["job"], dict) and st["job"].get("mode") in ("bytes", "str", "list")]
        if len(plain) == len(sc["steps"]):
            for i in plain:
                put("without step %d" % i, lambda s, i=i: s["steps"].pop(i))
    return out


DATA_SAFE = {"data", "lines", "early", "order", "never-ends"}


def minimise(pool, prop, sc, viol, budget, seeds=4):
    """-> (scenario, choices, result) of the smallest failing run found; every run is exact, given scenario and choices."""
    end = time.time() + budget
    best = dict(sc)
    tried = 0
    while time.time() < end:
        cs = candidates(best)
        if not cs:
            break
        reqs = []
        base = str(best["seed"]).split("/")[0]
        for d, s in cs[:40]:
            for j in range(seeds):
                s2 = dict(s)
                s2["seed"] = best["seed"] if j == 0 else "%s/%d" % (base, tried * 10 + j)
                reqs.append({"sc": s2, "desc": d})
        tried += 1
        found = []

        def handle(req, res):
            if same(viol, res):
                found.append((req["n"], req["sc"], req["desc"]))
                return False
        for i, r in enumerate(reqs):
            r["n"] = i
        pool.map(iter(reqs), handle, end)
        if not found:
            break
        best = min(found, key=lambda x: x[0])[1]
    res = pool.run([{"sc": best, "log": True}])[0]
    if not same(viol, res):
        best = sc
        res = pool.run([{"sc": best, "log": True}])[0]
        if not same(viol, res):
            return None
    choices = res["draws"]

    def works(lists):
        """The first of the choice lists that fails in the same way."""
        got = {}

        def handle(req, res):
            if same(viol, res):
                got[req["n"]] = True
        pool.map(iter([{"sc": best, "choices": c, "n": i} for i, c in enumerate(lists)]), handle, end)
        return min(got) if got else None
    # cut the tail
    while time.time() < end and choices:
        n = len(choices)
        cuts = sorted({0, n // 8, n // 4, n // 2, n * 3 // 4, n * 7 // 8, n - 1})
        i = works([choices[:c] for c in cuts if c < n])
        if i is None:
            break
        choices = choices[:[c for c in cuts if c < n][i]]
    while choices and choices[-1] == 0:
        choices.pop()
    size = max(1, len(choices) // 2)
    while time.time() < end and choices and size >= 1:
        spans = [a for a in range(0, len(choices), size) if any(choices[a:a + size])]
        lists = [choices[:a] + [0] * len(choices[a:a + size]) + choices[a + size:] for a in spans]
        done = False
        for b in range(0, len(lists), 8):
            if time.time() > end:
                break
            i = works(lists[b:b + 8])
            if i is not None:
                choices = lists[b + i]
                done = True
                break
        if not done:
            if size == 1:
                break
            size //= 2
    while choices and choices[-1] == 0:
        choices.pop()
    for c in (choices, res["draws"]):
        last = pool.run([{"sc": best, "choices": c, "trace": True}])[0]
        if same(viol, last):
            return best, c, last
    return None

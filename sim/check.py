"""The check of one property: a seeded search over scenarios, schedules and faults.

    check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--seconds S]

Exit 0: the property held in every run.  Exit 1 after "VIOLATION property=<id> replay=<path>".  Anything else is an error
of the check itself."""
import argparse
import collections
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from sim import gen, pool, reduce  # noqa: E402

RUNS = {"quick": 2600, "thorough": 60000}
SECONDS = {"quick": 38, "thorough": 780}
RECHECK = {"quick": 12, "thorough": 60}

REAL = ["pieshell (all of it that runs: pipeline, iterio, redir, signalio, environ, utils), unmodified, from /repo",
        "CPython-library code it uses: asyncio event loop and futures, tempfile, selectors (PyPy's own)",
        "the signalfd package's SIGNALFD constants and structures as pieshell uses them",
        "the forked child's Python code up to exec/_exit (in a really forked interpreter, one system call at a time)"]
STUB = ["the operating system: processes, pids, pipes, files, descriptors, signals, signalfd, epoll, waitpid, clock (sim/kernel.py)",
        "external programs (cat, head, bash -c env, ... as generators of system calls; sim/programs.py)",
        "the terminal and its user (Ctrl-Z/Ctrl-C as simulated signals)"]
ASSUME = ["the simulated kernel behaves as Linux does for the calls pieshell makes",
          "external programs are represented by what they do with system calls",
          "the search samples executions; it does not enumerate them"]


def prepare(repo):
    """pieshell needs files its build generates, ignored by git; make them if they are not there."""
    need = [os.path.join(repo, "pieshell", "version.py"), os.path.join(repo, "pieshell", "README.md")]
    if all(os.path.exists(p) for p in need):
        return
    p = subprocess.run([pool.PYTHON, "setup.py", "-q", "egg_info"], cwd=repo, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if not all(os.path.exists(q) for q in need):
        raise SystemExit("cannot build %s:\n%s" % (repo, p.stdout.decode("utf8", "replace")))


def known(prop):
    """Findings recorded and not repaired: "finding: property=<id> code=<code> match=<regex> | <what fails>"."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) code=(\S+) match=(.*?) \| (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def nontrivial(res):
    return res["steps"] >= 20 and (res["forks"] > 0 or res["fired"])


def shape(sc):
    def sh(x):
        if isinstance(x, dict):
            return {k: sh(v) for k, v in sorted(x.items()) if k not in ("l", "lines", "tag", "at", "for", "t" if not isinstance(
                x.get("t"), str) else "")}
        if isinstance(x, list):
            return [sh(v) for v in x]
        return x if isinstance(x, (str, bool)) else None
    return hashlib.sha1(json.dumps(sh(sc["steps"]), sort_keys=True).encode()).hexdigest()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--fast", action="store_true", help="do not minimise")
    a = ap.parse_args()
    if a.tier not in RUNS:
        a.tier = "quick"
    t0 = time.time()
    prop, seed = a.prop, a.seed
    runs = a.runs or RUNS[a.tier]
    end = t0 + (a.seconds or SECONDS[a.tier])
    prepare(pool.REPO)
    findings = known(prop)
    print("check %s tier=%s seed=%d repo=%s" % (prop, a.tier, seed, pool.REPO), flush=True)

    st = collections.Counter()
    fired, probes, aborted = collections.Counter(), collections.Counter(), collections.Counter()
    others = collections.Counter()
    scheds, shapes, nontriv = set(), set(), set()
    steps = []
    simtime = [0.0]
    suspects, errors, hit = [], [], []
    samples = []
    keep = {}

    def jobs():
        for i in range(runs):
            yield {"sc": gen.scenario(prop, "%d:%s:%d" % (seed, prop, i)), "i": i}

    def handle(req, res):
        if res.get("error") or res.get("stuck"):
            errors.append((req, str(res.get("error", "stuck"))))
            return False if len(errors) > 20 else None
        st["runs"] += 1
        steps.append(res["steps"])
        simtime[0] += res["simtime"]
        for k, v in res["fired"].items():
            fired[k] += v
        for k, v in res["probes"].items():
            probes[k] += v
        if res["aborted"]:
            aborted[res["aborted"].split(":")[0]] += 1
        if nontrivial(res):
            nontriv.add(res["sched"])
        scheds.add(res["sched"])
        shapes.add(shape(req["sc"]))
        if req["i"] % 97 == 0:
            keep[req["i"]] = (req["sc"], res["digest"])
        if len(samples) < 3 and nontrivial(res) and res["fired"]:
            samples.append({"seed": req["sc"]["seed"], "cfg": req["sc"]["cfg"], "steps": json.dumps(req["sc"]["steps"])[:1500],
                            "scheduling_steps": res["steps"], "simulated_seconds": round(res["simtime"], 6),
                            "faults_fired": res["fired"], "outcomes": res["jobs"]})
        for v in res["violations"]:
            if prop not in v["props"]:
                others["%s (%s)" % (v["code"], ",".join(v["props"]))] += 1
                continue
            for code, rx, what in findings:
                if v["code"] == code and rx.search(v["msg"]):
                    hit.append(what)
                    break
            else:
                suspects.append((req, v))
                if len(suspects) >= 3:
                    return False

    ncpu = a.workers or min(8, os.cpu_count() or 8)
    rc = 0
    violation = None
    recheck = 0
    with pool.Pool(dict({"signalfd": max(1, ncpu - 1), "asyncio": 2}, **gen.MANAGERS.get(prop, {}))) as P:
        P.map(jobs(), handle, end)
        retried = 0
        if errors and not suspects:
            again = [(r, P.run([{"sc": r["sc"]}])[0]) for r, _ in errors[:6]]
            bad = [(r, x) for r, x in again if x.get("error") or x.get("stuck")]
            retried = len(again) - len(bad)
            if bad or len(errors) > 6:
                r, x = bad[0] if bad else (errors[0][0], {"error": errors[0][1]})
                print("HARNESS ERROR in run %s: %s" % (r["sc"]["seed"], x.get("error", "stuck")))
                rc = 2
        unconfirmed = []
        suspects.sort(key=lambda x: (len(json.dumps(x[0]["sc"]["steps"])), x[0]["i"]))
        for req, v in suspects:
            again = P.run([{"sc": req["sc"], "log": True}])[0]
            v2 = None if again.get("error") else reduce.same(v, again)
            if v2 is None:
                unconfirmed.append((req["sc"]["seed"], v))
                continue
            got = reduce.minimise(P, prop, req["sc"], v2, 0 if a.fast else 20 if a.tier == "quick" else 90)
            sc, choices, res = got if got else (req["sc"], again["draws"], P.run([{"sc": req["sc"], "choices": again["draws"],
                                                                                "trace": True}])[0])
            v3 = reduce.same(v, res)
            if v3 is None:
                unconfirmed.append((req["sc"]["seed"], v))
                continue
            violation = (req, v3, sc, choices, res)
            break
        if violation is None and not rc:
            if unconfirmed:
                print("HARNESS ERROR: not reproducible: %s %s %s" % (unconfirmed[0][0], unconfirmed[0][1]["code"],
                                                                     unconfirmed[0][1]["msg"][:300]))
                rc = 2
            else:
                sel = [keep[i] for i in sorted(keep)][:RECHECK[a.tier]]
                first = P.run([{"sc": sc, "log": True} for sc, d in sel])
                second = P.run([{"sc": sc, "choices": r.get("draws")} for (sc, d), r in zip(sel, first)])
                for (sc, d), r1, r2 in zip(sel, first, second):
                    recheck += 1
                    if r1.get("digest") != d or r2.get("digest") != d:
                        print("HARNESS ERROR: run %s is not deterministic" % sc["seed"])
                        rc = 2
    if violation is not None:
        req, v, sc, choices, res = violation
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(("%s %s" % (req["sc"]["seed"], v["code"])).encode()
                                                                  ).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": prop, "violation": v, "found_with_seed": req["sc"]["seed"], "scenario": sc,
                       "choices": choices, "choices_nonzero": sum(1 for c in choices if c), "digest": res["digest"],
                       "faults_fired": res["fired"], "scheduling_steps": res["steps"],
                       "replay_with": "/opt/venv/bin/python sim/replay.py " + os.path.relpath(path, VERIF),
                       "trace": [str(t)[:300] for t in res.get("trace", ())][-400:]}, f, indent=1)
        print("seed %s: %s: %s" % (req["sc"]["seed"], v["code"], v["msg"][:1500]))
        print("minimised to %d bytes of scenario, %d scheduling choices that are not the default, %d steps" % (
            len(json.dumps(sc)), sum(1 for c in choices if c), res["steps"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    for what in sorted(set(hit)):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    wall = time.time() - t0
    n = st["runs"]
    if rc == 0 and n < 20:
        print("HARNESS ERROR: only %d runs were made in the time" % n)
        rc = 2
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(nontriv),
            "rule": "A run is one simulated execution of a random scenario (pipelines, data, environments, session of operations) "
                    "of this property's profile under a random schedule and random faults; seed '<VERIF_SEED>:<property>:<n>'. "
                    "It is non-trivial if it made at least 20 scheduling steps and forked a process or had a fault fire; "
                    "runs are distinct if the hash of their sequence of (process, system call) differs.",
            "samples": samples,
            "runs_per_hour": int(n / wall * 3600) if wall else 0,
            "scheduling_steps": sum(steps),
            "longest_run_steps": max(steps or [0]),
            "simulated_seconds": round(simtime[0], 3),
            "faults_fired": dict(sorted(fired.items())),
            "probes_hit": dict(sorted(probes.items())),
            "distinct_interleavings": len(scheds),
            "distinct_scenario_shapes": len(shapes),
            "runs_cut_short": dict(aborted),
            "runs_rechecked_for_determinism": recheck,
            "runs_retried_after_harness_error": retried,
            "observations_of_other_properties": dict(others),
            "components_real": REAL, "components_stub": STUB,
        },
        "assumptions": ASSUME, "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs, %d distinct interleavings, %d steps, %.1f simulated s, %.1f s, exit %d" % (
        prop, n, len(scheds), sum(steps), simtime[0], wall, rc))
    return rc


if __name__ == "__main__":
    sys.exit(main())

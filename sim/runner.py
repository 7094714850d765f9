"""Runs simulated executions: a zygote process per worker with the code under test imported, one fork of it per run."""
import json
import os
import select
import signal
import struct
import sys
import time
import traceback

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent", "PYTHONHASHSEED": "0", "LANG": "C.UTF-8",
    "LC_ALL": "C.UTF-8", "PYPY_GC_NURSERY": "512K", "HOME": "/home/user", "TERM": "dumb",
}
CPU_LIMIT = 60
WALL_LIMIT = 300


def environment(repo):
    e = {k: v for k, v in os.environ.items() if k in ("TMPDIR", "SIM_RAW")}
    e.update(ENV)
    if "SIM_HASHSEED" in os.environ:
        e["PYTHONHASHSEED"] = os.environ["SIM_HASHSEED"]
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin"
    e["PYTHONPATH"] = repo + ":" + os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return e


def stable_ids():
    """id() gives addresses, and pieshell prints some: number the objects instead."""
    import builtins
    real = builtins.id
    seen = {}

    def id(obj):
        a = real(obj)
        e = seen.get(a)
        if e is None:
            e = seen[a] = (4096 + 16 * len(seen), obj)
        return e[0]
    builtins.id = id


def execute(sc, choices=None, trace=False, want_log=False):
    """In a fresh fork of a zygote: one simulated execution and its verdict."""
    import gc
    from . import world, judge, seams, kernel
    gc.disable()
    stable_ids()
    ch = kernel.Choices(sc["seed"], choices)
    w = world.World(sc, ch, trace)

    def tick(sig, frame):
        if w.k.abort is None:
            w.k.abort = kernel.SimLimit("the shell computes for ever")
        raise w.k.abort
    signal.signal(signal.SIGPROF, tick)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 2)
    try:
        w.drive()
    finally:
        world.leave()
        signal.setitimer(signal.ITIMER_PROF, 0, 0)
        for p in seams.CTX.kids:
            try:
                os.kill(p, 9)
            except OSError:
                pass
    res = judge.judge(w)
    k = w.k
    res.update({
        "steps": k.step, "simtime": k.now - k.start, "fired": k.fired, "probes": k.probes, "sched": k.sched_digest,
        "digest": k.digest, "ndraws": len(ch.log), "forks": k.forks, "execs": len(k.insts),
        "aborted": None if w.aborted is None else "%s: %s" % (type(w.aborted).__name__, str(w.aborted)[:300]),
        "jobs": [[j.mode, None if j.exc is None else type(j.exc).__name__] for j in w.jobs],
        "loop_errors": w.loop_errors[:5],
        "draws": ch.log if want_log else None})
    if trace:
        res["trace"] = k.trace
    return res


def zygote(manager):
    from . import world
    import gc
    world.boot(manager)
    gc.collect()
    gc.freeze() if hasattr(gc, "freeze") else None


def warm():
    """Lets the tracing compiler see the common paths, in this process, before it is forked for every run."""
    from . import world, kernel, judge
    sc = {"seed": 1, "cfg": {"preempt": 2, "limit": 200000}, "prof": {},
          "specs": {"a": {"do": [["out", {"lines": [20] * 120, "tag": "w"}, 33, 0], ["err", {"lit": "e"}]]},
                    "b": {"do": [["cat", 50, 0, "swap"]]}, "f": {"fn": "map", "swap": True}},
          "steps": [{"job": {"mode": m, "p": {"t": "pipe", "a": {"t": "pipe", "a": {"t": "prog", "l": "a"},
                                                              "b": {"t": "fn", "l": "f"}},
                                               "b": {"t": "prog", "l": "b"}}}} for m in ("list", "bytes") * 3]}
    w = world.World(sc)
    w.drive()
    judge.judge(w)


def worker_main(manager, dowarm):
    inp = os.fdopen(os.dup(0), "rb")
    out = os.dup(1)
    os.dup2(2, 1)
    nul = os.open("/dev/null", os.O_RDWR)
    os.dup2(nul, 0)
    zygote(manager)
    if dowarm:
        warm()
    _w(out, {"ready": True})
    while True:
        line = inp.readline()
        if not line:
            return
        req = json.loads(line)
        res = one(req)
        res["id"] = req["id"]
        _w(out, res)


def _w(fd, obj):
    data = json.dumps(obj).encode() + b"\n"
    while data:
        n = os.write(fd, data)
        data = data[n:]


def one(req):
    r, w = os.pipe()
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setsid()
            os.close(r)
            try:
                res = execute(req["sc"], req.get("choices"), req.get("trace", False), req.get("log", False))
            except BaseException as e:
                from . import world
                world.leave()
                res = {"error": "harness: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
            _w(w, res)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    end = t0 + WALL_LIMIT
    timeout = False
    while True:
        left = end - time.time()
        if left <= 0:
            timeout = True
            break
        rs, _, _ = select.select([r], [], [], left)
        if not rs:
            continue
        part = os.read(r, 1 << 20)
        if not part:
            break
        data += part
        if data.endswith(b"\n"):
            break
    try:
        os.killpg(pid, 9)
    except OSError:
        pass
    try:
        os.kill(pid, 9)
    except OSError:
        pass
    os.waitpid(pid, 0)
    os.close(r)
    if timeout:
        res = {"stuck": True}
    else:
        try:
            res = json.loads(data)
        except ValueError:
            res = {"error": "a run vanished without a result: %r" % data[:200]}
    res["wall"] = time.time() - t0
    return res


if __name__ == "__main__":
    worker_main(sys.argv[1], len(sys.argv) > 2)

"""A pool of worker processes, driven from one thread."""
import json
import os
import select
import subprocess
import sys
import time

from . import runner

PYTHON = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")


class WorkerDied(Exception):
    pass


class Worker(object):
    def __init__(self, manager, warm=False):
        self.manager = manager
        self.p = subprocess.Popen([PYTHON, "--jit", "off", "-m", "sim.runner", manager] + (["warm"] if warm else []), cwd=VERIF,
                                  env=runner.environment(REPO), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  start_new_session=True)
        self.buf = b""
        self.busy = None
        self.ready = False

    def fileno(self):
        return self.p.stdout.fileno()

    def send(self, req):
        self.busy = req
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()

    def read(self):
        part = os.read(self.fileno(), 1 << 20)
        if not part:
            raise WorkerDied("worker process ended with status %s" % self.p.wait())
        self.buf += part
        out = []
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            out.append(json.loads(line))
        return out

    def stop(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


class Pool(object):
    def __init__(self, counts, warm=False):
        self.workers = [Worker(m, warm) for m, n in counts.items() for _ in range(n)]
        self.n = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for w in self.workers:
            w.stop()

    def map(self, jobs, handle, deadline=None):
        """jobs: iterator of requests with sc.  handle(req, res) -> False to stop.  Order of results is arbitrary."""
        jobs = iter(jobs)
        queue = []      # requests drawn but waiting for a worker of their manager
        over = False
        stop = False
        while True:
            if deadline is not None and time.time() > deadline:
                over = True
                queue = []
            for w in self.workers:
                if w.busy is not None or not w.ready or stop:
                    continue
                for i, q in enumerate(queue):
                    if q["sc"].get("manager", "signalfd") == w.manager:
                        w.send(queue.pop(i))
                        break
                while w.busy is None and not over and len(queue) < 400:
                    try:
                        q = next(jobs)
                    except StopIteration:
                        over = True
                        break
                    self.n += 1
                    q["id"] = self.n
                    if q["sc"].get("manager", "signalfd") == w.manager:
                        w.send(q)
                    else:
                        queue.append(q)
            waiting = [w for w in self.workers if w.busy is not None or not w.ready]
            if stop or (over and not queue):
                waiting = [w for w in self.workers if w.busy is not None]
                if not waiting:
                    return
            if not waiting:
                if queue:
                    raise WorkerDied("no worker for %r" % queue[0]["sc"].get("manager"))
                if over:
                    return
                continue
            rs, _, _ = select.select(waiting, [], [], 1.0)
            for w in rs:
                for res in w.read():
                    if res.get("ready"):
                        w.ready = True
                        continue
                    req, w.busy = w.busy, None
                    if handle(req, res) is False:
                        stop = True

    def run(self, reqs):
        """All of them; results in order."""
        out = {}
        reqs = list(reqs)
        for i, r in enumerate(reqs):
            r["n"] = i

        def h(req, res):
            out[req["n"]] = res
        self.map(reqs, h)
        return [out[i] for i in range(len(reqs))]

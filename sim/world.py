"""One simulated execution: a scenario (plain JSON data) is set up in a fresh simulated system, the real code of the
shell is driven through its public interface, and everything observable is recorded for the oracles."""
import asyncio
import base64
import builtins
import contextvars
import gc
import marshal
import os
import pathlib
import pickle
import random
import shlex
import signal
import socket
import sys
import time
import traceback
import types

from . import kernel as K
from . import programs
from . import seams
from .kernel import KErr, SimAbort, SimHang, SimLimit, SimUnsupported
from .plan import Plan
from .programs import gen_data
from .seams import CTX


class UserError(Exception):
    """Raised by Python stages of the scenario."""


class UserStop(BaseException):
    """Nor is every error an Exception."""


def user_error(spec, label):
    """How a Python stage of the scenario fails: what it awaited can have been cancelled, too."""
    return {"cancel": asyncio.CancelledError, "base": UserStop}.get(spec.get("exc"), UserError)("stage %s" % label)


class Odd(object):
    """Can not be shown."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        raise {"value": ValueError, "recursion": RecursionError}[self.exc]("odd")


class Obj(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


JOB = contextvars.ContextVar("job", default=None)     # the job on whose behalf code of the shell runs
BOOT = {}
KEEP = []       # nothing of one simulated system may be finalised while another one is on


def boot(manager):
    """Imports the code under test inside a simulated system, once per process."""
    os.environ.clear()
    os.environ.update({"PATH": "/bin", "HOME": "/home/user", "LANG": "C.UTF-8", "USER": "user", "BASEVAR": "base"})
    import psutil  # noqa
    import importlib.metadata  # noqa
    import pkg_resources  # noqa
    import slugify  # noqa
    import readline  # noqa
    import glob, pathlib, logging, tokenize, linecache, code, uuid, shlex, pickle, enum, typing  # noqa
    import encodings.idna  # noqa
    seams.install()
    manager, _, wide = manager.partition("+")
    if manager == "signalfd":
        seams.install_signalfd()
    else:
        sys.modules["signalfd"] = None
    # (how many descriptors the system allows is looked up when the code is loaded)
    k = K.Kernel(K.Choices(0), {"preempt": 0, "limit": 10 ** 9, "nofile": int(wide or 128)})
    k.root.cwd = "/work"
    tty = k.new_ofd("tty", k.tty, K.O_RDWR, "/dev/tty")
    for fd in (0, 1, 2):
        k.root.fds[fd] = K.Fd(tty, False)
        k.ref(tty)
    enter(k)
    KEEP.append(k)
    loop = seams.SimEventLoop()
    KEEP.append(loop)
    asyncio.set_event_loop(loop)
    try:
        import pieshell
        import pieshell.pipeline.builtins
    finally:
        leave()
    BOOT["fds"] = [(fd, e.cloexec) for fd, e in sorted(k.root.fds.items()) if e.ofd is tty and fd > 2]
    BOOT["handlers"] = {}
    BOOT["manager"] = manager
    BOOT["pieshell"] = pieshell
    return pieshell


def enter(k, world=None):
    CTX.k = k
    CTX.pid = k.root.pid
    CTX.handlers = {}
    CTX.kids = []
    CTX.temp_n = 0
    CTX.world = world
    CTX.nofile = k.nofile
    k.world = world
    k.exec_stub = programs.exec_stub
    CTX.role = "root"
    CTX.stdio = seams.make_stdio()


def leave():
    CTX.role = "off"


class Guard(object):
    """Around every call into the code under test: a forked child must never come back out of it."""

    def __init__(self, world, where):
        self.world = world
        self.where = where

    def __enter__(self):
        self.pid = CTX.pid
        return self

    def __exit__(self, typ, val, tb):
        if CTX.pid != self.pid:
            escaped(self.where, typ, val)
        return False


def escaped(where, typ, val):
    code = 1
    if typ is None:
        what = "returned"
        code = 0
    else:
        what = "raised %s" % typ.__name__
        if typ is SystemExit:
            code = val.code if isinstance(val.code, int) else (0 if val.code is None else 1)
    try:
        seams.remote_call("@rec", ("escape", where, what, str(val)[:300]))
        seams.s__exit(code & 0xff)
    finally:
        seams._real_exit(0)


class Job(object):
    def __init__(self, n, spec):
        self.n = n
        self.spec = spec
        self.mode = spec["mode"]
        self.run = None           # RunningPipeline
        self.pipe = None
        self.start = None
        self.started = False
        self.end = None
        self.out = None           # bytes / str / list obtained
        self.items = None         # [(kind, label, pid, serial)]
        self.exc = None
        self.waits = []           # outcomes of waits
        self.done = False
        self.info = {}


class Lines(object):
    """The lines of a Python stage's input; that they cannot be had, as they are no text or as the disk is broken, is
    the end of the stage."""

    def __init__(self, w, rid, stdin):
        self.w = w
        self.rid = rid
        self.stdin = stdin

    def __aiter__(self):
        self.it = self.stdin.__aiter__()
        return self

    async def __anext__(self):
        try:
            return await self.it.__anext__()
        except (UnicodeDecodeError, OSError) as e:
            self.w.rec("fn", self.rid, "raise", type(e).__name__)
            raise


class World(object):
    def __init__(self, sc, choices=None, trace=False):
        self.sc = sc
        cfg = dict(sc.get("cfg", {}))
        cfg["trace"] = trace
        if trace:
            cfg["trace"] = True
        self.ch = choices or K.Choices(sc["seed"])
        self.k = K.Kernel(self.ch, cfg)
        self.loop_errors = []
        self.fn_rec = []          # function stage records
        self.exts = {}            # ends of pipes handed to the caller
        self.escapes = []
        self.unsupported = []
        self.forks = []           # (step, pid, serial, parent serial)
        self.jobs = []
        self.pipes = {}
        self.fnmap = {}           # id of function/iterable -> label
        self.keep = []
        self.log = []             # what the driver did and saw
        self.envs = []
        self.fd_before = None
        self.aborted = None
        self.crash = None
        self.pieshell = BOOT["pieshell"]
        self.loop = None
        self.stuck = []
        self.obs = {}

    # ------------------------------------------------------------------ set-up
    def setup(self):
        k = self.k
        sc = self.sc
        k.root.cwd = sc.get("cwd", "/work")
        for path, spec in sc.get("files", {}).items():
            if spec.get("dir"):
                k.fs[path] = k._inode("dir", spec.get("mode", 0o755))
            else:
                k.add_file(path, gen_data(spec.get("data", {"lit": ""})), spec.get("mode", 0o644))
        for name in ("prog", "ssh", "bash"):
            k.add_file("/bin/" + name, b"", 0o755, "prog" if name == "prog" else name)
        for path, spec in sc.get("bins", {}).items():
            k.add_file(path, b"", spec.get("mode", 0o755), spec.get("prog"))
        k.programs = dict(sc.get("specs", {}))
        self.tty = k.new_ofd("tty", k.tty, K.O_RDWR, "/dev/tty")
        std = [self.tty] * 3
        for fd, spec in sc.get("stdio", {}).items():
            fd = int(fd)
            if "file" in spec:
                node = k.fs.get(spec["file"]) or k.add_file(spec["file"])
                std[fd] = k.new_ofd("file", node, spec.get("flags", K.O_RDWR), spec["file"])
            elif spec.get("closed") is True:
                std[fd] = None
        for fd in (0, 1, 2):
            if std[fd] is not None:
                k.root.fds[fd] = K.Fd(std[fd], False)
                k.ref(std[fd])
        for fd, cloexec in BOOT["fds"]:
            k.root.fds[fd] = K.Fd(std[1] or self.tty, cloexec)
            k.ref(k.root.fds[fd].ofd)
        self.user_fds = []
        for spec in sc.get("user_fds", ()):
            if spec.get("pipe"):
                a, b = k.o_pipe(k.root, spec.get("cloexec", True))
                self.user_fds += [a, b]
            elif spec.get("file"):
                self.user_fds.append(k.o_open(k.root, spec["file"], K.O_WRONLY | K.O_CREAT | K.O_CLOEXEC, 0o777))
            else:
                for _ in range(spec.get("count", 1)):
                    self.user_fds.append(k.o_open(k.root, "/dev/null", K.O_RDWR | (
                        K.O_CLOEXEC if spec.get("cloexec", True) else 0)))
            if "at" in spec:
                k.root.fds[spec["at"]] = k.root.fds.pop(self.user_fds[-1])
                self.user_fds[-1] = spec["at"]
        if sc.get("sub"):
            for i in range(sc["sub"]):
                a, b = socket.socketpair()
                CTX.pool.append((a, b))
                k.chan_pool.append((i, seams.Chan(a)))
        orig_spawn = k.spawn

        def spawn(parent, kind):
            c = orig_spawn(parent, kind)
            if parent is k.root:
                c.job = JOB.get()
            self.forks.append((k.step, c.pid, c.serial, parent.serial, c))
            return c
        k.spawn = spawn
        random.seed(sc["seed"])

    def start(self):
        KEEP.append(self)
        enter(self.k, self)
        self.loop = asyncio.new_event_loop()
        asyncio.set_event_loop(self.loop)
        self.pieshell.initialize()
        P = self.pieshell
        for e in self.sc.get("envs", [{}]):
            kw = {}
            if "cwd" in e:
                kw["cwd"] = e["cwd"]
            exp = dict(e.get("exports", {"PATH": "/bin", "HOME": "/home/user"}))
            if e.get("how") == "arg":
                kw["redirects"] = P.Redirects(P.Redirect(0, 0, borrowed=True), P.Redirect(1, 1, borrowed=True),
                                              P.Redirect(2, P.STRING), *[self.redirect(r) for r in e.get("redirs", ())])
            if e.get("how") == "orig":
                self.envs.append(self.spare)
                continue
            env = P.Environment(exports=exp, interactive=e.get("interactive", False), **kw)
            if e.get("how") == "copy":
                # defaults set for the copy are not the original's
                self.spare, env = env, env()
            if e.get("how") != "arg":
                for r in e.get("redirs", ()):
                    try:
                        if r.get("style") == "str":
                            r["to"] | env if r["fd"] in ("stdin", 0) else env | r["to"]
                        else:
                            env | self.redirect(r)
                    except Exception as x:
                        self.obs.setdefault("env_error", []).append(repr(x))
            self.envs.append(env)
        for fd, spec in self.sc.get("stdio", {}).items():
            if spec.get("closed") == "late":
                self.k.o_close(self.k.root, int(fd))

    # ------------------------------------------------------------------ records
    def rec(self, *what):
        """A fact observed by scenario code, possibly inside a forked child."""
        if CTX.role == "remote":
            seams.remote_call("@rec", what)
        else:
            self.take_rec(None, what)

    def remote_rec(self, q, what):
        self.take_rec(q, what)

    def take_rec(self, q, what):
        self.k.note("rec" if q is None else q.serial, what[0], what[1:])
        if what[0] == "escape":
            self.escapes.append((self.k.step, q.serial, q.label) + tuple(what[1:]))
        elif what[0] == "unsupported":
            self.k.abort = SimUnsupported(what[1])
        elif what[0] == "fn":
            rid, ev = what[1], what[2]
            while len(self.fn_rec) <= rid:
                self.fn_rec.append(None)
            r = self.fn_rec[rid]
            if ev == "start":
                self.fn_rec[rid] = {"label": what[3], "job": what[4], "lines": [], "items": 0, "end": None, "raised": None,
                                    "start": self.k.step, "after": 0, "pid": q.serial if q is not None else 0, "id": rid}
            elif ev == "line":
                r["lines"].append(what[3])
            elif ev == "item":
                r["items"] += 1
                if r["end"] is not None:
                    r["after"] += 1
            elif ev == "end":
                if r["end"] is not None:
                    r["after"] += 1
                else:
                    r["end"] = self.k.step
            elif ev == "raise":
                r["end"] = self.k.step
                r["raised"] = what[3]
        else:
            self.log.append((self.k.step,) + tuple(what))

    def remote_shell(self, argv):
        """What ssh and the pieshell at its other end do: the last argument is a command line for the shell there."""
        code = 1
        try:
            asyncio.set_event_loop(asyncio.new_event_loop())
            os.chdir("/home/user")
            words = shlex.split(argv[-1].decode("utf-8"))
            kws = dict(w[2:].partition("=")[::2] for w in words[1:] if w.startswith("--"))
            if words[0] != "pieshell" or "pcmd" not in kws:
                raise ValueError("not a command of pieshell: %r" % (argv,))
            signal.signal(signal.SIGINT, signal.default_int_handler)
            self.pieshell.initialize()
            cmd = pickle.loads(base64.b64decode(kws["pcmd"].encode("ascii")))
            cmd.run_interactive()
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException as e:
            try:
                os.write(2, ("%s: %s\n" % (type(e).__name__, e)).encode("utf-8", "replace")[:2000])
            except OSError:
                pass
            if isinstance(e, KeyboardInterrupt):
                code = 130
        finally:
            try:
                seams.s__exit(code & 0xff)
            finally:
                seams._real_exit(0)

    # ------------------------------------------------------------------ Python stages
    def new_rid(self, label):
        if CTX.role == "remote":
            self.rids = getattr(self, "rids", 0) + 1
            rid = 1000 + (CTX.pid % 1000) * 50 + self.rids
        else:
            rid = len(self.fn_rec)
        self.rec("fn", rid, "start", label, JOB.get())
        return rid

    def item(self, it):
        t = it[0]
        if t == "s":
            return it[1]
        if t == "b":
            return it[1].encode("latin1")
        if t == "i":
            return it[1]
        if t == "n":
            return None
        if t == "o":
            return Obj(it[1])
        if t == "big":
            return gen_data({"lines": [it[1]], "tag": it[2], "nl": False, "enc": it[3] if len(it) > 3 else "ascii"})
        if t == "bigs":
            return gen_data({"lines": [it[1]], "tag": it[2], "nl": False,
                             "enc": it[3] if len(it) > 3 else "utf8"}).decode("utf-8")
        if t == "f":
            return float(it[1])
        if t == "c":
            async def co():
                if len(it) > 2 and it[2]:
                    await asyncio.sleep(it[2])
                return it[1]
            return co()
        raise ValueError(t)

    def items(self, spec):
        """The items, endlessly repeated with a counter if 'inf'."""
        for it in spec.get("items", ()):
            yield self.item(it)
        if spec.get("inf"):
            n = 0
            while True:
                yield "inf%d%s" % (n, "z" * spec.get("inflen", 20))
                n += 1

    def make_fn(self, label):
        spec = self.sc["specs"][label]
        kind = spec["fn"]
        w = self
        slp = spec.get("sleep", 0)

        def conv(line):
            if spec.get("swap"):
                line = line.swapcase()
            if spec.get("type") == "bytes":
                return line.encode("utf-8")
            return line

        def bad(rid):
            w.rec("fn", rid, "raise", "UserError")
            raise user_error(spec, label)

        def work(rid):
            """What does not give way to anything else meanwhile."""
            if spec.get("work"):
                try:
                    time.sleep(spec["work"])
                except KeyboardInterrupt:
                    w.rec("fn", rid, "raise", "KeyboardInterrupt")
                    raise

        if kind == "map":
            async def fn(stdin, *a, **kw):
                rid = w.new_rid(label)
                n = 0
                async for line in Lines(w, rid, stdin):
                    w.rec("fn", rid, "line", line)
                    work(rid)
                    if spec.get("raise_at") == n:
                        bad(rid)
                    n += 1
                    if slp:
                        await asyncio.sleep(slp)
                    if spec.get("nones") and n % 2:
                        yield None
                    yield conv(line)
                    w.rec("fn", rid, "item")
                if spec.get("raise_at") == -1:
                    bad(rid)
                w.rec("fn", rid, "end")
        elif kind == "collect":
            async def fn(stdin, *a, **kw):
                rid = w.new_rid(label)
                ls = []
                async for line in Lines(w, rid, stdin):
                    w.rec("fn", rid, "line", line)
                    ls.append(line)
                    if slp:
                        await asyncio.sleep(slp)
                for line in ls:
                    w.rec("fn", rid, "item")
                    yield conv(line)
                w.rec("fn", rid, "end")
        elif kind == "headn":
            async def fn(stdin, *a, **kw):
                rid = w.new_rid(label)
                n = 0
                if spec["n"]:
                    async for line in Lines(w, rid, stdin):
                        w.rec("fn", rid, "line", line)
                        if slp:
                            await asyncio.sleep(slp)
                        yield conv(line)
                        n += 1
                        if n >= spec["n"]:
                            break
                w.rec("fn", rid, "end")
        elif kind == "ignore":
            async def fn(stdin, *a, **kw):
                rid = w.new_rid(label)
                n = 0
                for it in w.items(spec):
                    if spec.get("raise_at") == n:
                        bad(rid)
                    n += 1
                    work(rid)
                    if slp:
                        await asyncio.sleep(slp)
                    if isinstance(it, types.CoroutineType):
                        it = await it
                    w.rec("fn", rid, "item")
                    yield it
                w.rec("fn", rid, "end")
        elif kind == "gen":
            def fn(stdin, *a, **kw):
                rid = w.new_rid(label)
                n = 0
                for it in w.items(spec):
                    if spec.get("raise_at") == n:
                        bad(rid)
                    n += 1
                    work(rid)
                    w.rec("fn", rid, "item")
                    yield it
                if spec.get("raise_at") == -1:
                    bad(rid)
                w.rec("fn", rid, "end")
        elif kind in ("aiterobj", "aiterable"):
            class AI(object):
                def __init__(self, rid):
                    self.rid = rid
                    self.it = w.items(spec)
                    self.over = False

                def __aiter__(self):
                    return self

                async def __anext__(self):
                    if self.over:
                        w.rec("fn", self.rid, "item")
                    if slp:
                        await asyncio.sleep(slp)
                    for it in self.it:
                        if isinstance(it, types.CoroutineType):
                            it = await it
                        w.rec("fn", self.rid, "item")
                        return it
                    self.over = True
                    w.rec("fn", self.rid, "end")
                    raise StopAsyncIteration

            class AO(object):
                """Not an iterator itself."""
                def __init__(self, rid):
                    self.rid = rid

                def __aiter__(self):
                    return AI(self.rid)

            def fn(stdin, *a, **kw):
                return (AI if kind == "aiterobj" else AO)(w.new_rid(label))
        elif kind == "list":
            def fn(stdin, *a, **kw):
                rid = w.new_rid(label)
                res = list(w.items(spec))
                w.rec("fn", rid, "end")
                return res
        elif kind == "sink":
            async def fn(stdin, *a, **kw):
                rid = w.new_rid(label)
                n = 0
                async for line in Lines(w, rid, stdin):
                    w.rec("fn", rid, "line", line)
                    if slp:
                        await asyncio.sleep(slp)
                    if spec.get("raise_at") == n:
                        bad(rid)
                    n += 1
                if spec.get("raise_at") == -1:
                    bad(rid)
                w.rec("fn", rid, "end")
                return "count%d" % n
        elif kind == "quiet":
            async def fn(stdin, *a, **kw):
                rid = w.new_rid(label)
                async for line in Lines(w, rid, stdin):
                    w.rec("fn", rid, "line", line)
                    if slp:
                        await asyncio.sleep(slp)
                w.rec("fn", rid, "end")
                return None
        elif kind == "coro":
            async def fn(stdin, *a, **kw):
                rid = w.new_rid(label)
                if slp:
                    await asyncio.sleep(slp)
                if spec.get("raise_at") is not None:
                    bad(rid)
                v = w.item(spec["items"][0])
                w.rec("fn", rid, "end")
                return v
        elif kind == "ret":
            def fn(stdin, *a, **kw):
                rid = w.new_rid(label)
                v = w.item(spec["items"][0])
                w.rec("fn", rid, "end")
                return v
        else:
            raise ValueError(kind)
        fn.__name__ = "fn_" + label
        fn.__qualname__ = "fn_" + label
        if spec.get("method"):
            fn.__name__ = "fn_" + label

            class Holder(object):
                pass
            h = Holder()
            raw = fn
            if kind in ("map", "collect", "headn", "ignore"):
                def m(self, stdin):
                    return raw(stdin)
            else:
                def m(self, stdin):
                    return raw(stdin)
            m.__name__ = "fn_" + label
            fn = types.MethodType(m, h)
        self.keep.append(fn)
        self.fnmap[id(fn)] = label
        return fn

    def with_args(self, fn, label, env):
        """The stage of a function that gets more arguments than its input."""
        want = (("x", 7, ["a", ("b",)]), {"key": {"k": [1]}, "none": None})

        def outer(stdin, *a, **kw):
            if (a, kw) != want:
                rid = self.new_rid(label)
                self.rec("fn", rid, "raise", "arguments")
                raise UserError("arguments of %s are %r %r" % (label, a, kw))
            return fn(stdin)
        self.keep.append(outer)
        self.fnmap[id(outer)] = label
        return self.pieshell.pipeline.function.Function(env, outer, "x", 7, ["a", ("b",)], key={"k": [1]}, none=None)

    def make_iter(self, label):
        spec = self.sc["specs"][label]
        kind = spec["it"]
        w = self

        if kind == "list":
            r = [self.item(i) for i in spec["items"]]
        elif kind == "tuple":
            r = tuple(self.item(i) for i in spec["items"])
        elif kind == "gen":
            def g():
                rid = w.new_rid(label)
                n = 0
                for it in w.items(spec):
                    if spec.get("raise_at") == n:
                        w.rec("fn", rid, "raise", "UserError")
                        raise user_error(spec, label)
                    n += 1
                    w.rec("fn", rid, "item")
                    yield it
                if spec.get("raise_at") == -1:
                    w.rec("fn", rid, "raise", "UserError")
                    raise user_error(spec, label)
                w.rec("fn", rid, "end")
            r = g()
        elif kind == "iter":
            class It(object):
                def __init__(self):
                    self.src = w.items(spec)
                    self.rid = None
                    self.over = False

                def __iter__(self):
                    return self

                def __next__(self):
                    if self.rid is None:
                        self.rid = w.new_rid(label)
                    if self.over:
                        w.rec("fn", self.rid, "item")
                    for it in self.src:
                        w.rec("fn", self.rid, "item")
                        return it
                    self.over = True
                    w.rec("fn", self.rid, "end")
                    raise StopIteration
            r = It()
        elif kind == "iterable":
            class Itb(object):
                def __iter__(self):
                    return iter([w.item(i) for i in spec["items"]])
            r = Itb()
        else:
            raise ValueError(kind)
        self.keep.append(r)
        self.fnmap[id(r)] = label
        return r

    # ------------------------------------------------------------------ building pipelines
    def redirect(self, node):
        P = self.pieshell
        to = node["to"]
        kw = {}
        if "flag" in node:
            kw["flag"] = node["flag"]
        if "mode" in node:
            kw["mode"] = node["mode"]
        if to == "STRING":
            to = P.STRING
        elif to == "PIPE":
            to = P.PIPE
        elif to == "TMP":
            to = P.TMP
        elif isinstance(to, str) and to.startswith("@"):
            to = self.user_fds[int(to[1:])]
        return P.Redirect(node["fd"], to, **kw)

    def build(self, a, env=None):
        t = a["t"]
        if "env" in a:
            env = self.envs[a["env"]]
        if env is None:
            env = self.envs[0]
        if t == "prog":
            args = []
            kw = {}
            for x in a.get("args", ())[-a["der"]["n"]:] if "der" in a else a.get("args", ()):
                if isinstance(x, str):
                    args.append(x)
                elif "opt" in x:
                    kw[x["opt"]] = self.build(x["p"], env) if "p" in x else x["v"]
                elif "dict" in x:
                    args.append(dict(x["dict"]))
                elif "glob" in x:
                    args.append(x["glob"])
                elif "raw" in x:
                    args.append(self.pieshell.R(x["raw"]))
                elif "bad" in x:
                    args.append({"nul": "a\0b", "none": None, "int": 5}[x["bad"]])
                else:
                    args.append(self.build(x["p"], env))
            if "der" in a:
                # made from another command
                cmd = self.build({"t": "ref", "id": a["der"]["id"]}, env)
                if a["der"].get("attr"):
                    for x in args:
                        cmd = getattr(cmd, x)
                else:
                    cmd = cmd(*args, **kw)
            elif a.get("bin"):
                cmd = getattr(env, "_")(a["bin"], *args, **kw) if "/" in a["bin"] else getattr(env, a["bin"])(*args, **kw)
            else:
                cmd = env.prog(a["l"], *args, **kw)
            if "redirs" in a:
                for r in a["redirs"]:
                    cmd = cmd | self.redirect(r)
            return cmd
        if t == "fn":
            if self.sc["specs"][a["l"]].get("fargs"):
                return self.with_args(self.make_fn(a["l"]), a["l"], env)
            return self.make_fn(a["l"])
        if t == "it":
            return self.make_iter(a["l"])
        if t == "ref":
            key = a["id"]
            if key not in self.pipes:
                self.pipes[key] = self.build(self.sc["shared"][key], env)
            return self.pipes[key]
        if t == "pipe":
            x, y = self.build(a["a"], env), self.build(a["b"], env)
            if not isinstance(x, self.pieshell.pipeline.base.Pipeline) and not isinstance(
                    y, self.pieshell.pipeline.base.Pipeline):
                x = self.wrap_fn(x, env)
            return x | y
        if t == "grp":
            x, y = self.build(a["a"], env), self.build(a["b"], env)
            Pipeline = self.pieshell.pipeline.base.Pipeline
            return (x if isinstance(x, Pipeline) else self.wrap_fn(x, env)) + (
                y if isinstance(y, Pipeline) else self.wrap_fn(y, env))
        if t == "red":
            p = self.build(a["p"], env)
            if not isinstance(p, self.pieshell.pipeline.base.Pipeline):
                p = self.wrap_fn(p, env)
            style = a.get("style", "redirect")
            to = a["to"]
            if a.get("as") == "bytes":
                to = to.encode("utf-8")
            elif a.get("as") == "path":
                to = pathlib.PurePosixPath(to)
            if style == "str":
                if a["fd"] in ("stdin", 0):
                    return to | p
                return p | to
            if style == "and":
                return p & to
            if style == "cmp":
                if a["fd"] in ("stdin", 0):
                    return p < to
                return p > to
            if a["fd"] in ("stdin", 0) and style == "ror":
                return self.redirect(a) | p
            return p | self.redirect(a)
        if t == "sub":
            return env.subshell(self.build(a["p"], env))
        if t == "remote":
            return env.remote(*(a.get("opts", ["host"]) + [self.build(a["p"], env)]))
        if t == "cd":
            return env.cd(a["path"])
        if t == "bashsource":
            return env.bashsource(*[self.pieshell.R(x["raw"]) if isinstance(x, dict) else x for x in a["paths"]])
        if t == "bg":
            return env.bg(*([self.jobs[a["job"]].run] if "job" in a else []))
        if t == "fg":
            return env.fg(*([self.jobs[a["job"]].run] if "job" in a else []))
        raise ValueError(t)

    def wrap_fn(self, x, env):
        return self.pieshell.pipeline.function.Function(env, x)

    # ------------------------------------------------------------------ observation
    def root_fds(self):
        return {fd: (e.ofd.describe(), id(e.ofd)) for fd, e in self.k.root.fds.items()}

    def serial_of(self, job, pid):
        best = None
        for c in self.procs_of(job):      # (a pid may have been in use more than once)
            if c.pid == pid:
                best = c
        return best

    def capture(self, job, run):
        """Which processes and functions a running pipeline consists of."""
        R = self.pieshell.pipeline.running
        if not isinstance(run, R.RunningPipeline):
            return
        job.run = run
        job.items = []
        for it in run.processes:
            if isinstance(it, R.RunningProcess):
                c = self.serial_of(job, it.pid)
                job.items.append({"kind": "proc", "pid": it.pid, "c": c, "it": it})
            elif isinstance(it, R.RunningFunction):
                f = it.cmd.__dict__.get("function")
                job.items.append({"kind": "fn", "label": self.fnmap.get(id(f)), "it": it})
            else:
                job.items.append({"kind": "other", "it": it})

    def procs_of(self, job):
        """The children the shell itself forked on behalf of the job."""
        return [c for st, pid, serial, parent, c in self.forks if parent == self.k.root.serial and c.job == job.n]

    def alive(self, job):
        """Parts of the job that have not ended, by the kernel's and the scenario's own account."""
        out = []
        for c in self.procs_of(job):
            if c.state not in ("zombie", "dead"):
                out.append("%s#%d:%s" % (c.label, c.serial, c.state))
        for r in self.fn_rec:
            if r and r["pid"] == 0 and r["job"] == job.n and r["end"] is None and not self.k.root_werr:
                # (a Python stage whose output pipe broke is over without having ended by itself)
                out.append("fn %s" % r["label"])
        return out

    def verdict(self, job, exc):
        """What a wait said, compared by the oracles with what was true at that moment."""
        R = self.pieshell.pipeline.running
        v = {"step": self.k.step, "now": self.k.now, "exc": None if exc is None else type(exc).__name__,
             "msg": None if exc is None else str(exc.args)[:200] if not isinstance(exc, R.PipelineError) else "",
             "alive": self.alive(job) if job.items is not None else None}
        if isinstance(exc, R.PipelineError):
            run = exc.pipeline
            if job.items is None:
                self.capture(job, run)
                v["alive"] = self.alive(job)
            v["same"] = job.run is run
            v["failed"] = []
            try:
                for it in run.failed_processes:
                    v["failed"].append(self.describe_item(job, it))
            except SimAbort:
                raise
            except Exception as e:
                v["failed_error"] = repr(e)
            try:
                v["text"] = str(exc)
            except SimAbort:
                raise
            except Exception as e:
                v["text_error"] = repr(e)
        if job.items is not None:
            v["truth"] = self.truth(job)
            v["items"] = [self.describe_item(job, x["it"]) for x in job.items]
            v["states"] = [x["c"].state for x in job.items if x["kind"] == "proc" and x["c"] is not None]
        return v

    def describe_item(self, job, it):
        for i, x in enumerate(job.items or ()):
            if x["it"] is it:
                d = {"i": i, "kind": x["kind"]}
                try:
                    d["failed"] = bool(it.is_failed)
                except SimAbort:
                    raise
                except Exception as e:
                    d["failed"] = "error %s" % type(e).__name__
                try:
                    d["running"] = bool(it.is_running)
                except SimAbort:
                    raise
                except Exception as e:
                    d["running"] = "error %s" % type(e).__name__
                if x["kind"] == "proc":
                    try:
                        d["code"] = it.exit_code
                    except SimAbort:
                        raise
                    except Exception as e:
                        d["code"] = "error %s" % type(e).__name__
                return d
        return {"i": None, "kind": "unknown"}

    def truth(self, job):
        out = []
        for i, x in enumerate(job.items):
            if x["kind"] == "proc":
                c = x["c"]
                st = c.status if c is not None and c.state in ("zombie", "dead") else None
                out.append({"i": i, "kind": "proc", "status": st, "code": None if st is None else status_code(st),
                            "state": c.state if c is not None else "?"})
            elif x["kind"] == "fn":
                recs = [r for r in self.fn_rec if r and r["label"] == x["label"] and r["pid"] == 0
                        and r["job"] == job.n]
                r = recs[-1] if recs else None
                out.append({"i": i, "kind": "fn", "raised": bool(r and r["raised"]), "label": x["label"],
                            "ended": r is None or r["end"] is not None})
            else:
                out.append({"i": i, "kind": "other"})
        return out

    # ------------------------------------------------------------------ driving
    def start_run(self, job, p, redirs=None):
        """p.run(), with the faults the job asks for while it is being started."""
        k = self.k
        f = job.spec.get("startfault")
        if f is None:
            redirs = [self.redirect(r) for r in job.spec.get("redirs", ())] + list(redirs or ())
            return p.run(redirs) if redirs else p.run()
        fired = dict(k.fired)
        nofile = k.nofile
        if "free" in f:
            lim, free = 0, f["free"]
            while free >= 0:
                if lim not in k.root.fds:
                    free -= 1
                lim += 1
            k.nofile = lim - 1
        else:
            key = ("root", f["name"])
            k.plan[("root", f["name"], k.counts.get(key, 0) + f["n"])] = {"errno": f["errno"]}
        try:
            return p.run(redirs) if redirs else p.run()
        finally:
            k.plan = {}
            k.nofile = nofile
            job.info["startfault"] = k.fired != fired or "free" in f

    def note_exc(self, job, e):
        job.exc = e
        job.info["exc"] = type(e).__name__
        job.info["msg"] = str(e.args)[:300]
        job.info["errno"] = getattr(e, "errno", None)
        return e

    def job_sync(self, job):
        spec = job.spec
        mode = job.mode
        JOB.set(job.n)
        env = self.envs[spec.get("env", 0)]
        G = Guard(self, mode)
        R = self.pieshell.pipeline.running
        job.start = self.k.step
        job.started = True
        job.t0 = self.k.now
        calls = self.k.root_calls
        try:
            with G:
                p = job.pipe = self.build(spec["p"], env)
            try:
                with G:
                    if mode == "bytes":
                        job.out = bytes(p)
                    elif mode == "str":
                        job.out = str(p)
                    elif mode == "list":
                        job.out = []
                        stop = spec.get("consume")
                        if stop is None:
                            for line in p:
                                job.out.append(line)
                        else:
                            self.broken_off(job, p, stop)
                    elif mode == "fg":
                        job.run = p.run_interactive()
                    elif mode == "pos":
                        job.run = +p
                    elif mode == "repr":
                        job.out = type(p).__repr__(p)
                    elif mode == "bg":
                        if spec.get("inv"):
                            run = ~p
                        elif spec.get("and"):
                            # p & "file" has been started by now
                            run = p & True if isinstance(p, self.pieshell.pipeline.base.Pipeline) else p
                        else:
                            run = self.start_run(job, p)
                        self.capture(job, run)
                        self.connect_sync(job)
                    elif mode == "iterbytes":
                        run = self.start_run(job, p, [self.pieshell.Redirect("stdout", self.pieshell.PIPE)])
                        self.capture(job, run)
                        it = run.iterbytes()

                        async def go():
                            got = []
                            async for x in it:
                                got.append(x)
                            return b"".join(got)
                        job.out = self.loop.run_until_complete(go())
                    else:
                        raise ValueError(mode)
            except SimAbort:
                raise
            except (Exception, KeyboardInterrupt, asyncio.CancelledError) as e:
                self.note_exc(job, e)
            if job.items is None and mode not in ("bg",):
                run = job.run
                if isinstance(job.exc, R.PipelineError):
                    run = job.exc.pipeline
                if run is None:
                    lp = getattr(env, "last_pipeline", None)
                    if lp is not None and not any(j.run is lp for j in self.jobs if j is not job):
                        run = lp
                self.capture(job, run)
            if mode != "bg" and (mode != "repr" or job.exc is not None):
                job.waits.append(self.verdict(job, job.exc))
                if job.run is not None and job.info.get("exc") == "PipelineSuspended":
                    job.info["suspended"] = job.info["was_suspended"] = True
            if mode == "repr" and job.exc is None and job.items and any(
                    x["c"].state == "stop" for x in job.items if x["kind"] == "proc" and x["c"] is not None):
                job.info["suspended"] = job.info["was_suspended"] = True
        finally:
            job.end = self.k.step
            job.t1 = self.k.now
            self.ctl_end(job)
            job.info["calls"] = self.k.root_calls - calls
        job.done = True

    # ------------------------------------------------------------------ pipes handed to the caller
    def connections(self, job):
        if not job.spec.get("connect"):
            return
        plan = Plan.of(self.sc, job.spec)
        for pp in plan.exts:
            x = {"data": bytearray(), "eof": False, "over": False, "errors": [], "fd": None}
            self.exts[(job.n, pp.n)] = x
            yield pp, [pp.label] if pp.label else [st.label for st, y in pp.reader + pp.writers if st.kind != "ext"], x

    def handed(self, job, pp, labels, x):
        """The caller's end, as soon as it is known which part of the running pipeline has the other."""
        if labels == ["<sub>"]:
            # the one that never becomes a program
            if sum(item["kind"] == "proc" and item["c"].inst is None for item in job.items) > 1:
                return False
        for item in job.items:
            if item["kind"] == "proc" and labels == ["<sub>"]:
                if item["c"].inst is not None:
                    continue
            elif item["kind"] == "proc" and item["c"] is not None and item["c"].inst is not None:
                if item["c"].inst.label not in labels:
                    continue
            elif item["kind"] != "fn" or item["label"] not in labels:
                continue
            it = item["it"]
            reds = [r for r in (getattr(it, "redirects", None), getattr(it.cmd, "_redirects", None))
                    if hasattr(r, "redirects")]
            if not reds:
                raise SimUnsupported("no way to get at the other end of a pipe")
            r = reds[0].redirects.get(pp.ext[0])
            fd = None if r is None else r.pipe
            if not isinstance(fd, int):
                x["errors"].append("there is none")
                x["over"] = True
            else:
                x["fd"] = fd
            return True
        return False

    def connect(self, job):
        job.info["tasks"] = [asyncio.ensure_future(self.ext_end(job, *c)) for c in self.connections(job)]

    def connect_sync(self, job):
        for pp, labels, x in self.connections(job):
            for i in range(3000):
                if self.handed(job, pp, labels, x):
                    break
                time.sleep(0.0002)
            if x["fd"] is None:
                continue
            conn = pp.ext[1]["conn"]
            if conn.get("delay"):
                time.sleep(conn["delay"])
            try:
                if not Plan.reads(pp.ext[0], pp):
                    while not self.ext_read(conn, x):
                        pass
                else:
                    for part in self.ext_parts(conn):
                        while part:
                            n = os.write(x["fd"], part)
                            x["data"] += part[:n]
                            part = part[n:]
            except BrokenPipeError:
                pass
            except OSError as e:
                x["errors"].append(repr(e))
            self.ext_close(x)

    def ext_parts(self, conn):
        if conn["do"] == "close":
            return []
        data = gen_data(conn["data"])
        n = min(conn.get("chunk") or 4096, 4096)
        return [data[i:i + n] for i in range(0, len(data), n)]

    def ext_read(self, conn, x):
        if conn["do"] == "close" or conn.get("upto") is not None and len(x["data"]) >= conn["upto"]:
            return True
        data = os.read(x["fd"], conn.get("chunk") or 4096)
        if not data:
            x["eof"] = True
        x["data"] += data
        return not data

    def ext_close(self, x):
        try:
            os.close(x["fd"])
        except OSError as e:
            x["errors"].append(repr(e))
        x["over"] = True

    async def ext_end(self, job, pp, labels, x):
        JOB.set(job.n)
        loop = asyncio.get_event_loop()
        for i in range(3000):
            if self.handed(job, pp, labels, x):
                break
            await asyncio.sleep(0.0002)
        if x["fd"] is None:
            return
        conn = pp.ext[1]["conn"]
        if conn.get("delay"):
            await asyncio.sleep(conn["delay"])
        write = Plan.reads(pp.ext[0], pp)

        async def ready():
            f = loop.create_future()
            (loop.add_writer if write else loop.add_reader)(x["fd"], lambda: f.done() or f.set_result(None))
            try:
                await f
            finally:
                (loop.remove_writer if write else loop.remove_reader)(x["fd"])
        try:
            if write:
                for part in self.ext_parts(conn):
                    await ready()
                    x["data"] += part[:os.write(x["fd"], part)]
                    if conn.get("slp"):
                        await asyncio.sleep(conn["slp"])
            elif conn["do"] != "close":
                while True:
                    await ready()
                    if self.ext_read(conn, x):
                        break
                    if conn.get("slp"):
                        await asyncio.sleep(conn["slp"])
        except BrokenPipeError:
            pass
        except OSError as e:
            x["errors"].append(repr(e))
        self.ext_close(x)

    def broken_off(self, job, p, stop):
        """Takes some lines, and then lets go of the iterator."""
        it = iter(p)
        while len(job.out) < stop:
            try:
                job.out.append(next(it))
            except StopIteration:
                break
        if job.spec.get("close") and hasattr(it, "close"):
            it.close()
        del it
        gc.collect()
        gc.collect()

    async def job_async(self, job):
        spec = job.spec
        mode = job.mode
        env = self.envs[spec.get("env", 0)]
        R = self.pieshell.pipeline.running
        if spec.get("delay"):
            await asyncio.sleep(spec["delay"])
        JOB.set(job.n)
        job.start = self.k.step
        job.t0 = self.k.now
        job.started = True
        exc = None
        try:
            with Guard(self, mode):
                p = job.pipe = self.build(spec["p"], env)
                if mode == "await":
                    job.run = await p
                    self.capture(job, job.run)
                elif mode == "aiter":
                    job.out = []
                    stop = spec.get("consume")
                    slp = spec.get("slow", 0)
                    if spec.get("run"):
                        run = p.run([self.pieshell.Redirect("stdout", self.pieshell.PIPE)])
                        self.capture(job, run)
                        self.connect(job)
                        src = run
                    else:
                        src = p
                    if spec.get("tmo"):
                        src = self.impatient(src.__aiter__(), spec["tmo"])
                    async for line in src:
                        job.out.append(line)
                        if slp:
                            await asyncio.sleep(slp)
                        if stop is not None and len(job.out) >= stop:
                            break
                elif mode == "iterbytes":
                    run = p.run([self.pieshell.Redirect("stdout", self.pieshell.PIPE)])
                    self.capture(job, run)
                    self.connect(job)
                    got = []
                    src = run.iterbytes()
                    if spec.get("tmo"):
                        src = self.impatient(src, spec["tmo"])
                    async for x in src:
                        got.append(x)
                        if spec.get("slow"):
                            await asyncio.sleep(spec["slow"])
                    job.out = b"".join(got)
                elif mode == "wait":
                    run = self.start_run(job, p)
                    self.capture(job, run)
                    self.connect(job)
                    if spec.get("wait_delay"):
                        await asyncio.sleep(spec["wait_delay"])
                    await run.wait()
                elif mode == "awaitrun":
                    run = self.start_run(job, p)
                    self.capture(job, run)
                    self.connect(job)
                    await run
                elif mode == "waiters":
                    run = p.run()
                    self.capture(job, run)
                    await self.many_waiters(job, run)
                elif mode == "bg":
                    run = p.run()
                    self.capture(job, run)
                elif mode == "suspended":
                    run = p.run([self.pieshell.Redirect("stdout", self.pieshell.PIPE)])
                    self.capture(job, run)
                    await self.suspending(job, run)
                else:
                    raise ValueError(mode)
        except SimAbort:
            raise
        except (Exception, KeyboardInterrupt, asyncio.CancelledError) as e:
            exc = self.note_exc(job, e)
        if mode not in ("waiters", "bg"):
            if job.items is None and isinstance(exc, R.PipelineError):
                self.capture(job, exc.pipeline)
            job.waits.append(self.verdict(job, exc))
        for t in job.info.get("tasks", ()):
            await t
        self.ctl_end(job)
        job.end = self.k.step
        job.t1 = self.k.now
        job.done = True

    def ctl_end(self, job):
        """What fg and bg leave behind."""
        if job.spec.get("ctl"):
            base = self.jobs[0]
            job.info["base_states"] = self.states(base)
            job.info["base_alive"] = self.alive(base)

    async def impatient(self, it, tmo):
        """Asks for the next item again and again, never waiting for long."""
        loop = asyncio.get_event_loop()
        while True:
            task = loop.create_task(it.__anext__())
            done, _ = await asyncio.wait({task}, timeout=tmo)
            if not done:
                task.cancel()
                self.k.probes["cancelled_reads"] = self.k.probes.get("cancelled_reads", 0) + 1
            try:
                x = await task
            except asyncio.CancelledError:
                continue
            except StopAsyncIteration:
                return
            yield x

    async def suspending(self, job, run):
        """Takes the output of a pipeline that is suspended and continued meanwhile."""
        R = self.pieshell.pipeline.running
        k = self.k
        loop = asyncio.get_event_loop()
        go = asyncio.Event()
        go.set()
        got = []
        waits = []

        async def reader():
            it = run.iterbytes()
            while True:
                await go.wait()
                try:
                    got.append(await it.__anext__())
                except StopAsyncIteration:
                    return
                except R.PipelineSuspended as e:
                    job.waits.append(self.verdict(job, e))
                    await asyncio.sleep(0)

        async def waiter(rec):
            exc = None
            try:
                with Guard(self, "wait"):
                    await run.wait()
            except SimAbort:
                raise
            except (Exception, KeyboardInterrupt, asyncio.CancelledError) as e:
                exc = e
            rec["done"] = k.root_calls
            v = self.verdict(job, exc)
            rec["exc"] = v["exc"]
            job.waits.append(v)
        rd = loop.create_task(reader())
        for s in job.spec["susp"]:
            await asyncio.sleep(s["at"])
            if rd.done():
                break
            pend = [r for r in waits if "done" not in r]
            go.clear()
            n = len(k.kill_log)
            a = k.step
            before = self.states(job)
            with Guard(self, "suspend"):
                run.suspend()
            o = {"op": "suspend", "job": job.n, "from": a, "to": k.step, "kills": k.kill_log[n:], "before": before,
                 "after": self.states(job), "pend": pend}
            self.obs.setdefault("ops", []).append(o)
            for _ in range(4):
                await asyncio.sleep(0)
            o["told"] = ["done" in r for r in pend]
            o["states"] = self.states(job)
            if s.get("hold"):
                await asyncio.sleep(s["hold"])
            go.set()
            if s["how"] == "restart":
                n = len(k.kill_log)
                with Guard(self, "restart"):
                    run.restart()
                self.obs["ops"].append({"op": "restart", "job": job.n, "from": a, "to": k.step,
                                        "kills": k.kill_log[n:], "before": [], "after": self.states(job)})
            else:
                rec = {}
                waits.append(rec)
                rec["task"] = loop.create_task(waiter(rec))
                await asyncio.sleep(0)
        try:
            await rd
        finally:
            job.out = b"".join(got)
        for r in waits:
            await r.pop("task")
        await run.wait()

    async def many_waiters(self, job, run):
        res = []

        async def one(i, w):
            if w.get("delay"):
                await asyncio.sleep(w["delay"])
            r = {"i": i, "started": self.k.step, "cancelled": False, "done": False}
            res.append(r)
            exc = None
            try:
                with Guard(self, "wait"):
                    if w.get("timeout"):
                        await asyncio.wait_for(run.wait(), w["timeout"])
                    else:
                        await run.wait()
            except asyncio.CancelledError:
                r["cancelled"] = True
                return
            except asyncio.TimeoutError:
                r["cancelled"] = True
                return
            except SimAbort:
                raise
            except (Exception, KeyboardInterrupt, asyncio.CancelledError) as e:
                exc = e
            v = self.verdict(job, exc)
            v["waiter"] = i
            r["done"] = True
            r["v"] = v
            job.waits.append(v)
        tasks = []
        for i, w in enumerate(job.spec["waiters"]):
            tasks.append(asyncio.get_event_loop().create_task(one(i, w)))
        job.info["waiters"] = res

        async def cancel(t, after):
            await asyncio.sleep(after)
            t.cancel()
        cs = [asyncio.get_event_loop().create_task(cancel(tasks[i], w["cancel"]))
              for i, w in enumerate(job.spec["waiters"]) if w.get("cancel")]
        for t in tasks:
            try:
                await t
            except asyncio.CancelledError:
                pass
        for c in cs:
            try:
                await c
            except asyncio.CancelledError:
                pass

    def op_sync(self, op):
        """Other things a user does between jobs."""
        k = self.k
        o = op["op"]
        JOB.set(None)
        self.log.append((k.step, "op", op))
        R = self.pieshell.pipeline.running
        G = Guard(self, o)
        if o == "sleep":
            self.loop.run_until_complete(asyncio.sleep(op["t"]))
        elif o == "fds":
            self.snap(op.get("name", "fds"))
        elif o == "wait":
            job = self.jobs[op["job"]]
            if job.run is None or op.get("only_running") and not job.run.is_running:
                return
            exc = None
            try:
                with G:
                    if op.get("timeout"):
                        self.loop.run_until_complete(asyncio.wait_for(job.run.wait(), op["timeout"]))
                    else:
                        self.loop.run_until_complete(job.run.wait())
            except SimAbort:
                raise
            except (Exception, KeyboardInterrupt, asyncio.CancelledError) as e:
                exc = e
            job.waits.append(self.verdict(job, exc))
        elif o == "show":
            self.show(op)
        elif o == "inspect":
            if self.jobs[op["job"]].run is not None:
                self.loop.run_until_complete(self.inspect(self.jobs[op["job"]]))
        elif o in ("suspend", "restart"):
            job = self.jobs[op["job"]]
            if job.run is None:
                return
            a = k.step
            n = len(k.kill_log)
            before = self.states(job)
            with G:
                getattr(job.run, o)()
            self.obs.setdefault("ops", []).append({"op": o, "job": op["job"], "from": a, "to": k.step,
                                                   "kills": k.kill_log[n:], "before": before, "after": self.states(job)})
        elif o == "killjob":
            # everything it has running, from outside
            for c in self.procs_of(self.jobs[op["job"]]):
                if c.state in ("run", "stop"):
                    if c.inst:
                        c.inst.killed_by_harness = True
                    k.post(c, op["sig"], {"pid": 1, "code": 0})
        elif o == "cd":
            env = self.envs[op["env"]]
            try:
                with G:
                    env._cd(op["path"])
            except SimAbort:
                raise
            except Exception as e:
                self.log.append((k.step, "cd failed", repr(e)))
        elif o == "export":
            if op.get("how") == "scope":
                # an assignment in the scope of an interactive shell
                self.pieshell.environ.EnvScope(env=self.envs[op["env"]])[op["name"]] = op["value"]
            else:
                self.envs[op["env"]]._exports[op["name"]] = op["value"]
        elif o == "unexport":
            del self.envs[op["env"]]._exports[op["name"]]
        elif o == "build":
            self.build(op["p"] if "p" in op else {"t": "ref", "id": op["id"]})
        elif o == "newenv":
            env = self.envs[op["from"]]
            kw = {n: op[n] for n in ("exports", "interactive") if n in op}
            with G:
                if op["how"] == "item":
                    env = env[op["cwd"]]
                elif op["how"] == "kw" or op["cwd"] is None:
                    env = env(cwd=op["cwd"], **kw)
                else:
                    env = env(op["cwd"], **kw)
            self.envs.append(env)
        elif o == "joblist":
            over = self.over()
            self.poll(10)
            self.joblist("op", over)
        elif o == "foreign":
            # a child the user's own code started, not a pipeline
            def gen():
                yield ("sleep", (op.get("t", 0.01),))
                return op.get("code", 3)
            k.spawn_stub(k.root, gen(), "user child")
        elif o == "cleanup":
            job = self.jobs[op["job"]]
            if job.run is not None:
                with G:
                    job.run.remove_output_files()
            job.info["cleaned"] = True
        elif o == "ifsusp":
            self.ifsusp(op)
        elif o == "rmdir":
            k.o_rmdir(k.root, op["path"])
        elif o == "cdbad":
            try:
                with G:
                    if op.get("how") == "pipe":
                        self.envs[op["env"]].cd(op["path"]).run()
                    else:
                        self.envs[op["env"]]._cd(op["path"])
                self.obs.setdefault("cdbad", []).append(op["path"])
            except SimAbort:
                raise
            except Exception as e:
                self.log.append((k.step, "cd failed", type(e).__name__))
        elif o == "starve":
            # no descriptor is to be had from now on
            self.obs["starved"] = True
            k.starved = True
        elif o == "feed":
            k.starved = False
        elif o == "settle":
            k.settle()
        elif o == "poll":
            self.poll(op.get("n", 5))
        else:
            raise ValueError(o)

    def ifsusp(self, op):
        """What a user does with a suspended pipeline."""
        job = self.jobs[op["job"]]
        if job.run is None or not job.info.get("suspended"):
            return
        if op["do"] == "restart":
            n = len(self.k.kill_log)
            a = self.k.step
            with Guard(self, "restart"):
                job.run.restart()
            self.obs.setdefault("ops", []).append({"op": "restart", "job": job.n, "from": a, "to": self.k.step,
                                                   "kills": self.k.kill_log[n:], "before": [], "after": self.states(job)})
        elif op["do"] == "sleep":
            self.loop.run_until_complete(asyncio.sleep(0.005))
        elif op["do"] == "wait":
            exc = None
            try:
                with Guard(self, "wait"):
                    self.loop.run_until_complete(job.run.wait())
            except SimAbort:
                raise
            except (Exception, KeyboardInterrupt, asyncio.CancelledError) as e:
                exc = e
            v = self.verdict(job, exc)
            job.waits.append(v)
            job.info["suspended"] = v["exc"] == "PipelineSuspended"

    def states(self, job):
        return [(x["c"].serial, x["c"].state) for x in job.items or () if x["kind"] == "proc" and x["c"] is not None]

    def snap(self, name):
        self.obs.setdefault("fds", []).append((name, self.k.step, self.root_fds()))

    def over(self):
        """Jobs of which the shell has been told that every part ended."""
        out = []
        for j in self.jobs:
            if j.items is None:
                continue
            b = self.jobs[0] if j.spec.get("ctl") == "fg" else j
            rec = [r for r in self.fn_rec if r and r["pid"] == 0 and r["job"] == b.n]
            # (a Python stage leaves a record only once it has begun)
            if all(c.state == "dead" for c in self.procs_of(b)) and all(r["end"] is not None for r in rec) and sum(
                    1 for x in b.items or () if x["kind"] == "fn") <= len(rec):
                out.append(j.n)
        return out

    def identify(self, run):
        """The job a running pipeline belongs to."""
        R = self.pieshell.pipeline.running
        for j in self.jobs:
            if j.run is run:
                return j.n
        jobs = None
        for it in run.processes if isinstance(run, R.RunningPipeline) else ():
            if isinstance(it, R.RunningProcess):
                # (a pid can have been used more than once)
                cs = [f[4].job for f in self.forks if f[1] == it.pid and f[4].job is not None
                      and self.jobs[f[4].job].run is None]
                jobs = cs if jobs is None else [n for n in jobs if n in cs]
        return jobs[-1] if jobs else None

    def joblist(self, name, over=()):
        for i, env in enumerate(self.envs):
            rp = env.running_pipelines
            ids = []
            for r in list(rp):
                ids.append(self.identify(r))
            last = env.__dict__.get("last_pipeline")
            self.obs.setdefault("joblist", []).append(
                {"env": i, "step": self.k.step, "name": name, "list": ids,
                 "last": self.identify(last) if last is not None else None, "any": last is not None,
                 "alive": [j.n for j in self.jobs if j.started and j.spec.get("env", 0) == i and j.items is not None
                           and self.alive(j)], "over": over,
                 "known": [j.n for j in self.jobs if j.started and j.items is not None and j.spec.get("env", 0) == i]})

    def poll(self, n=5):
        """Lets the event loop handle what has happened."""
        async def idle():
            for _ in range(n):
                await asyncio.sleep(0)
        self.loop.run_until_complete(idle())

    async def async_main(self, jobs, ops):
        tasks = []
        loop = asyncio.get_event_loop()
        for j in jobs:
            tasks.append(loop.create_task(self.job_async(j)))

        async def aop(op):
            if op.get("at"):
                await asyncio.sleep(op["at"])
            await self.op_async(op)
        for op in ops:
            tasks.append(loop.create_task(aop(op)))
        for t in tasks:
            await t

    async def op_async(self, op):
        k = self.k
        o = op["op"]
        R = self.pieshell.pipeline.running
        self.log.append((k.step, "op", op))
        if o in ("suspend", "restart"):
            job = self.jobs[op["job"]]
            if job.run is None:
                return
            a = k.step
            n = len(k.kill_log)
            before = self.states(job)
            with Guard(self, o):
                getattr(job.run, o)()
            self.obs.setdefault("ops", []).append({"op": o, "job": op["job"], "from": a, "to": k.step,
                                                   "kills": k.kill_log[n:], "before": before, "after": self.states(job)})
        elif o == "tick":
            ticks = self.obs.setdefault("ticks", [])
            for _ in range(op["n"]):
                t0 = k.now
                await asyncio.sleep(op["t"])
                ticks.append((t0, k.now))
        elif o == "joblist":
            over = self.over()
            for _ in range(10):
                await asyncio.sleep(0)
            self.joblist("async", over)
        elif o == "foreign":
            self.op_sync(op)
        elif o == "wait":
            job = self.jobs[op["job"]]
            while job.run is None and not job.done:
                await asyncio.sleep(0.001)
            if job.run is None:
                return
            exc = None
            try:
                with Guard(self, "wait"):
                    await job.run.wait()
            except asyncio.CancelledError:
                raise
            except (Exception, KeyboardInterrupt, asyncio.CancelledError) as e:
                exc = e
            job.waits.append(self.verdict(job, exc))
        elif o in ("cd", "export"):
            self.op_sync(op)
        elif o == "exports":
            job = self.jobs[op.get("job", 0)]
            self.obs.setdefault("exports", []).append({"step": k.step, "vals": dict(self.envs[0]._exports),
                                                       "done": job.done, "wrote": self.bash_wrote(),
                                                       "gone": self.bash_gone()})
        elif o == "show":
            self.show(op)
        elif o == "inspect":
            job = self.jobs[op["job"]]
            if job.run is not None:
                await self.inspect(job)
        elif o == "poke":
            job = self.jobs[op["job"]]
            if job.run is None:
                return
            self.obs.setdefault("pokes", []).append(self.poke(job))
        else:
            raise ValueError(o)

    def bash_gone(self):
        """Whether bash has ended (then a report cut short is all there will be)."""
        for i in self.k.insts:
            if i.label == "bash":
                return i.status is not None
        return False

    def bash_wrote(self):
        """How much of its report bash has written."""
        for i in self.k.insts:
            if i.label == "bash":
                return max([len(b) for d, b in i.wobj.items() if d.startswith("pipew:")] or [0])
        return 0

    def poke(self, job):
        d = {"job": job.n, "step": self.k.step, "items": [self.describe_item(job, x["it"]) for x in job.items],
             "truth": self.truth(job)}
        try:
            d["failed"] = [self.describe_item(job, it)["i"] for it in job.run.failed_processes]
            d["is_failed"] = bool(job.run.is_failed)
            d["is_running"] = bool(job.run.is_running)
        except SimAbort:
            raise
        except Exception as e:
            d["error"] = repr(e)
        d["truth2"] = self.truth(job)
        return d

    async def inspect(self, job):
        """What a pipeline tells about its parts once the event loop has handled what has happened so far."""
        k = self.k

        def snapshot():
            return [(x["c"].state, x["c"].status, x["c"].nchanges) for x in job.items
                    if x["kind"] == "proc" and x["c"] is not None]
        for _ in range(12):
            if job.run is None or job.items is None:
                return
            before = snapshot()
            for _ in range(10):
                await asyncio.sleep(0)
            if before == snapshot() and 17 not in k.root.pending and not any(b[0] == "dying" for b in before):
                break
            await asyncio.sleep(0.0003)
        else:
            return
        d = {"job": job.n, "step": k.step, "truth": self.truth(job), "items": [], "n": k.forks}
        run = job.run
        try:
            d["listed"] = [self.describe_item(job, it)["i"] for it in run.processes]
            for x in job.items:
                it = x["it"]
                i = self.describe_item(job, it)
                i["cmd"] = repr(it.cmd)
                if x["kind"] == "proc":
                    c = x["c"]
                    i["pid"] = (it.pid, c.pid if c is not None else None)
                    ev = it.iohandler.last_event
                    i["event"] = None if ev is None else {n: int(ev["ssi_" + n]) for n in ("pid", "signo", "code", "status")}
                    i["stopsig"] = c.stopsig if c is not None else None
                    i["inst"] = c.inst.label if c is not None and c.inst is not None else None
                elif x["kind"] == "fn":
                    i["label"] = x["label"]
                d["items"].append(i)
            listed = [x["c"].serial for x in job.items if x["kind"] == "proc" and x["c"] is not None]
            d["unlisted"] = ["%s#%d" % (c.label, c.serial) for c in self.procs_of(job) if c.serial not in listed]
            d["failed"] = [self.describe_item(job, it)["i"] for it in run.failed_processes]
            d["alive"] = [self.describe_item(job, it)["i"] for it in run.running_processes]
            d["is_failed"] = bool(run.is_failed)
            d["is_running"] = bool(run.is_running)
            d["text"] = repr(run)
        except SimAbort:
            raise
        except Exception as e:
            d["error"] = repr(e)
        if snapshot() != before:
            return
        d["ran"] = k.forks - d.pop("n")
        self.obs.setdefault("inspected", []).append(d)

    def show(self, op):
        """Looks at things the way an interactive prompt does."""
        k = self.k
        base = self.pieshell.pipeline.base
        env = self.envs[op.get("env", 0)]
        things = []
        if "p" in op:
            # not run yet, in an environment that is not interactive
            things.append(("new", self.build(op["p"], env)))
        elif "ps" in op:
            # described by repr(), which never runs anything
            things = [self.build(p, env) for p in op["ps"]]
            things = [("described by repr()", things[0] if len(things) == 1 else op.get("as") == "dict" and dict(
                enumerate(things)) or things)]
        elif "odd" in op:
            things = [("odd", Odd(op["odd"]))]
            if op.get("within"):
                things = [("odd", [things[0][1], (env.prog("shown"), None)][:op["within"]])]
        elif "job" in op:
            job = self.jobs[op["job"]]
            if job.pipe is not None and not env._interactive:
                things.append(("described", job.pipe))
            if job.run is not None:
                things += [("running", job.run), ("its pipeline", job.run.pipeline)]
                for it in job.run.processes:
                    things.append(("item", it))
                    if hasattr(it, "cmd"):
                        things.append(("command of item", it.cmd))
            if job.exc is not None:
                things.append(("error", job.exc))
        else:
            things = [("jobs", list(env.running_pipelines))]
            last = env.__dict__.get("last_pipeline")
            if last is not None:
                things += [("last pipeline", last), ("pipeline of last pipeline", last.pipeline)]

        def state():
            return (k.forks, len(k.kill_log), [e._cwd for e in self.envs], [dict(e._exports) for e in self.envs],
                    [[id(r) for r in e.running_pipelines] for e in self.envs],
                    [id(e.__dict__.get("last_pipeline")) for e in self.envs], sorted(self.root_fds().items()))
        for what, x in things:
            before = state()
            d = {"what": what, "step": k.step, "text": None, "job": op.get("job")}
            try:
                d["text"] = str(x) if what == "error" else (repr if what in ("odd", "described by repr()") else base.standard_repr)(x)
            except SimAbort:
                raise
            except (Exception, KeyboardInterrupt) as e:
                d["error"] = "%s: %s" % (type(e).__name__, e)
            after = state()
            d["changed"] = [n for n, a, b in zip(("processes", "signals", "directories", "exports", "jobs", "last pipeline",
                                                 "descriptors"), before, after) if a != b]
            d["labels"] = [n for p in op.get("ps", [op["p"]] if "p" in op else []) for n in self.shown_labels(p)] or None
            if what in ("described by repr()", "new") and "error" not in d:
                again = (repr if what != "new" else base.standard_repr)(x)
                if again != d["text"]:
                    d["changed"].append("text (to %r)" % again[:200])
            self.obs.setdefault("shown", []).append(d)

    def shown_labels(self, a):
        """Names which the text of a pipeline must contain."""
        t = a["t"]
        if t == "prog":
            return [a["l"]]
        if t in ("pipe", "grp"):
            return self.shown_labels(a["a"]) + self.shown_labels(a["b"])
        if t == "red":
            return self.shown_labels(a["p"])
        return []

    def events(self):
        k = self.k
        for e in self.sc.get("cfg", {}).get("faults", ()):
            if "at" not in e:
                continue
            k.at(e["at"], e["name"], self.event(e))

    def event(self, e):
        tries = [0]

        def do(k):
            what = e["name"]
            if what in ("tty_int", "tty_tstp"):
                sig = 2 if what == "tty_int" else 20
                if not self.fg_ok(e) or e.get("when_chld") and 17 not in k.root.pending and 17 not in k.root.pysigs:
                    # not now, but soon
                    if e.get("when_fg") and tries[0] < (10000 if e["when_fg"] == "read" and not any(
                            j.spec.get("endless") and j.end is not None for j in self.jobs) else 150):
                        tries[0] += 1
                        k.at(k.step + 2, what, do)
                    return False
                j = self.fg_job()
                self.obs.setdefault("tty", []).append({
                    "sig": sig, "step": k.step, "fg": j, "calls": k.root_calls,
                    "alive": [c.serial for c in self.procs_of(self.jobs[j]) if c.state not in ("zombie", "dead")]
                    if j is not None else [],
                    "base_alive": bool(self.jobs and self.alive(self.jobs[0]))})
                for q in list(k.procs.values()):
                    if q.pgid == k.fg_pgid and q.state not in ("dead", "zombie") and (not e.get("shell_only")
                                                                                    or q is k.root):
                        if e.get("kids_only") and q is k.root:
                            continue
                        k.post(q, sig, {"pid": 0, "code": 128})
            elif what == "kill_kid":
                qs = [q for q in k.procs.values() if q.kind == "stub" and q.state in ("run", "stop") and q.inst]
                if not qs:
                    return False
                q = qs[e.get("i", 0) % len(qs)]
                q.inst.killed_by_harness = True
                k.post(q, e["sig"], {"pid": 1, "code": 0})
            elif what == "stop_kid":
                qs = [q for q in k.procs.values() if q.kind == "stub" and q.state == "run" and q.inst]
                if not qs:
                    return False
                q = qs[e.get("i", 0) % len(qs)]
                k.post(q, e.get("sig", 19), {"pid": 1, "code": 0})
                t = k.step + e.get("for", 50)
                s = q.serial

                def cont(k):
                    if q.state == "stop" and q.serial == s:
                        k.post(q, 18, {"pid": 1, "code": 0})
                        return True
                    return False
                if e.get("for") is not None:
                    k.at(t, "cont_kid", cont)
            elif what == "time_jump":
                k.now += e["t"]
            elif what == "spurious_chld":
                k.post(k.root, 17, {"pid": 1, "code": 0})
            else:
                raise ValueError(what)
            return True
        return do

    def fg_job(self):
        for j in self.jobs:
            if j.started and not j.done:
                return j.n
        return None

    def fg_ok(self, e):
        """A terminal signal is only sent while the job it is meant for runs in the foreground."""
        if not e.get("when_fg"):
            return True
        j = self.fg_job()
        if j is None or self.jobs[j].mode not in (("list", "bytes", "str") if e["when_fg"] == "read" else ("fg", "pos", "repr")):
            return False
        if e["when_fg"] is not True:
            return self.k.root_next in ("epoll_wait", "sleep")
        return self.k.root.op is not None and self.k.root.op[0] == "epoll_wait" and (self.jobs[j].spec.get("ctl") == "fg" and self.k.step > self.jobs[j].start
                or len([f for f in self.forks if f[0] >= self.jobs[j].start]) > 0)

    def drive(self):
        sc = self.sc
        self.setup()
        try:
            self.start()
            self.snap("start")
            self.k.counts.clear()
            self.events()
            for step in sc["steps"]:
                if isinstance(step.get("job"), dict):
                    job = Job(len(self.jobs), step["job"])
                    self.jobs.append(job)
                    self.job_sync(job)
                    if step.get("snap"):
                        self.poll(6)
                        self.snap("after job %d" % job.n)
                elif "jobs" in step:
                    base = len(self.jobs)
                    js = []
                    for s in step["jobs"]:
                        job = Job(len(self.jobs), s)
                        self.jobs.append(job)
                        js.append(job)
                    self.loop.run_until_complete(self.async_main(js, step.get("ops", ())))
                else:
                    self.op_sync(step)
            self.finish()
        except SimAbort as e:
            self.aborted = e
        except Exception as e:
            if CTX.role == "remote" or not self.shells_own(e):
                raise
            self.crash = "%s: %s" % (type(e).__name__, str(e)[:300])
        finally:
            if CTX.role == "remote":
                escaped("driver", *sys.exc_info()[:2])
            role = CTX.role
            if self.aborted is None and self.k.abort is not None:
                self.aborted = self.k.abort
        leave()

    def shells_own(self, e):
        """The error came out of the code under test (and not of this harness), at a place where there should be none."""
        if isinstance(e, RuntimeError) and "stopped before Future completed" in str(e):
            return True         # (nobody here stops the loop)
        inside = False
        tb = e.__traceback__
        top = os.path.dirname(self.pieshell.__file__) + os.sep
        while tb is not None:
            name = tb.tb_frame.f_code.co_filename
            if name == __file__:
                inside = False
            elif name.startswith(top):
                inside = True
            tb = tb.tb_next
        return inside

    def finish(self):
        """Faults are over: everything still running is given the time to end."""
        k = self.k
        k.events = []
        k.plan = {}
        for q in list(k.procs.values()):
            if q.state == "stop" and not any(j.info.get("suspended") for j in self.jobs):
                k.post(q, 18, {"pid": 1, "code": 0})
        self.obs["exports_end"] = [dict(e._exports) for e in self.envs]
        self.obs["root_cwd"] = k.root.cwd
        for rnd in range(self.sc.get("rounds", 12)):
            k.settle()
            self.poll(8)
            if rnd > 2 and not k.runnable() and not any(j.items is not None and j.run.is_running and not self.alive(j)
                                                          for j in self.jobs if j.run is not None):
                break
        self.loop.run_until_complete(asyncio.sleep(0.01))
        self.poll(8)
        self.snap("end")
        self.joblist("end", self.over())
        self.obs["zombies"] = ["%s#%d" % (q.label, q.serial) for q in k.procs.values()
                               if q.state == "zombie" and q.ppid == k.root.pid]
        for j in self.jobs:
            if j.run is not None:
                j.info["final_running"] = bool(j.run.is_running)
                j.info["final_items"] = [self.describe_item(j, x["it"]) for x in j.items] if j.items else []
                j.info["final_truth"] = self.truth(j) if j.items else []
                j.info["final_alive"] = self.alive(j)
                j.info["content"] = [getattr_content(x["it"]) for x in j.items] if j.items else []
        self.obs["tmp"] = sorted(p for p in k.fs if p.startswith("/tmp/"))
        k.now += 0


def getattr_content(it):
    try:
        c = it.output_content
        return {str(key): val for key, val in c.items()}
    except AttributeError:
        return None


def status_code(st):
    """exit status or signal number"""
    if st & 0x7f:
        return st & 0x7f
    return st >> 8

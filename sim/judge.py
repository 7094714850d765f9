"""The oracles: from the record of one simulated execution to the list of violated properties.

Everything is judged from observable behaviour: bytes written and read by every stage, descriptors programs started with,
process table, signals sent, exceptions, results.  Nothing is assumed about how the shell does it."""
import itertools
from . import programs
from .kernel import SimAbort, SimHang, SimLimit, SimUnsupported
from .plan import CALLER_MODES, Plan, dec, fn_output, split_lines, READS, READS_ALL


def short(b, n=60):
    if b is None:
        return "None"
    if isinstance(b, (bytes, bytearray)):
        b = bytes(b)
        if len(b) > n:
            return "%r...(%d bytes)" % (b[:n], len(b))
        return repr(b)
    s = repr(b)
    return s if len(s) <= 2 * n else s[:2 * n] + "...(%d)" % len(s)


def diff(got, want):
    """Where two byte strings differ."""
    n = min(len(got), len(want))
    i = 0
    while i < n and got[i] == want[i]:
        i += 1
    return "differ at byte %d of %d/%d: got %s want %s" % (i, len(got), len(want), short(bytes(got[max(0, i - 8):i + 24])),
                                                         short(bytes(want[max(0, i - 8):i + 24])))


def shuffled(got, want, eof, cap=3000):
    """Whether got is an interleaving of the byte strings (or, unless eof, of beginnings of them)."""
    if eof and len(got) != sum(len(x) for x in want):
        return False
    states = {(0,) * len(want)}
    for c in got:
        new = set()
        for st in states:
            for i, x in enumerate(want):
                if st[i] < len(x) and x[st[i]] == c:
                    new.add(st[:i] + (st[i] + 1,) + st[i + 1:])
        if not new:
            return False
        if len(new) > cap:
            return True         # cannot tell
        states = new
    return True


class Judge(object):
    def __init__(self, w):
        self.w = w
        self.k = w.k
        self.sc = w.sc
        self.v = []
        self.notes = []
        self.prof = w.sc.get("prof", {})
        self.specs = w.sc.get("specs", {})
        self.plans = {}

    def bad(self, props, code, msg, job=None):
        if isinstance(props, str):
            props = props.split()
        props = list(props) + list(self.prof.get("tag", {}).get(code, ()))
        if len(self.v) < 40:
            self.v.append({"props": sorted(set(props)), "code": code,
                           "msg": ("job %d: " % job.n if job is not None else "") + msg})

    # ------------------------------------------------------------------ everything
    def run(self):
        w = self.w
        ab = w.aborted
        if isinstance(ab, SimUnsupported):
            return {"error": "unsupported: %s" % ab}
        self.escapes()
        for x in w.obs.get("env_error", ()):
            self.bad("C09", "env-default", "setting a default redirection of an environment raised %s" % x)
        if ab is not None:
            hp = list(self.prof.get("hang", ()))
            if isinstance(ab, SimHang):
                self.bad(hp, "hang", str(ab)[:600])
            elif isinstance(ab, SimLimit):
                self.bad(hp, "livelock", "no end within the step limit: " + self.k.ps()[:400])
            else:
                self.bad(hp + ["C11"] if "itself" in str(ab) or "replaced" in str(ab) else hp, "abort", str(ab)[:300])
        for job in w.jobs:
            try:
                self.match(job)
            except KeyError:
                pass
        if not w.obs.get("faulty_start"):
            for job in w.jobs:
                if job.n in self.plans:
                    self.job(job, ab is not None or w.crash is not None)
        self.kills()
        self.blocking()
        if w.crash is not None:
            self.bad([self.prof["own"]] if self.prof.get("own") else [], "crash", "the shell failed with %s" % w.crash)
        elif ab is None:
            self.final()
        self.order()
        return {"violations": self.v, "notes": self.notes}

    # ------------------------------------------------------------------ which process is which stage
    def match(self, job):
        if job.spec.get("noplan"):
            return
        plan = self.plans[job.n] = Plan.of(self.sc, job.spec)
        if job.start is None:
            return
        insts = sorted((i for i in self.k.insts if i.job == job.n), key=lambda i: i.serial)
        procs = [c for c in self.w.procs_of(job)]
        used = set()
        recs = [r for r in self.w.fn_rec if r and r["job"] == job.n]
        for st in plan.stages:
            if st.kind == "prog":
                for i in insts:
                    if i.label == st.label and id(i) not in used:
                        st.inst = i
                        used.add(id(i))
                        break
            elif st.kind in ("fn", "it"):
                for r in recs:
                    if r["label"] == st.label and id(r) not in used:
                        st.rec = r
                        used.add(id(r))
                        break
        job.matched = {}
        rest = [st for st in plan.stages if st.kind in ("prog", "sub") and st.inner is None]
        for c in procs:
            for st in rest:
                if st.inst is not None and st.inst.serial == c.serial:
                    st.proc = c
                    break
        left = [st for st in rest if st.proc is None]
        for c in procs:
            if not any(st.proc is c for st in rest):
                # a child that did not get to its program
                for st in left:
                    if st.proc is None and st.inst is None:
                        st.proc = c
                        break

    # ------------------------------------------------------------------ data
    def reads_of(self, st, which):
        """(bytes the stage got there, it saw the end of file, it is over)"""
        if st.kind == "ext":
            x = self.w.exts.get((st.job, st.n))
            return None if x is None else (bytes(x["data"]), x["eof"], x["over"])
        if st.kind == "prog":
            i = st.inst
            if i is None:
                return None
            fd = which if isinstance(which, int) else self.argfd(i, which[1])
            if fd is None or fd not in i.fds:
                return None
            d = i.fds[fd]
            return bytes(i.robj.get(d, b"")), d in i.reof, i.status is not None
        return None

    def argfd(self, inst, i):
        try:
            a = programs.argpath(inst.argv, i)
        except IndexError:
            return None
        if a.startswith("/dev/fd/") and a[8:].isdigit():
            return int(a[8:])
        if a.startswith("/proc/self/fd/") and a[14:].isdigit():
            return int(a[14:])
        return None

    def lost_ok(self, pp):
        """The reading end of this declared pipe was given up before its end."""
        for r in pp.reader:
            if r == "caller":
                return True
            st, which = r
            if st.kind in ("prog", "ext"):
                got = self.reads_of(st, which)
                if got is None or not got[1]:
                    return True
            else:
                if st.rec is None or st.rec["raised"] or st.spec.get("fn") not in READS_ALL:
                    return True
        return not pp.reader

    def writes_of(self, job, st, fd):
        """(bytes, complete: nothing more will come, exact: must all have been passed on) the stage put out there."""
        if st.kind == "ext":
            x = self.w.exts.get((job.n, st.n))
            return None if x is None else (bytes(x["data"]), x["over"], True)
        if st.kind == "prog":
            i = st.inst
            if i is None:
                return b"", True, True
            if isinstance(fd, tuple):
                fd = self.argfd(i, fd[1])
            d = i.fds.get(fd)
            if d is None:
                return b"", True, True
            return bytes(i.wobj.get(d, b"")), i.status is not None, True
        spec = st.spec
        if st.kind == "fn" and st.rec is None:
            # a function that was never seen running (its body begins with the first item)
            return None
        lines, ended = [], False
        if st.kind == "fn" and spec["fn"] in READS:
            lines = st.rec["lines"]
            ended = not st.rec["raised"] and (st.rec["end"] is not None
                                              or spec["fn"] in ("collect", "sink") and st.rec["items"] > 0)
        if st.kind == "fn" and st.rec["raised"] == "KeyboardInterrupt":
            # interrupted while it worked on the item after these
            spec = dict(spec, raise_at=len(lines) - 1 if spec["fn"] == "map" else st.rec["items"])
        items, whole = fn_output(spec, lines, ended)
        data = b"".join(i + b"\n" for i in items)
        over = (st.rec is None or st.rec["end"] is not None) and whole
        return data, over, over

    def job(self, job, aborted):
        w, k = self.w, self.k
        plan = self.plans[job.n]
        own = self.prof.get("own")
        for pp in plan.exts:
            for st, x in pp.writers + pp.reader:
                st.job = job.n
            x = w.exts.get((job.n, pp.n))
            for e in x["errors"] if x is not None else ():
                self.bad("C29", "handed", "the caller's end of the pipe for descriptor %d of %s: %s" % (
                    pp.ext[0], " and ".join(s.label for s, y in pp.writers + pp.reader if s.kind != "ext"), e), job)
        for pp in plan.pipes:
            if pp.vague:
                continue
            ws = []
            for st, fd in pp.writers:
                x = self.writes_of(job, st, fd)
                if x is None:
                    ws = None
                    break
                ws.append((st, x))
            if ws is None:
                continue
            if len(pp.reader) > 1 and all(r != "caller" for r in pp.reader):
                if all(r[0].kind == "prog" for r in pp.reader):
                    self.shared(job, pp, ws)
                else:
                    self.shared_fn(job, pp, ws)
                continue
            for r in pp.reader:
                self.link(job, pp, ws, r, aborted)
        for st in plan.stages:
            if st.kind == "prog" and st.inst is not None:
                self.program(job, st)
            if st.kind in ("fn", "it") and st.rec is not None and st.rec["after"]:
                self.bad("C03", "asked-again", "stage %s was asked for items %d times after its end"
                         % (st.label, st.rec["after"]), job)
        self.redirects(job)
        if not aborted:
            self.result(job)
        self.waits(job)

    def props_for(self, writer, reader, how, pp=None):
        p = ["C01"] if pp is None or pp.ext is None else ["C29"]
        if writer is not None and writer.kind in ("fn", "it"):
            p.append("C03")
        if writer is not None and writer.inner is not None:
            p.append("C19")
        if reader == "lines":
            p.append("C02")
        p += self.prof.get("data", [])
        return p

    def link(self, job, pp, ws, r, aborted):
        """What a reader got is what the writers wrote."""
        want = [x[0] for st, x in ws]
        complete = all(x[1] for st, x in ws)
        wst = ws[0][0] if ws else None
        single = len(ws) <= 1
        props = self.props_for(wst, None, None, pp)
        arg = (isinstance(r, tuple) and isinstance(r[1], tuple)) or (wst is not None and any(
            isinstance(fd, tuple) for s, fd in pp.writers))
        if arg:
            props = props + ["C15"]
        if r == "caller":
            if job.mode in ("bytes", "iterbytes", "str", "suspended"):
                got = job.out
                if got is None:
                    return
                if isinstance(got, str):
                    got = got.encode("utf-8", "surrogateescape")
                self.same(job, got, want, single, True, complete, props, "the caller's result")
                return
            if job.mode in ("list", "aiter"):
                if job.out is None:
                    return
                ended = job.done and job.spec.get("consume") is None and \
                    (job.exc is None or type(job.exc).__name__ == "PipelineFailed")
                self.lines(job, job.out, want, single, ended, complete, props + ["C02"], "the caller's lines")
            return
        st, which = r
        if st.kind in ("prog", "ext"):
            got = self.reads_of(st, which)
            if got is None:
                return
            data, eof, over = got
            self.same(job, data, want, single, eof, complete, props, "input of %s" % st.label,
                      tail=over and not eof)
        elif st.kind == "fn" and st.spec["fn"] in READS:
            if st.rec is None:
                return
            ended = st.rec["end"] is not None and not st.rec["raised"] and st.spec["fn"] in READS_ALL
            if st.rec["raised"] == "UnicodeDecodeError" and single and (
                    not want or None not in [dec(x) for x in split_lines(want[0])]):
                self.bad(props + ["C02"], "decode", "%s was not given its input, although all of it is text" % st.label,
                         job)
                return
            self.lines(job, st.rec["lines"], want, single, ended, complete, props + ["C02"],
                       "lines seen by %s" % st.label)

    def shared(self, job, pp, ws):
        """Several programs read from one pipe: what they got, put together, is what was written."""
        got = [self.reads_of(st, which) for st, which in pp.reader]
        data = [x[0] for x in got if x is not None and x[0]]
        n = sum(len(x) for x in data)
        eof = any(x is not None and x[1] for x in got)
        if len(ws) > 1 and len(data) > 1:
            if eof and sorted(b"".join(data)) != sorted(b"".join(x[0] for st, x in ws)):
                self.bad(self.props_for(ws[0][0], None, None, pp), "data", "input of %s, put together, is not what was written" % (
                    " and ".join(st.label for st, w in pp.reader)), job)
            return
        if len(data) < 2:
            for r in pp.reader:
                if not data or self.reads_of(*r) is not None and self.reads_of(*r)[0]:
                    self.link(job, pp, ws, r, False)
            return
        want = ws[0][1][0] if ws else b""
        props = self.props_for(ws[0][0] if ws else None, None, None, pp)
        if n > len(want) or eof and n != len(want) or not shuffled(want[:n], data, True):
            self.bad(props, "data", "input of %s, put together, is not what was written: %d bytes of %d" % (
                " and ".join(st.label for st, w in pp.reader), n, len(want)), job)

    def shared_fn(self, job, pp, ws):
        """Functions (and programs) read from one pipe.  Each gets pieces, so only all of it together can be judged."""
        data, whole = [], True
        props = self.props_for(ws[0][0] if ws else None, "lines", None, pp)
        closed = None
        for d in [st.inst.fds.get(fd) for st, fd in pp.writers if st.kind == "prog" and st.inst is not None
                  and not isinstance(fd, tuple)] + [r[0].inst.fds.get(r[1]) for r in pp.reader if r[0].kind == "prog"
                                                    and r[0].inst is not None and r[1] == 0]:
            if d and d.startswith("pipe"):
                closed = self.k.pipe_closed.get(d.partition(":")[2])
                break
        else:
            d = None
        for r in pp.reader:
            st = r[0]
            if st.kind == "prog":
                got = self.reads_of(*r)
                if got is None or not got[1]:
                    whole = False
                else:
                    data.append([got[0]])
                continue
            if st.kind != "fn":
                whole = False
                continue
            rec = st.rec
            if rec is None or rec["end"] is None or rec["raised"] or st.spec["fn"] not in READS_ALL:
                whole = False
                continue
            if d and (closed is None or closed > rec["end"]):
                self.bad(props, "lines", "%s saw the end of its input at step %d, but it was still open for writing"
                         % (st.label, rec["end"]), job)
            x = "\n".join(rec["lines"]).encode("utf-8", "surrogateescape")
            data.append([x, x + b"\n"] if rec["lines"] else [b""])
        if not whole or not all(x[1] for st, x in ws):
            return
        want = b"".join(x[0] for st, x in ws)
        for got in itertools.product(*data):
            if len(ws) > 1 or len(want) > 6000:
                good = sorted(b"".join(got)) == sorted(want)
            else:
                good = len(want) == sum(len(x) for x in got) and shuffled(want, got, True)
            if good:
                return
        self.bad(props, "data", "input of %s, put together, is not what was written: %s bytes of %d" % (
            " and ".join(r[0].label for r in pp.reader), [len(x[-1]) for x in data], len(want)), job)

    def same(self, job, got, want, single, eof, complete, props, what, tail=False):
        if single:
            exp = want[0] if want else b""
            if eof:
                if got != exp and not (not complete and exp.startswith(bytes(got)) is False and False):
                    self.bad(props, "data", "%s: %s" % (what, diff(got, exp)), job)
            elif not exp.startswith(bytes(got)):
                self.bad(props, "data", "%s is not what was written: %s" % (what, diff(got, exp)), job)
            return
        # several writers: lines of each in their order
        if not eof:
            got = got[:got.rfind(b"\n") + 1]
        self.merged(job, bytes(got), want, eof, props, what)

    def merged(self, job, data, raw, eof, props, what):
        """Several writers: whole lines of each in its order or, where they write less than a line at a time or end
        without a newline, at least an interleaving of their bytes."""
        got = split_lines(data)
        want = [split_lines(x) for x in raw]
        owner = {}
        for n, ls in enumerate(want):
            for x in ls:
                owner[x] = n
        seen = [[] for _ in want]
        msg = None
        for x in got:
            n = owner.get(x)
            if n is None:
                msg = "%s: line nobody wrote: %s" % (what, short(x))
                break
            seen[n].append(x)
        for n, ls in enumerate(want):
            if msg is None and ((seen[n] != ls) if eof else (seen[n] != ls[:len(seen[n])])):
                msg = "%s: lines of member %d: %d of %d, or out of order" % (what, n, len(seen[n]), len(ls))
        if msg is not None and not shuffled(data, raw, eof) and not (data.endswith(b"\n") and
                                                                     shuffled(data[:-1], raw, eof)):
            self.bad(props, "data", msg, job)

    def lines(self, job, got, want, single, ended, complete, props, what):
        for x in got:
            if not isinstance(x, str):
                self.bad(props, "line-type", "%s: %r is not text" % (what, type(x).__name__), job)
                return
        if not single:
            self.merged(job, "".join(x + "\n" for x in got).encode("utf-8", "surrogateescape"), want, ended, props, what)
            return
        data = want[0] if want else b""
        raw = split_lines(data)
        exp = [dec(x) for x in raw]
        if None in exp:
            bad = exp.index(None)
            exp = exp[:bad]
            ended = False
            if len(got) > len(exp):
                return
        if not complete and not data.endswith(b"\n") and exp and not ended:
            # the last line is still being written
            pass
        if ended:
            if got != exp:
                self.bad(props, "lines", "%s: %s" % (what, self.ldiff(got, exp)), job)
        elif got != exp[:len(got)]:
            if len(got) == len(exp) and got[:-1] == exp[:len(got) - 1] and not complete and exp[-1].startswith(got[-1]):
                return
            self.bad(props, "lines", "%s: %s" % (what, self.ldiff(got, exp)), job)

    def ldiff(self, got, exp):
        i = 0
        while i < min(len(got), len(exp)) and got[i] == exp[i]:
            i += 1
        return "%d lines, expected %d; first difference at line %d: got %s want %s" % (
            len(got), len(exp), i, short(got[i]) if i < len(got) else "nothing",
            short(exp[i]) if i < len(exp) else "nothing")

    # ------------------------------------------------------------------ programs
    def program(self, job, st):
        w, k, i = self.w, self.k, st.inst
        spec = st.spec
        env = self.envstate(st.env)
        # arguments, directory and variables
        if not st.node.get("noargv"):
            want = self.argv(st, i)
            if want is not None and i.argv != want:
                self.bad("C14" if not st.args else "C14 C15", "argv", "%s got arguments %s instead of %s"
                         % (st.label, short(i.argv), short(want)), job)
        if "cwd" in st.node:
            if i.cwd != st.node["cwd"]:
                self.bad("C11 C14", "cwd", "%s started in %s instead of %s" % (st.label, i.cwd, st.node["cwd"]), job)
        if "exports" in st.node:
            want = {a.encode(): b.encode() for a, b in st.node["exports"].items()}
            if i.env != want:
                self.bad("C14", "env", "%s started with variables %s instead of %s" % (st.label, short(i.env),
                                                                                        short(want)), job)
        for fd, d in sorted(i.again):
            if d.startswith("pipe"):
                self.bad("C01 C08", "again", "%s would have had to wait at its descriptor %d, %s, but got an error instead: it is "
                         "in non-blocking mode" % (st.label, fd, d), job)
        self.topology(job, st)
        # output of a program that read the files given as arguments
        if st.args and i.status == 0 and any(o[0] in ("argin", "argall", "arghead") for o in spec.get("do", ())):
            args = {}
            for n, kind, pp in st.args:
                if kind == "r":
                    x = [self.writes_of(job, s, fd) for s, fd in pp.writers]
                    if len(x) != 1 or x[0] is None or not x[0][1]:
                        args = None
                        break
                    args[n] = x[0][0]
            if args is not None:
                try:
                    want = programs.model(spec, bytes(i.read.get(0, b"")) if i.fds.get(0) else b"", args)[0]
                except KeyError:
                    want = None
                got = bytes(i.wobj.get(i.fds.get(1), b""))
                if want is not None and got != want and not i.broken and i.fds.get(1) != i.fds.get(2):
                    self.bad("C15 C01", "arg-data", "%s: from its argument files: %s" % (st.label, diff(got, want)), job)

    def envstate(self, n):
        return None

    def argv(self, st, i):
        node = st.node
        if node["t"] != "prog" or node.get("bin"):
            return None
        want = [b"prog", st.label.encode()]
        n = 1
        pend = []
        for x in node.get("args", ()):
            n += 1
            if isinstance(x, str):
                want.append(x.encode("utf-8"))
            elif "raw" in x:
                want.append(x["raw"].encode("utf-8"))
            elif "glob" in x:
                # in any order
                m = len(x["want"])
                got = sorted(i.argv[n:n + m])
                if got == sorted(y.encode() for y in x["want"]):
                    want += i.argv[n:n + m]
                else:
                    want += [y.encode() for y in x["want"]]
                n += m - 1
            elif "dict" in x:
                n -= 1
                for name, v in x["dict"].items():
                    n += 1
                    want.append(("--%s" % name.replace("_", "-") + ("" if v is True else "=%s" % v)).encode("utf-8"))
            elif "bad" in x:
                return None
            elif "p" in x:
                got = i.argv[n] if n < len(i.argv) else b""
                pre = b"--%s=" % x["opt"].replace("_", "-").encode() if "opt" in x else b""
                if not got.startswith(pre) or self.argfd(i, n) is None:
                    want.append(pre + b"<a descriptor's file name>")
                else:
                    want.append(got)
            elif x["v"] is True:
                want.append(b"--%s" % x["opt"].replace("_", "-").encode())
            elif x["v"] is False:
                n -= 1
            else:
                want.append(b"--%s=%s" % (x["opt"].replace("_", "-").encode(), str(x["v"]).encode("utf-8")))
        return want

    def topology(self, job, st):
        """Exactly the declared descriptors, connected as declared."""
        i = st.inst
        want = {0, 1, 2}
        for fd in st.fds:
            want.add(fd)
        argfds = []
        for n, kind, pp in st.args:
            fd = self.argfd(i, n)
            if fd is None:
                self.bad("C15 C08", "argfd", "%s: argument %d is no descriptor file: %s" % (st.label, n, short(
                    i.argv[n] if n < len(i.argv) else None)), job)
                return
            argfds.append(fd)
            if fd in want:
                self.bad("C15 C08", "argfd", "%s: argument %d shares descriptor %d" % (st.label, n, fd), job)
            want.add(fd)
        have = set(i.fds)
        if st.node["t"] == "bashsource":
            # and the pipe it reports its variables through
            want |= set(f for f in have if f > 2 and i.fds[f].startswith("pipew:"))
        if st.inner is not None:
            # what the subshell itself was given is the outer check's business
            want = want | set()
        if have != want:
            miss, more = want - have, have - want
            self.bad("C08", "fds", "%s started with descriptors %s; missing %s, extra %s" % (
                st.label, {f: i.fds[f] for f in sorted(have)}, sorted(miss), sorted(more)), job)
        for fd, port in sorted(st.fds.items()):
            if fd in i.fds:
                self.connected(job, st, fd, i.fds[fd], port)
        for n, kind, pp in st.args:
            fd = self.argfd(i, n)
            if fd in i.fds:
                d = i.fds[fd]
                if not d.startswith("piper:" if kind == "r" else "pipew:"):
                    self.bad("C08 C15", "fd", "%s: argument %d is %s" % (st.label, n, d), job)
                else:
                    self.pipe_is(job, st, pp, d)

    def pipe_is(self, job, st, pp, d):
        if [x.label for x in self.plans[job.n].stages].count(st.label) > 1:
            return          # any of several equal stages
        pid = d.split(":")[1]
        key = (job.n, pp.n)
        m = self.__dict__.setdefault("pmap", {})
        inv = self.__dict__.setdefault("pinv", {})
        if m.setdefault(key, pid) != pid:
            self.bad("C08 C01", "wiring", "%s: pipe %s where its partner has pipe %s" % (st.label, pid, m[key]), job)
        elif inv.setdefault(pid, key) != key:
            self.bad("C08 C01 C16", "wiring", "%s: its pipe %s is also used for another connection" % (st.label, pid), job)

    def root_std(self, fd):
        for name, step, fds in self.w.obs.get("fds", ()):
            if name == "start":
                return fds.get(fd, (None,))[0]
        return None

    def connected(self, job, st, fd, d, port):
        kind = port[0]
        ok = True
        props = "C08"
        if kind == "root":
            ok = d == self.root_std(port[1])
        elif kind == "pipe":
            ok = d.startswith("piper:" if Plan.reads(fd, port[1]) else "pipew:")
            if fd == 0 and not port[1].writers and d.startswith("null:"):
                return          # what is before it writes to somewhere else: nothing to read either way
            if ok:
                self.pipe_is(job, st, port[1], d)
                return
        elif kind == "any":
            return
        elif kind in ("string", "tmp"):
            ok = d.startswith("file:/tmp/")
            props = "C08 C10"
        elif kind == "file":
            path = port[1]
            if not path.startswith("/"):
                path = self.base(st, path)
            kk = {"/dev/null": "null", "/dev/full": "full", "/dev/tty": "tty"}.get(path, "file")
            ok = path is None or d == "%s:%s" % (kk, path)
            props = "C08 C09"
            if ok and kk == "file":
                self.flags(job, st, fd, port[2])
        elif kind == "ufd":
            ok = d == self.root_std(self.w.user_fds[port[1]])
            props = "C08 C09"
        elif kind == "fd":
            # another of its own descriptors, or one of the caller's
            if st.inner is not None:
                return          # (the subshell's own)
            if port[1] in (0, 1, 2):
                tgt = st.fds.get(port[1])
                if tgt is not None and port[1] in st.inst.fds:
                    ok = d in (st.inst.fds[port[1]], self.root_std(port[1]))
                props = "C08 C09"
            else:
                return
        if not ok:
            self.bad(props, "fd", "%s: descriptor %d is %s, declared %s (it has %s)" % (st.label, fd, d, self.pname(port), st.inst.fds), job)

    def pname(self, port):
        if port[0] == "pipe":
            return repr(port[1])
        return str(port[:2])

    def base(self, st, path):
        return None

    def flags(self, job, st, fd, node):
        import os
        fl = node.get("flag")
        if fl is None:
            fl = os.O_RDONLY if fd == 0 else os.O_WRONLY | os.O_CREAT
        have = st.inst.fdflags.get(fd, 0)
        for bit, name in ((3, "access mode"), (os.O_APPEND, "O_APPEND"), (os.O_NONBLOCK, "O_NONBLOCK")):
            if have & bit != fl & bit:
                self.bad("C09", "flags", "%s: descriptor %d opened with %s %#x, declared %#x" % (
                    st.label, fd, name, have & bit, fl & bit), job)

    # ------------------------------------------------------------------ redirections
    def redirects(self, job):
        """Files written to hold what was written; see also the end state checks of the profile."""

    # ------------------------------------------------------------------ results and verdicts
    def result(self, job):
        name = type(job.exc).__name__ if job.exc is not None else None
        ok = (None, "PipelineFailed", "PipelineSuspended", "PipelineInterrupted")
        if job.spec.get("may_int") and name == "KeyboardInterrupt":
            return
        if name == "UnicodeDecodeError" and job.mode in ("aiter", "list", "str"):
            # there may be no text to give: a killed program can have stopped in the middle of a character
            pp = self.plans[job.n].caller
            ws = [self.writes_of(job, st, fd) for st, fd in pp.writers] if pp is not None else []
            if len(ws) > 1 or any(x is None or dec(x[0]) is None for x in ws):
                return
        if name not in ok and not job.spec.get("may_raise"):
            props = self.prof.get("raise", [])
            self.bad(props, "unexpected-exception", "%s ended with %s %s" % (job.mode, name, job.info.get("msg")), job)

    def stage_state(self, job, st):
        """What really became of a stage: ok, failed (with code), open (still running), unknown."""
        if st.kind in ("prog", "sub"):
            c = st.proc
            if c is None:
                return "unknown", None
            if c.state not in ("zombie", "dead"):
                return "open", None
            code = (c.status & 0x7f) or (c.status >> 8)
            return ("failed" if c.status else "ok"), code
        r = st.rec
        if r is None:
            return "unknown", None
        if r["raised"]:
            return "failed", None
        return "ok" if r["end"] is not None else "open", None

    def waits(self, job):
        for v in job.waits:
            self.wait(job, v)

    def wait(self, job, v):
        exc = v["exc"]
        if "text_error" in v:
            self.bad("C05", "no-text", "the error %s cannot be shown: %s" % (exc, v["text_error"]), job)
        if exc not in (None, "PipelineFailed"):
            return
        if job.spec.get("consume") is not None and exc is None:
            return
        if v.get("alive"):
            self.bad("C04", "early", "wait (%s) ended with %s while %s is still running" % (job.mode, exc or "success",
                                                                                        v["alive"]), job)
            return
        if v["alive"] is None:
            return
        items = v.get("items") or []
        truth = v.get("truth") or []
        fails, vague = {}, set()
        for t in truth:
            if t["kind"] == "proc":
                if t["status"]:
                    fails[t["i"]] = t["code"]
                elif t["status"] is None:
                    vague.add(t["i"])
            elif t["kind"] == "fn":
                if t["raised"]:
                    fails[t["i"]] = None
                elif self.fn_vague(job, t):
                    vague.add(t["i"])
        listed = {c.serial for c in [x["c"] for x in job.items if x["kind"] == "proc"] if c is not None}
        missing = [c for c in self.w.procs_of(job) if c.serial not in listed and c.status]
        if exc is None:
            real = [i for i in fails if i not in vague]
            if real or missing:
                self.bad("C05", "missed-failure", "reported as success although %s failed" % (
                    [self.name(job, i) for i in real] + ["%s#%d" % (c.label, c.serial) for c in missing]), job)
            return
        if "failed_error" in v:
            self.bad("C05", "failed-list", "failed_processes raised %s" % v["failed_error"], job)
            return
        if not fails and not vague and not missing:
            self.bad("C05", "false-failure", "reported as failed although nothing failed: %s" % v["failed"], job)
            return
        got = [d["i"] for d in v["failed"]]
        for i in got:
            if i not in fails and i not in vague:
                self.bad("C05", "false-failure", "%s is listed as failed, but ended %s" % (self.name(job, i), [
                    t for t in truth if t["i"] == i]), job)
        for i in fails:
            if i not in got and i not in vague:
                self.bad("C05", "missed-failure", "%s failed, but is not in the list of failed items" % self.name(job, i),
                         job)
        if len(set(got)) != len(got):
            self.bad("C05", "failed-list", "an item is listed twice: %s" % got, job)
        for d in v["failed"]:
            if d["i"] in fails and fails[d["i"]] is not None and d.get("code") != fails[d["i"]]:
                self.bad("C05 C06", "code", "%s reported with status %r, ended with %r" % (
                    self.name(job, d["i"]), d.get("code"), fails[d["i"]]), job)

    def fn_vague(self, job, t):
        """A Python stage whose reader went away may count as failed or not."""
        return bool(self.k.root_werr)

    def name(self, job, i):
        x = job.items[i]
        if x["kind"] == "proc":
            return "%s#%s" % (x["c"].label, x["c"].serial) if x["c"] is not None else "process %s" % x["pid"]
        return "%s %s" % (x["kind"], x.get("label"))

    # ------------------------------------------------------------------ children
    def escapes(self):
        for step, serial, label, where, what, msg in self.w.escapes:
            self.bad("C11", "escape", "the forked child #%s %s in the caller's code at %r (%s)" % (
                serial, what, where, msg[:200]))

    def kills(self):
        k = self.k
        own = {}
        for st, pid, serial, parent, c in self.w.forks:
            if parent == k.root.serial:
                own[serial] = c
        for step, sender, pid, sig, target, kind, state in k.kill_log:
            if sender != k.root.serial:
                continue
            if sig == 0:
                continue
            if target is None:
                self.bad("C13", "kill-reaped", "signal %d sent to process id %d, which has ended and been reaped" % (
                    sig, pid))
            elif target not in own:
                self.bad("C13", "kill-foreign", "signal %d sent to process id %d, which is %s and not a child" % (
                    sig, pid, kind))
            elif own[target].job is None:
                self.bad("C13", "kill-other", "signal %d sent to a child that belongs to no pipeline" % sig)
        for op in self.w.obs.get("ops", ()):
            job = self.w.jobs[op["job"]]
            mine = {c.serial for c in self.w.procs_of(job)}
            for step, sender, pid, sig, target, kind, state in op["kills"]:
                if sender == k.root.serial and target is not None and target in own and target not in mine:
                    self.bad("C13", "kill-other", "%s of job %d signalled process #%d of another pipeline" % (
                        op["op"], job.n, target))

    def blocking(self):
        for step, name, arg in self.k.root_block_ops:
            if name in ("write", "read", "waitpid", "poll"):
                self.bad("C21", "blocked", "at step %d the shell itself blocked in %s(%r)" % (step, name, arg))
                break

    # ------------------------------------------------------------------ at the end
    def final(self):
        w, k = self.w, self.k
        snaps = w.obs.get("fds", ())
        base = None
        for name, step, fds in snaps:
            if name == "start":
                base = fds
                continue
            if base is None or name.startswith("info"):
                continue
            if name.startswith("base"):
                base = fds
                continue
            if fds != base:
                more = {f: fds[f][0] for f in fds if f not in base}
                less = {f: base[f][0] for f in base if f not in fds}
                other = {f: (base[f][0], fds[f][0]) for f in fds if f in base and fds[f] != base[f]}
                if name == "end" and any(j.info.get("final_alive") or j.run is None or j.info.get("final_running")
                                         or j.spec.get("leaky") for j in w.jobs):
                    if not less and not other:
                        continue
                self.bad(["C07"] + self.prof.get("leak", []), "fd-leak",
                         "descriptors of the shell at %r: extra %s, missing %s, changed %s" % (name, more, less, other))
                break
        if w.obs.get("zombies"):
            self.bad("C06", "zombie", "children left unreaped: %s" % w.obs["zombies"])
        for serial, step in sorted(w.k.idle_zombies.items()):
            # nothing could run, and the event loop waited for something else to happen
            c = [c for st, pid, s, parent, c in w.forks if s == serial]
            if c and c[0].job is not None:
                self.bad(["C06", "C04"], "late", "%s#%d had ended, but was not reaped when the event loop ran idle at step %d"
                         % (c[0].label, serial, step), w.jobs[c[0].job])
                break
        for job in w.jobs:
            if job.items is None or job.n not in self.plans:
                continue
            self.ended(job)
        self.joblists()
        self.tempfiles()
        if "root_cwd" in w.obs and "root_cwd" in self.prof and w.obs["root_cwd"] != self.prof["root_cwd"]:
            self.bad("C14", "root-cwd", "the shell's own directory is %s instead of %s" % (w.obs["root_cwd"],
                                                                                       self.prof["root_cwd"]))
        for p in w.obs.get("cdbad", ()):
            self.bad("C14", "cd-bad", "changing the directory to %s, which is not possible, succeeded" % p)
        for d in w.obs.get("pokes", ()):
            self.poke(d)
        for d in w.obs.get("shown", ()):
            if not self.shown(d):
                break
        for d in w.obs.get("inspected", ()):
            if not self.inspected(d):
                break

    def ended(self, job):
        alive = job.info.get("final_alive")
        running = job.info.get("final_running")
        if alive is None:
            return
        if not alive and running:
            self.bad("C04 C06", "never-ends", "every part has ended, but the pipeline still counts as running: %s" % [
                d for d in job.info["final_items"] if d.get("running")], job)
        if alive and not running:
            self.bad("C04", "ends-early", "counts as ended while %s runs" % alive, job)
        for d, t in zip(job.info.get("final_items", ()), job.info.get("final_truth", ())):
            if t["kind"] != "proc" or t["status"] is None:
                continue
            x = job.items[t["i"]]
            if x["c"] is None or x["c"].state != "dead":
                continue
            if d["running"] is not False:
                self.bad("C06 C04", "status", "%s has ended and been reaped, but counts as running" % self.name(
                    job, t["i"]), job)
            elif d["code"] != t["code"]:
                self.bad("C06", "status", "%s ended with status %r, recorded %r" % (self.name(job, t["i"]), t["code"],
                                                                                   d["code"]), job)
            elif d["failed"] is not bool(t["status"]):
                self.bad("C05 C06", "failed", "%s ended with wait status %#x, is_failed is %r" % (
                    self.name(job, t["i"]), t["status"], d["failed"]), job)
        self.contents(job)

    def contents(self, job):
        """Captured output."""
        if job.info.get("final_running") or self.w.obs.get("starved"):
            return
        for x, content in zip(job.items, job.info.get("content", ())):
            if x["kind"] != "proc" or x["c"] is None or x["c"].inst is None:
                continue
            st = None
            for s in self.plans[job.n].stages:
                if s.proc is x["c"]:
                    st = s
            if st is None or st.kind != "prog":
                continue
            shared = any(s.argsub for s in self.plans[job.n].stages)
            for fd, port in st.fds.items():
                if port not in (("string",), ("any", True)) or fd not in st.inst.fds:
                    continue
                raw = bytes(st.inst.wobj.get(st.inst.fds[fd], b""))
                if shared:
                    # several programs can share one file
                    made = self.k.made.get(st.inst.fds[fd].split(":", 1)[1])
                    if made is None:
                        continue
                    raw = bytes(made.wlog)
                got = None if content is None else content.get(str(fd))
                if got is None:
                    self.bad("C10", "no-capture", "nothing captured for descriptor %d of %s (wrote %s)" % (
                        fd, st.label, short(raw)), job)
                    continue
                if not self.text_of(got, raw):
                    self.bad("C10", "capture", "captured from descriptor %d of %s: %s, written: %s" % (
                        fd, st.label, short(got), short(raw)), job)
                    continue
                for v in job.waits:
                    if v["exc"] == "PipelineFailed" and "text" in v and any(
                            d["i"] is not None and job.items[d["i"]] is x for d in v["failed"]) \
                            and isinstance(got, str) and got not in v["text"]:
                        self.bad("C05", "text", "%s failed, but the error shown lacks what was captured from its "
                                 "descriptor %d: %s" % (st.label, fd, short(got)), job)
                        return

    def text_of(self, got, raw):
        if isinstance(got, bytes):
            return got == raw
        try:
            return got == raw.decode("utf-8")
        except UnicodeDecodeError:
            return any(got == raw.decode("utf-8", e) for e in ("replace", "surrogateescape", "backslashreplace")) or got == raw.decode("latin1")

    def tempfiles(self):
        w = self.w
        if any(j.info.get("final_alive") or j.info.get("final_running") or j.run is None for j in w.jobs):
            if not self.prof.get("tmp_always"):
                return
        keep = set()
        extra = 0
        for job in w.jobs:
            if job.n not in self.plans:
                continue
            if job.run is not None and not job.info.get("cleaned"):
                # of stages that never got to be the program, nobody knows which file it is
                extra += sum(1 for st in self.plans[job.n].stages for port in st.fds.values()
                             if port[0] == "tmp" and st.inst is None)
            for st in self.plans[job.n].stages:
                for fd, port in st.fds.items():
                    # (of a pipeline that could not be started nothing is left, see below)
                    if port[0] == "tmp" and job.run is not None and st.inst is not None and fd in st.inst.fds:
                        path = st.inst.fds[fd].split(":", 1)[1]
                        keep.add(path)
                        raw = bytes(st.inst.wobj.get(st.inst.fds[fd], b""))
                        cleaned = job.info.get("cleaned")
                        if cleaned:
                            if path in self.k.fs:
                                self.bad("C10", "tmp-not-removed", "%s still there after remove_output_files" % path, job)
                        elif path not in self.k.fs:
                            self.bad("C10", "tmp-gone", "the temporary file %s of %s is gone" % (path, st.label), job)
                        elif bytes(self.k.fs[path].data) != raw:
                            self.bad("C10", "tmp-data", "temporary file of %s: %s" % (st.label, diff(
                                bytes(self.k.fs[path].data), raw)), job)
        left = [p for p in w.obs.get("tmp", ()) if p not in keep and p not in self.sc.get("files", {})]
        if len(left) > extra and not self.prof.get("tmp_ok"):
            self.bad(["C10"] + self.prof.get("leak", []), "tmp-left", "temporary files left behind: %s" % left)

    def joblists(self):
        w = self.w
        for o in w.obs.get("joblist", ()):
            have = o["list"]
            if o["name"].startswith("info"):
                continue
            for n in have:
                if n is not None and have.count(n) > 1:
                    self.bad("C23", "joblist", "job %s is listed more than once: %s" % (n, have))
                    return
            known = set(o["known"])
            mine = [n for n in have if n is not None]
            for n in mine:
                if n in o["over"]:
                    self.bad("C23", "joblist", "job %d has ended, but is still in the list of running pipelines at step "
                             "%d (%s)" % (n, o["step"], o["name"]))
                    return
            for n in o["alive"]:
                if n not in mine:
                    self.bad("C23", "joblist", "job %d is running, but not in the list of running pipelines at step %d "
                             "(%s)" % (n, o["step"], o["name"]))
                    return
            starts = [w.jobs[n].start for n in mine]
            if starts != sorted(starts):
                self.bad("C23", "joblist", "not in start order: %s" % mine)
                return

    def poke(self, d):
        """Items inspected while the pipeline runs."""
        if "error" in d:
            self.bad("C05", "inspect", "looking at a running pipeline raised %s" % d["error"])
            return
        for it, a, b in zip(d["items"], d["truth"], d["truth2"]):
            if a["kind"] == "proc" and b["status"] is None:
                if it["failed"] is not False:
                    self.bad("C05", "poke", "item %s has not ended (%s), is_failed is %r" % (it["i"], b["state"],
                                                                                        it["failed"]))
                if isinstance(it.get("code"), str):
                    self.bad("C05", "poke", "item %s has not ended, its exit_code raises %s" % (it["i"], it["code"]))
                if it["running"] is not True:
                    self.bad("C04 C05", "poke", "item %s has not ended, is_running is %r" % (it["i"], it["running"]))
                if it["i"] in d.get("failed", ()):
                    self.bad("C05", "poke", "item %s has not ended (%s), but is in failed_processes" % (it["i"],
                                                                                                 b["state"]))

    def shown(self, d):
        """Looking at something that has been run, or is not to be run, does nothing."""
        msg = None
        if "error" in d:
            msg = "raised %s" % d["error"][:300]
        elif d["changed"]:
            msg = "changed the %s" % ", ".join(d["changed"])
        elif d["labels"] is not None:
            miss = [n for n in d["labels"] if n not in d["text"]]
            if miss:
                msg = "gave %r, in which %s are missing" % (d["text"][:200], miss)
        elif not isinstance(d["text"], str) or not d["text"]:
            msg = "gave %r" % (d["text"],)
        if msg:
            self.bad("C28", "shown", "at step %d: showing a thing (%s) %s" % (d["step"], d["what"], msg),
                     self.w.jobs[d["job"]] if d["job"] is not None else None)
        return not msg

    def inspected(self, d):
        """What the pipeline told about its parts when the shell had handled all that had happened."""
        job = self.w.jobs[d["job"]]

        def bad(code, msg):
            self.bad("C27", code, "at step %d: %s" % (d["step"], msg), job)
            return False
        if "error" in d:
            return bad("inspect", "looking at the running pipeline raised %s" % d["error"])
        if d["ran"]:
            return bad("inspect", "looking at the running pipeline started %d processes" % d["ran"])
        if sorted(-1 if i is None else i for i in d["listed"]) != list(range(len(d["items"]))):
            return bad("inspect", "lists the items %s of %d" % (d["listed"], len(d["items"])))
        if d["unlisted"]:
            return bad("inspect", "%s was started, but is not listed" % d["unlisted"])
        ended = 0
        for it, t in zip(d["items"], d["truth"]):
            what = "item %s (%s, %s)" % (it["i"], it.get("inst") or it.get("label"), t.get("state", t["kind"]))
            if t["kind"] == "fn":
                if it["running"] is False and not t["ended"] and not self.k.root_werr:
                    return bad("inspect", "%s has not ended, but does not count as running" % what)
                if isinstance(it["label"], str) and "fn_" in it["cmd"] and it["label"] not in it["cmd"]:
                    return bad("inspect", "%s belongs to %s" % (what, it["cmd"][:200]))
                continue
            if t["kind"] != "proc" or t["state"] == "?":
                continue
            if it["pid"][0] != it["pid"][1]:
                return bad("inspect", "%s has the process id %s, not %s" % ((what,) + it["pid"][::-1]))
            if it["inst"] and it["inst"] not in it["cmd"]:
                return bad("inspect", "%s belongs to %s" % (what, it["cmd"][:200]))
            ev = it["event"]
            if ev is not None and (ev["pid"] != it["pid"][1] or ev["signo"] != 17):
                return bad("event", "the last event of %s is %s" % (what, ev))
            if t["status"] is None:
                if it["running"] is not True or it["i"] not in d["alive"]:
                    return bad("inspect", "%s has not ended, but does not count as running" % what)
                if it["failed"] is not False or it["i"] in d["failed"]:
                    return bad("inspect", "%s has not ended, but counts as failed" % what)
                if it["code"] is not None:
                    return bad("inspect", "%s has not ended, its exit code is %s" % (what, it["code"]))
                if t["state"] == "stop":
                    if ev is None or ev["code"] != 5 or ev["status"] != it["stopsig"]:
                        return bad("event", "%s is stopped by signal %s, its last event is %s" % (what, it["stopsig"], ev))
                elif ev is not None and ev["code"] != 6:
                    return bad("event", "%s runs, its last event is %s" % (what, ev))
            else:
                ended += 1
                st = t["status"]
                want = (1, st >> 8) if not st & 127 else (3 if st & 128 else 2, st & 127)
                if it["running"] is not False or it["i"] in d["alive"]:
                    return bad("inspect", "%s has ended, but counts as running" % what)
                if ev is None or (ev["code"], ev["status"]) != want:
                    return bad("event", "%s ended with status 0x%x, its last event is %s" % (what, st, ev))
                if it["code"] != want[1]:
                    return bad("inspect", "%s ended with status 0x%x, its exit code is %s" % (what, st, it["code"]))
                if it["failed"] is not (st != 0) or (it["i"] in d["failed"]) is not (st != 0):
                    return bad("inspect", "%s ended with status 0x%x, is_failed is %s" % (what, st, it["failed"]))
        if d["is_running"] is not bool(d["alive"]) or d["is_failed"] is not bool(d["failed"]):
            return bad("inspect", "running %s, failed %s, but is_running %s, is_failed %s" % (
                d["alive"], d["failed"], d["is_running"], d["is_failed"]))
        return True

    def order(self):
        """Checks the scenario itself asks for (sc["expect"])."""
        from . import expect
        for e in self.sc.get("expect", ()):
            getattr(expect, "e_" + e["e"])(self, e)



def judge(w):
    return Judge(w).run()

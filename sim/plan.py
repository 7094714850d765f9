"""What a pipeline expression declares: its stages and how they are connected.  Independent of the code under test."""
from .programs import gen_data


CALLER_MODES = ("bytes", "str", "list", "aiter", "iterbytes", "suspended")


class Stage(object):
    def __init__(self, kind, label, node, env):
        self.kind = kind          # prog fn it sub none
        self.label = label
        self.node = node
        self.env = env
        self.fds = {}             # fd -> port
        self.args = []            # (argv index, "r" the program reads | "w" it writes, PP)
        self.inner = None         # the subshell stage it runs in
        self.n = None
        self.inst = None          # filled in by the oracles
        self.proc = None
        self.rec = None
        self.spec = None
        self.argsub = False       # part of an argument pipeline
        self.item = None

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.label)


class PP(object):
    """A declared pipe."""

    def __init__(self, n):
        self.n = n
        self.writers = []         # (stage, fd | "out")
        self.reader = []          # (stage, fd | "in" | argv index), or "caller"
        self.grp = False
        self.vague = False        # cannot tell who writes to it
        self.ext = None           # (fd, node): its other end is handed to the caller

    def __repr__(self):
        return "<pipe %s>" % self.n


class Plan(object):
    def __init__(self, sc, ast, caller=False, over=()):
        self.sc = sc
        self.stages = []
        self.pipes = []
        base = {0: ("root", 0), 1: ("root", 1), 2: ("string",)}
        for node in over:
            # default redirections of the environment, then those given to run()
            base[self.FD.get(node["fd"], node["fd"])] = self.port(node)
        self.exts = []
        self.caller = None
        if caller:
            pp = self.pp()
            pp.reader.append("caller")
            self.caller = pp
            base[1] = ("pipe", pp)
        self.flat(ast, base, 0, None, False)
        for i, st in enumerate(self.stages):
            st.n = i
            for fd, port in st.fds.items():
                if port[0] == "pipe":
                    if self.reads(fd, port[1]):
                        port[1].reader.append((st, fd))
                    else:
                        port[1].writers.append((st, fd))

    def pp(self):
        p = PP(len(self.pipes))
        self.pipes.append(p)
        return p

    @classmethod
    def of(cls, sc, spec):
        return cls(sc, spec["p"], spec["mode"] in CALLER_MODES, list(
            (sc.get("envs", [{}]) + [{}] * 9)[spec.get("env", 0)].get("redirs", ())) + list(spec.get("redirs", ())))

    @staticmethod
    def reads(fd, pp):
        """Whether a stage with this pipe there reads from it"""
        return fd == 0 if pp.ext is None else not pp.ext[1].get("flag", int(fd != 0)) & 1

    def ext(self, fds, label=None):
        """Redirections to PIPE: the pipes are made for whatever it is that is run"""
        out = {}
        for fd, port in sorted(fds.items()):
            if port[0] == "PIPE":
                pp = self.pp()
                pp.ext = (fd, port[1])
                pp.label = label
                self.exts.append(pp)
                st = Stage("ext", "the caller", port[1], None)
                st.n = pp.n
                (pp.writers if self.reads(fd, pp) else pp.reader).append((st, "ext"))
                port = ("pipe", pp)
            out[fd] = port
        return out

    def port(self, node):
        to = node["to"]
        if to == "PIPE":
            return ("PIPE", node)
        if to == "STRING":
            return ("string",)
        if to == "TMP":
            return ("tmp",)
        if to is None:
            return ("file", "/dev/null", node)
        if isinstance(to, int):
            return ("fd", to)
        if to.startswith("@"):
            return ("ufd", int(to[1:]))
        return ("file", to, node)

    FD = {"stdin": 0, "stdout": 1, "stderr": 2}

    def flat(self, a, fds, env, inner, argsub):
        t = a["t"]
        if "env" in a:
            env = a["env"]
        if t == "ref":
            return self.flat(self.sc["shared"][a["id"]], fds, env, inner, argsub)
        if t == "pipe":
            pp = self.pp()
            self.flat(a["a"], dict(fds, **{}) if False else {**fds, 1: ("pipe", pp)}, env, inner, argsub)
            self.flat(a["b"], {**fds, 0: ("pipe", pp)}, env, inner, argsub)
            return
        if t == "grp":
            fds = self.ext(fds)
            self.flat(a["a"], fds, env, inner, argsub)
            self.flat(a["b"], fds, env, inner, argsub)
            return
        if t == "red":
            self.inside(a, inner)
            return self.flat(a["p"], {**fds, self.FD.get(a["fd"], a["fd"]): self.port(a)}, env, inner, argsub)
        if t in ("cd", "bg", "fg"):
            return
        if t == "prog":
            label = a["l"]
            st = Stage("prog", label, a, env)
            st.spec = self.sc["specs"].get(label, {})
            st.fds = dict(fds)
            for r in a.get("redirs", ()):
                st.fds[self.FD.get(r["fd"], r["fd"])] = self.port(r)
                self.inside(r, inner)
            st.fds = self.ext(st.fds, label)
            subs = []
            i = 1
            for x in a.get("args", ()):
                i += 1
                if isinstance(x, dict) and "p" in x:
                    pp = self.pp()
                    kind = self.argkind(x["p"])
                    # what an argument's programs have for standard error is captured if the command's own is
                    err = ("any", st.fds.get(2) in (("string",), ("any", True)))
                    if kind == "w":
                        sub = {0: ("pipe", pp), 1: st.fds[1], 2: err}
                        pp.writers.append((st, ("arg", i)))
                    else:
                        sub = {0: st.fds[0], 1: ("pipe", pp), 2: err}
                        pp.reader.append((st, ("arg", i)))
                    st.args.append((i, kind, pp))
                    self.flat(x["p"], sub, env, inner, True)
            st.inner = inner
            st.argsub = argsub
            self.stages.append(st)
            return
        if t in ("fn", "it"):
            st = Stage(t, a["l"], a, env)
            st.spec = self.sc["specs"][a["l"]]
            fds = self.ext(fds, a["l"])
            st.fds = {0: fds[0], 1: fds[1]} if t == "fn" else {1: fds[1]}
            st.inner = inner
            st.argsub = argsub
            self.stages.append(st)
            return
        if t in ("sub", "remote"):
            st = Stage("sub", "subshell" if t == "sub" else "ssh", a, env)
            fds = self.ext(fds, "<sub>")
            for pp in self.exts:
                if pp.label == "<sub>" and pp.ext[0] == 2:
                    pp.vague = True
            st.fds = {}
            st.own = dict(fds)
            st.inner = inner
            self.stages.append(st)
            # (a pipeline run there has its environment's default for standard error)
            fds = {**fds, 2: fds[2] if fds[2] == ("string",) else ("any", False)}
            e = self.envof(a["p"])
            for r in (self.sc.get("envs", [{}]) + [{}] * 9)[env if e is None else e].get("redirs", ()):
                fds[self.FD.get(r["fd"], r["fd"])] = self.port(r)
            return self.flat(a["p"], fds, env, st, argsub)
        if t == "bashsource":
            st = Stage("prog", "bash", a, env)
            st.spec = self.sc["specs"].get("bash", {})
            st.fds = dict(fds)
            st.inner = inner
            self.stages.append(st)
            return
        raise ValueError(t)

    def envof(self, a):
        """The environment a pipeline that is run as a whole gets its defaults from."""
        if "env" in a:
            return a["env"]
        for k in ("p", "a", "b"):
            if k in a and a["t"] not in ("prog", "sub", "remote"):
                e = self.envof(a[k])
                if e is not None:
                    return e
        return None

    def inside(self, r, inner):
        """A redirect to a number, within a subshell: a descriptor of that one, which can be any pipe it has."""
        if inner is not None and isinstance(r["to"], int):
            for port in inner.own.values():
                if port[0] == "pipe":
                    port[1].vague = True

    def argkind(self, p):
        """a function is written to, everything else is read from"""
        return "w" if p["t"] == "fn" else "r"


# ------------------------------------------------------------------------------ what Python stages have to write

def item_bytes(it):
    t = it[0]
    if t == "n":
        return None
    if t in ("s", "o"):
        return it[1].encode("utf-8")
    if t == "b":
        return it[1].encode("latin1")
    if t == "i":
        return str(it[1]).encode()
    if t == "f":
        return str(float(it[1])).encode()
    if t == "big":
        return gen_data({"lines": [it[1]], "tag": it[2], "nl": False, "enc": it[3] if len(it) > 3 else "ascii"})
    if t == "bigs":
        return gen_data({"lines": [it[1]], "tag": it[2], "nl": False, "enc": it[3] if len(it) > 3 else "utf8"})
    if t == "c":
        return it[1].encode("utf-8")
    raise ValueError(t)


def split_lines(data):
    ls = data.split(b"\n")
    if ls[-1] == b"":
        ls.pop()
    return ls


def dec(b):
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return None


def infinite(spec, n):
    items = [item_bytes(i) for i in spec.get("items", ())]
    out = [i for i in items if i is not None]
    size = sum(len(i) + 1 for i in out)
    j = 0
    while size < n:
        s = b"inf%d%s" % (j, b"z" * spec.get("inflen", 20))
        out.append(s)
        size += len(s) + 1
        j += 1
    return out


def fn_output(spec, lines, ended):
    """(bytes the stage has to write given that it saw these lines, whether it is all of it).
    ended: it saw the end of its input."""
    kind = spec.get("fn") or spec.get("it")
    items = [item_bytes(i) for i in spec.get("items", ())]

    def conv(line):
        return (line.swapcase() if spec.get("swap") else line).encode("utf-8")
    ra = spec.get("raise_at")
    if kind == "map":
        out = []
        for n, line in enumerate(lines):
            if ra == n:
                return out, True
            out.append(conv(line))
        return out, True
    if kind == "collect":
        return [conv(x) for x in lines] if ended else [], True
    if kind == "headn":
        return [conv(x) for x in lines[:spec["n"]]], True
    if kind in ("ignore", "gen", "aiterobj", "aiterable", "list", "tuple", "iter", "iterable"):
        if spec.get("inf"):
            return infinite(spec, 400000), False
        if ra is not None and ra >= 0:
            items = items[:ra]
        return [i for i in items if i is not None], True
    if kind == "sink":
        if ra is not None and (ra == -1 or ra < len(lines)):
            return [], True
        return [b"count%d" % len(lines)] if ended else [], True
    if kind == "quiet":
        return [], True
    if kind in ("coro", "ret"):
        if ra is not None:
            return [], True
        return [i for i in items[:1] if i is not None], True
    raise ValueError(kind)


READS = ("map", "collect", "headn", "sink", "quiet")
READS_ALL = ("map", "collect", "sink", "quiet")

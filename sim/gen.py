"""Random scenarios, one profile per property.  A scenario is plain data; the same seed gives the same scenario."""
import os
import random

from .programs import gen_data
from .plan import item_bytes

WORDS = ("None", "0", "", "\0", "\0\0", " ", "\t", "\r", "\x04", "\x1a", "False", "b''", ".", "\\", "\\n", "\u2028", "\ufeff",
         "\x85", "\x1c", "\x0b", "%s", "{}", "''", "EOF", "\x7f", "\xa0")
EDGE = (0, 1, 2, 3, 511, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193)


class Gen(object):
    def __init__(self, seed):
        self.r = random.Random("scenario:%s" % (seed,))
        self.seed = seed
        self.specs = {}
        self.n = 0
        self.shared = {}
        self.sc = {"seed": seed, "specs": self.specs, "shared": self.shared, "steps": []}

    # ---------------------------------------------------------------- small helpers
    def one(self, *xs):
        return xs[self.r.randrange(len(xs))]

    def p(self, x):
        return self.r.random() < x

    def label(self, pre):
        self.n += 1
        return "%s%d" % (pre, self.n)

    def cfg(self, **kw):
        r = self.r
        c = {"preempt": self.one(0, 1, 1, 2, 2, 2, 3, 4, 5), "policy": r.randrange(5),
             "slots": self.one(1, 2, 3, 16, 16), "limit": 60000}
        if self.p(0.4):
            c["short_read"] = self.one(10, 40, 90)
        if self.p(0.2):
            c["short_write"] = self.one(30, 90)
        if self.p(0.2):
            c["pid_reuse"] = self.one(30, 90)
        if self.p(0.3):
            c["nocore"] = 1
        c.update(kw)
        self.sc["cfg"] = c
        return c

    def fault(self, **kw):
        self.sc["cfg"].setdefault("faults", []).append(kw)

    def noise(self, p=0.3, kids=True):
        """External events that must not matter."""
        if not self.p(p):
            return
        for _ in range(self.one(1, 1, 2, 4)):
            k = self.one("spurious_chld", "stop_kid", "time_jump")
            at = self.r.randrange(1, 900)
            if k == "spurious_chld":
                self.fault(at=at, name=k)
            elif k == "stop_kid" and kids:
                self.fault(at=at, name=k, i=self.r.randrange(4), **{"for": self.one(3, 30, 200)})
            elif k == "time_jump":
                self.fault(at=at, name=k, t=self.one(0.5, 100.0))

    # ---------------------------------------------------------------- data
    def lens(self, big=True, maxtotal=20000):
        k = self.r.random()
        r = self.r
        if k < 0.35:
            ls = [r.randrange(0, 30) for _ in range(r.randrange(0, 14))]
        elif k < 0.6:
            ls = [self.one(*EDGE) for _ in range(r.randrange(1, 5))]
        elif k < 0.8:
            ls = [r.randrange(0, 12) for _ in range(r.randrange(20, 110))]
        elif k < 0.9:
            ls = [self.one(0, 1, 0, 0, 1023) for _ in range(r.randrange(1, 9))]
        elif big:
            ls = [r.randrange(5000, 18000) for _ in range(r.randrange(1, 3))]
        else:
            ls = [r.randrange(0, 3000) for _ in range(r.randrange(1, 5))]
        while sum(ls) > maxtotal:
            ls.pop()
        return ls

    def data(self, enc=None, big=True, nl=None, maxtotal=20000):
        ls = self.lens(big, maxtotal)
        d = {"lines": ls, "tag": self.label("t"),
             "enc": enc or self.one("ascii", "ascii", "utf8", "sep", "ctl", "ws", "crlf", "bom")}
        d["nl"] = self.p(0.75) if nl is None else nl
        if self.p(0.06):
            # nothing but what could be taken for something else
            d["words"] = [self.one(*WORDS) for _ in range(self.one(1, 1, 2, 5))]
            if self.p(0.5):
                d["lines"] = []
        return d

    def chunk(self, data, lines=True):
        size = len(gen_data(data))
        opts = [0, 0, 1024, 4096, 1000]
        if lines:
            opts.append("l")
        if size < 4000:
            opts += [100, 37]
        if size < 600:
            opts += [7, 3]
        if size < 120:
            opts += [1, 1]
        c = self.one(*opts)
        if c == "l" and len(data.get("lines", ())) > 150:
            c = 0
        return c

    def delay(self, p=0.3):
        return self.one(0.0001, 0.001, 0.01) if self.p(p) else 0

    # ---------------------------------------------------------------- stages
    def prog(self, spec, pre="p", **node):
        l = self.label(pre)
        self.specs[l] = spec
        return dict({"t": "prog", "l": l}, **node)

    def source(self, enc=None, data=None, exit=0, err=True, **node):
        d = data or self.data(enc)
        do = [["out", d, self.chunk(d), self.delay(0.25) if len(d.get("lines", ())) < 40 else 0]]
        if err and self.p(0.2):
            do.insert(self.r.randrange(2), ["err", self.data("ascii", maxtotal=3000), 0])
        return self.prog({"do": do, "exit": exit}, "s", **node)

    def filter(self, kinds=None, exit=0, **node):
        k = self.one(*(kinds or ("cat", "cat", "cat", "slurp", "sum")))
        m = self.one(None, None, "swap")
        ch = self.one(0, 0, 1024, 4096, 500, 8192)
        if k in ("cat", "slurp"):
            do = [[k, ch, self.delay(0.3), m]]
        else:
            do = [["drain", ch, self.delay(0.3)], ["sum"]]
        return self.prog({"do": do, "exit": exit}, "c", **node)

    def fn(self, spec, pre="f"):
        l = self.label(pre)
        self.specs[l] = spec
        return {"t": "fn", "l": l}

    def fnfilter(self, kinds=None, **kw):
        k = self.one(*(kinds or ("map", "map", "map", "collect", "sink")))
        s = {"fn": k, "sleep": self.delay(0.25)}
        if k in ("map", "collect"):
            s["swap"] = self.p(0.5)
            if self.p(0.3):
                s["type"] = "bytes"
        if k == "map" and self.p(0.15):
            s["nones"] = True
        if self.p(0.1):
            s["method"] = True
        s.update(kw)
        return self.fn(s)

    tails = ()

    def item(self, size=None):
        k = self.r.random()
        tag = self.label("i")
        if size is None and k < 0.55:
            t = self.one("s", "b", "s", "i", "f", "o", "n", "s")
            if t == "i":
                return ["i", self.r.randrange(-5, 10 ** 9)]
            if t == "f":
                return ["f", self.r.randrange(100) / 8]
            if t == "n":
                return ["n"]
            if self.p(0.06):
                return [t, self.one(*[x for x in WORDS if ord(max(x or " ")) < 128])]
            return [t, tag + self.one("", "", "xyz", " a b", "\t", "e" * 20, *self.tails) if self.p(0.85) else ""]
        n = size or self.one(*EDGE) or 1
        return [self.one("big", "bigs"), n, tag, self.one("ascii", "utf8")]

    def itemlist(self, lo=0, hi=12, maxtotal=25000, size=None):
        out = []
        tot = 0
        for _ in range(self.r.randrange(lo, hi + 1)):
            it = self.item(size)
            b = item_bytes(it)
            tot += len(b) if b else 0
            if tot > maxtotal:
                break
            out.append(it)
        return out

    def producer(self, kinds=None, items=None, sleeps=True, **kw):
        """A Python stage that is a source."""
        k = self.one(*(kinds or ("it:list", "it:tuple", "it:gen", "it:iter", "it:iterable", "fn:ignore", "fn:gen",
                                 "fn:aiterobj", "fn:aiterable", "fn:list", "fn:coro", "fn:ret")))
        items = self.itemlist() if items is None else items
        t, k2 = k.split(":")
        s = {t: k2, "items": items}
        if sleeps and k2 in ("ignore", "aiterobj", "aiterable", "coro"):
            s["sleep"] = self.delay(0.3)
        if k2 in ("coro", "ret"):
            s["items"] = items[:1] or [["s", "x"]]
            if s["items"][0][0] == "c":
                s["items"] = [["s", "y"]]
            if s["items"][0][0] == "n" or k2 == "ret" and s["items"][0][0] in ("s", "b", "big", "bigs"):
                # text is a sequence of characters for an iterating stage
                s["items"] = [["i", 77]]
        s.update(kw)
        l = self.label("g")
        self.specs[l] = s
        return {"t": t, "l": l}

    def pipe(self, stages):
        stages = list(stages)
        while len(stages) > 1:
            i = self.r.randrange(len(stages) - 1) if self.p(0.4) else 0
            a, b = stages[i], stages[i + 1]
            stages[i:i + 2] = [{"t": "pipe", "a": a, "b": b}]
        return stages[0]

    def textsafe(self):
        return self.one("ascii", "utf8", "sep", "ctl")

    def chain(self, n=None, fns=True, binary=True):
        """A linear pipeline; says whether its output is text."""
        n = n or self.one(1, 2, 2, 2, 3, 3, 4)
        anyfn = fns and self.p(0.6)
        out = []
        if n > 1 and fns and self.p(0.3):
            out.append(self.producer())
        else:
            enc = None if anyfn or not binary else self.one(None, "bin")
            out.append(self.source(enc))
        for _ in range(n - 1):
            if anyfn and self.p(0.4):
                out.append(self.fnfilter())
            else:
                out.append(self.filter())
        if not self.ispipe(out):
            out.append(self.filter())
        for st in out:
            if st["t"] == "fn" and self.p(0.12):
                self.specs[st["l"]]["fargs"] = True
        return self.pipe(out), not (binary and not anyfn)

    def ispipe(self, stages):
        return len(stages) > 1 or stages[0]["t"] == "prog"

    def group(self, n=2, once=True):
        """Members running in parallel: short lines, one write each."""
        ms = []
        for i in range(n):
            if i and self.p(0.25):
                ms.append(self.producer(("it:list", "it:gen", "fn:ignore") if once else ("it:list", "fn:ignore"), items=[
                    ["s", "%sn%d" % (self.label("q"), j)] for j in range(self.r.randrange(0, 15))]))
            else:
                d = {"lines": [self.r.randrange(8, 60) for _ in range(self.r.randrange(0, 25))], "tag": self.label("m")}
                ms.append(self.prog({"do": [["out", d, "l", self.delay(0.3)]]}, "m"))
        if ms[0]["t"] != "prog":
            ms.reverse()
        a = ms[0]
        for b in ms[1:]:
            a = {"t": "grp", "a": a, "b": b}
        return a

    # ---------------------------------------------------------------- jobs
    def step(self, **kw):
        self.sc["steps"].append(kw)

    def capture_mode(self, text=True):
        m = self.one("bytes", "list", "iterbytes", "str") if text else self.one("bytes", "iterbytes")
        return m

    def job(self, p, mode, snap=False, **kw):
        s = {"job": dict({"p": p, "mode": mode}, **kw)}
        if snap:
            s["snap"] = True
        self.sc["steps"].append(s)
        return s["job"]

    def async_mode(self, text=True):
        m = self.one("aiter", "iterbytes") if text else "iterbytes"
        d = {"mode": m}
        if self.p(0.5):
            d["slow"] = self.one(0.0005, 0.002, 0.02)
        if self.p(0.12):
            d["tmo"] = self.one(0.0003, 0.001, 0.01)
        if m == "aiter" and self.p(0.5):
            d["run"] = True
        return d

    def exitcode(self):
        return self.one(1, 2, 3, 127, 128, 129, 255, 42, self.r.randrange(1, 256), self.r.randrange(1, 256))

    def lowfds(self, p=0.06):
        """The shell has been started without a standard input or output, as daemons are: what it opens gets their
        numbers. Nothing is run with those, of course."""
        def uses(x):
            if isinstance(x, dict):
                return (type(x.get("to")) is int or isinstance(x.get("to"), str) and x["to"].startswith("@")
                        ) or any(uses(v) for v in x.values())
            return isinstance(x, list) and any(uses(v) for v in x)
        if not self.p(p) or "envs" in self.sc or "stdio" in self.sc or "sub" in self.sc or uses(self.sc.get("steps", [])):
            return
        fds = self.one(["0"], ["0"], ["0", "1"], ["1"])
        # or closed them itself, later
        how = self.one(True, "late", "late")
        self.sc["stdio"] = {fd: {"closed": how} for fd in fds}
        self.sc["envs"] = [{"redirs": [{"fd": {"0": "stdin", "1": "stdout"}[fd], "to": "/dev/null"} for fd in fds],
                            "how": self.one("or", "arg")}]
        for _ in range(self.one(0, 1, 2)):
            # files that are opened right where they belong
            self.job(self.prog({"do": [["err", self.data(maxtotal=300), 0], ["out", self.data(maxtotal=300), 0, 0]]}, "e",
                               redirs=[{"fd": "stdout", "to": "/work/o%d" % self.r.randrange(3)}]),
                     self.one("fg", "fg", "wait"), may_raise=True)

    def exc(self):
        """What a Python stage raises."""
        return {"exc": self.one("cancel", "cancel", "base")} if self.p(0.25) else {}

    def prof(self, own, hang=(), raise_=None, **kw):
        self.sc["prof"] = dict({"own": own, "hang": sorted(set([own] + list(hang))) if hang is not None else [],
                                "raise": [own] if raise_ is None else raise_}, **kw)
        self.sc["manager"] = "asyncio" if self.r.random() < 0.15 else "signalfd"


# -------------------------------------------------------------------------------------------------- profiles

def c01(g):
    g.prof("C01", ["C04"])
    g.cfg()
    for _ in range(g.one(1, 1, 2)):
        k = g.r.random()
        if k < 0.15:
            p, text = g.pipe([g.group()] + ([g.filter(("cat",))] if g.p(0.5) else [])), True
        elif k < 0.25:
            p, text = g.pipe([g.group(), g.fnfilter(("map", "collect"), swap=False)]), True
        elif k < 0.4:
            p, text = rich(g, ("exit0", "exit0", "fn")), False
        elif k < 0.48:
            p, text = g.pipe(shared_pipe(g)), False
        else:
            p, text = g.chain()
        if g.p(0.6):
            g.job(p, g.capture_mode(text))
        else:
            js = [dict({"p": p}, **g.async_mode(text))]
            if g.p(0.3):
                p2, t2 = g.chain()
                js.append(dict({"p": p2}, **g.async_mode(t2)))
            g.step(jobs=js)
    g.noise(0.25)


def c02(g):
    g.prof("C02", ["C04"])
    g.cfg(short_read=g.one(0, 30, 90))
    d = g.data(g.one("utf8", "sep", "ctl", "ascii", "ws", "crlf", "bom"), nl=g.p(0.5))
    if g.p(0.04):
        # longer than any buffer
        d["lines"] = [g.one(3, 60), g.one(65535, 65536, 65537, 70000, 131073), g.one(0, 5)]
    src = g.prog({"do": [["out", d, g.chunk(d), g.delay(0.3) if len(d["lines"]) < 40 else 0]]}, "s")
    k = g.r.random()
    if k < 0.45:
        g.step(jobs=[dict({"p": src, "mode": "aiter"}, **({"slow": g.one(0.0005, 0.005)} if g.p(0.5) else {}),
                          **({"tmo": g.one(0, 0.0002, 0.001, 0.004)} if g.p(0.4) else {}))])
    elif k < 0.55:
        g.job(src, "list")
    elif k < 0.62:
        g.step(jobs=[dict({"p": g.pipe(shared_pipe(g, 1))}, **g.async_mode(False))])
    elif k < 0.9:
        st = [src, g.fnfilter(("map", "collect", "sink"), sleep=g.delay(0.5))]
        if g.p(0.3):
            st.append(g.fnfilter(("map",)))
        g.step(jobs=[dict({"p": g.pipe(st)}, **g.async_mode(True))])
    else:
        # a function given as an argument
        q = g.prog({"do": [["argout", 2, d, g.chunk(d)]]}, "q", args=[{"p": g.fnfilter(("sink", "quiet"))}])
        g.job(q, "fg")
    g.noise(0.2)


def c03(g):
    g.prof("C03", ["C04"])
    if g.p(0.3):
        # text that does not look like one line, or like nothing at all
        g.tails = ("\n", "\n\n", "a\nb", "\r", "\r\n", " ", "\0")
    g.cfg(slots=g.one(1, 1, 2, 16))
    big = g.p(0.35)
    items = g.itemlist(0, 10, 60000, g.one(4097, 5000, 8192, 12000, 30000)) if big else g.itemlist(0, 40, 30000)
    if g.p(0.15):
        items = [["c", g.label("co"), g.one(0, 0.001)] for _ in range(g.r.randrange(1, 6))]
        # (things that can be awaited to get the item)
        src = g.producer(("fn:ignore", "fn:aiterobj", "fn:aiterable", "fn:gen", "fn:list", "it:gen", "it:iter", "it:iterable", "it:list",
                          "it:tuple"), items=items)
    else:
        src = g.producer(items=items)
    ra = None
    if g.p(0.12) and len(items) and g.specs[src["l"]].get("fn", g.specs[src["l"]].get("it")) in ("ignore", "gen"):
        ra = g.specs[src["l"]]["raise_at"] = g.r.randrange(len(items) + 1)
        g.specs[src["l"]].update(g.exc())
    rd = g.prog({"do": [["cat", g.one(0, 1, 50, 1000, 4096) if sum(len(item_bytes(i) or b"") for i in items) < 500 else
                       g.one(0, 1000, 4096), g.delay(0.5), None]]}, "c")
    if g.p(0.3):
        rd["l2"] = 1
        g.specs[rd["l"]]["do"].insert(0, ["sleep", g.one(0.01, 1.0)])
    st = [src, rd]
    if g.p(0.3):
        st.insert(1, g.fnfilter(("map",)))
    g.job(g.pipe(st), g.one("bytes", "list", "iterbytes") if not any("utf8" == "x" for _ in ()) else "bytes")
    g.noise(0.15)


ENDS = ("exit0", "exit0", "exitn", "kill", "core", "raise", "fn")


def ender(g, first, kinds=ENDS):
    """A stage together with the way it ends."""
    k = g.one(*kinds)
    pre = [["sleep", g.one(0.001, 0.01, 0.05)]] if g.p(0.5) else []
    rd = [] if first else [["drain", 0, 0]] if g.p(0.7) else []
    out = [["out", {"lines": [9] * g.one(0, 1, 3), "tag": g.label("o")}, 0, 0]]
    if k == "raise" and not first:
        return g.fn(dict({"fn": g.one("map", "sink"), "raise_at": g.one(-1, 0, 1)}, **g.exc()), "x")
    if k == "fn" and not first:
        return g.fn({"fn": g.one("map", "sink", "quiet"), "sleep": g.delay(0.3)}, "x")
    if k == "raise":
        return g.producer(("it:gen", "fn:gen", "fn:ignore"), items=[["s", "a"], ["s", "b"]], raise_at=g.one(0, 1), **g.exc())
    if k == "fn":
        return g.producer(("it:gen", "it:list", "fn:ignore", "fn:coro"))
    if k == "kill":
        return g.prog({"do": pre + out + rd + [["kill", g.one(9, 15, 1, 10, 12, 14, 13, 2, 16, 26, 27, 29, 30, 34, 64)]]}, "k")
    if k == "core":
        return g.prog({"do": pre + out + rd + [["kill", g.one(6, 11, 3, 4, 7, 8, 5, 24, 25, 31)]]}, "k")
    return g.prog({"do": pre + out + rd, "exit": 0 if k == "exit0" else g.exitcode()}, "e")


def endchain(g, n=None, kinds=ENDS):
    n = n or g.one(1, 1, 2, 2, 3)
    st = [ender(g, True, kinds)]
    for _ in range(n - 1):
        st.append(ender(g, False, kinds))
    if not g.ispipe(st):
        st.append(ender(g, False, ("exit0", "exitn", "kill")))
    return g.pipe(st)


def rich(g, ends=ENDS, n=None, sub=True, reds=True, depth=0, once=True):
    """Pipelines put together from everything there is, ending in all kinds of ways."""
    n = n or g.one(1, 1, 2, 2, 3)
    progs = tuple(e for e in ends if e not in ("fn", "raise")) or ("exit0",)
    st = []
    for i in range(n):
        first, last = i == 0, i == n - 1
        k = g.r.random()
        if k < 0.3:
            s = ender(g, first, ends)
        elif k < 0.5:
            s = argprog(g, stdin=not first and g.p(0.7), once=once)
            spec = g.specs[s["l"]]
            e = g.one(*progs)
            if e == "exitn":
                spec["exit"] = g.exitcode()
            elif e in ("kill", "core"):
                spec["do"].append(["kill", g.one(9, 15, 6, 11)])
            for x in s["args"]:
                x = x.get("p") if isinstance(x, dict) else None
                if x and x["t"] == "prog" and g.p(0.3) and "exitn" in ends:
                    g.specs[x["l"]]["exit"] = g.exitcode()
                elif x and x["t"] == "fn" and g.p(0.2) and "raise" in ends:
                    g.specs[x["l"]].update(g.exc(), raise_at=g.one(-1, 0))
        elif k < 0.65:
            s = ender(g, first, progs)
            for _ in range(g.one(1, 1, 2)):
                if g.p(0.25) and depth < 1:
                    m = rich(g, progs if not first else ends, g.one(1, 2), False, False, depth + 1) if first else endchain(
                        g, g.one(1, 2), progs)
                else:
                    m = ender(g, first, progs if not first else ends)
                s = {"t": "grp", "a": s, "b": m}
        elif k < 0.72 and sub and depth < 1:
            g.sc["sub"] = g.sc.get("sub", 0) + 24
            s = {"t": "sub", "p": endchain(g, g.one(1, 2), ends)}
        elif k < 0.87 and reds:
            s = ender(g, first, progs)
            do = g.specs[s["l"]]["do"]
            if g.p(0.7):
                do.insert(g.r.randrange(len(do) + 1), ["err", g.data("utf8", maxtotal=300), 0])
            s["redirs"] = [{"fd": g.one("stderr", "stderr", "stdout") if not last else g.one("stderr", "stdout"),
                            "to": g.one("/work/ro%d" % g.r.randrange(3), "/dev/null", "STRING", "TMP")}]
            if g.p(0.2):
                s["redirs"] = [{"fd": "stderr", "to": 1}]
        elif first:
            s = g.source(err=False, data=g.data(maxtotal=3000), exit=g.exitcode() if "exitn" in ends and g.p(0.3) else 0)
        else:
            s = earlyreader(g) if "raise" in ends and g.p(0.5) else g.filter()
        st.append(s)
    if not g.ispipe(st) and st[0]["t"] not in ("grp", "sub"):
        st.append(ender(g, False, progs))
    return g.pipe(st)


def some(g, p=0.35, **kw):
    return rich(g, **kw) if g.p(p) else endchain(g)


def c04(g):
    g.prof("C04")
    g.cfg()
    js = []
    k = g.r.random()
    if k < 0.35:
        for _ in range(g.one(1, 2, 3)):
            p = some(g)
            g.job(p, g.one("fg", "pos", "list", "bytes"))
        if g.p(0.5):
            n = len(g.sc["steps"])
            g.job(some(g), "bg")
            if g.p(0.7):
                g.step(op=g.one("settle", "sleep", "poll"), t=0.02)
            if g.p(0.25):
                # the system has no more descriptors until it has ended
                g.step(op="starve")
                g.step(op="wait", job=n)
                g.step(op="feed")
            g.step(op="wait", job=n)
    else:
        for _ in range(g.one(1, 2, 3, 4)):
            j = {"p": some(g), "mode": g.one("wait", "await", "aiter", "awaitrun", "iterbytes")}
            if j["mode"] == "wait" and g.p(0.5):
                j["wait_delay"] = g.one(0, 0.01, 0.2)
            if g.p(0.3):
                j["delay"] = g.one(0.001, 0.02)
            js.append(j)
        g.step(jobs=js)
    if g.p(0.1):
        # the disk fails when captured output is read
        g.fault(who="root", op="fread", n=g.r.randrange(0, 4), errno=g.one(5, 116))
    g.noise(0.5)
    stops(g, 0.3)
    if g.p(0.3):
        g.fault(at=g.r.randrange(50, 500), name="kill_kid", i=g.r.randrange(4), sig=g.one(9, 15, 11, 6))


def stops(g, p):
    """Children that are stopped, perhaps just when others end (and continued much later)."""
    if not g.p(p):
        return
    at = g.r.randrange(30, 400)
    for _ in range(g.one(1, 2, 3)):
        g.fault(at=at + g.one(0, 0, 5, 30), name="stop_kid", i=g.r.randrange(5), **{"for": g.one(200, 1000, 3000)})
    if g.p(0.5):
        g.fault(at=at + g.one(0, 1, 2, 10), name="kill_kid", i=g.r.randrange(5), sig=g.one(9, 15, 11))
    if g.p(0.6):
        # a shell that gets to run rarely finds much at once
        g.sc["cfg"]["preempt"] = g.one(3, 4, 5)


def c05(g):
    g.prof("C05")
    g.cfg()
    js = []
    for _ in range(g.one(1, 1, 2)):
        js.append({"p": rich(g) if g.p(0.35) else endchain(g, g.one(1, 2, 3, 4), ENDS + ("exitn", "kill")),
                   "mode": g.one("wait", "await", "aiter", "awaitrun", "waiters")})
        if js[-1]["mode"] == "waiters":
            js[-1]["waiters"] = [{}]
        if g.p(0.04):
            js[-1]["p"] = endchain(g, g.one(9, 12), ENDS + ("exitn", "kill", "exitn", "kill"))
        if g.p(0.2):
            js[-1]["p"] = {"t": "grp", "a": js[-1]["p"], "b": endchain(g, 1, ("exit0", "exitn", "kill"))}
    ops = []
    for i in range(g.one(0, 1, 3)):
        ops.append({"op": "poke", "job": g.r.randrange(len(js)), "at": g.one(0.0005, 0.001, 0.003, 0.01, 0.03)})
    g.step(jobs=js, ops=ops)
    if g.p(0.5):
        for _ in range(g.one(1, 2)):
            g.fault(at=g.r.randrange(40, 600), name="stop_kid", i=g.r.randrange(4), **{"for": g.one(30, 200, 400)})
    if g.p(0.3):
        g.fault(at=g.r.randrange(50, 500), name="kill_kid", i=g.r.randrange(4), sig=g.one(9, 15, 11, 6, 2))
    g.noise(0.2)


def c06(g):
    g.prof("C06", ["C04"])
    g.cfg(pid_reuse=g.one(0, 0, 50, 90))
    js = []
    ops = []
    for _ in range(g.one(2, 3, 4, 5)):
        j = {"p": rich(g) if g.p(0.2) else endchain(g, g.one(1, 1, 2, 3), ("exit0", "exitn", "kill", "core", "exitn")),
             "mode": g.one("wait", "await", "aiter", "bg", "bg")}
        if g.p(0.3):
            j["delay"] = g.one(0.001, 0.02)
        js.append(j)
    for _ in range(g.one(0, 0, 1, 3)):
        ops.append({"op": "foreign", "t": g.one(0.0001, 0.01), "code": g.one(0, 3, 9), "at": g.one(0, 0.001, 0.01)})
    g.step(jobs=js, ops=ops)
    if g.p(0.4):
        g.step(op="sleep", t=0.05)
        g.step(jobs=[{"p": endchain(g, 1, ("exit0", "exitn", "kill")), "mode": "wait"}
                     for _ in range(g.one(1, 3))])
    for s in g.specs.values():
        if "do" in s and g.p(0.06):
            # as an interactive shell does
            s["do"].insert(0, ["ownpg"])
    g.noise(0.4)
    stops(g, 0.3)
    if g.p(0.3):
        g.fault(at=g.r.randrange(50, 500), name="kill_kid", i=g.r.randrange(6), sig=g.one(9, 15, 11, 6, 2))


def weird(g):
    """Pipelines ending in all kinds of ways."""
    k = g.r.random()
    if k < 0.2:
        return endchain(g)
    if k < 0.4:
        return rich(g)
    if k < 0.47:
        return g.chain()[0]
    if k < 0.5:
        return g.pipe([g.source(), {"t": "prog", "l": g.label("nx"), "bin": "missing"}])
    if k < 0.6:
        return g.pipe([g.prog({"do": [["yes", {"lines": [20], "tag": "y"}]]}, "y"), earlyreader(g)])
    if k < 0.75:
        return argprog(g)
    if k < 0.8:
        return g.prog({"do": [["err", g.data(maxtotal=500), 0]]}, "e", redirs=[{"fd": "stdout", "to": g.one(
            "/work/o%d" % g.r.randrange(3), "/dev/null")}])
    if k < 0.92:
        # redirected Python stages, stages that do not use the pipe
        path = "/work/w%d" % g.r.randrange(3)
        files = g.sc.setdefault("files", {})
        x = g.one("fnout", "fnin", "midout", "midin", "bad")
        if x == "fnout":
            return {"t": "red", "fd": "stdout", "to": g.one(path, "/dev/null", "/work/nodir/x"), "style": "redirect",
                    "p": g.producer(("fn:ignore", "fn:gen", "it:list", "it:gen"))}
        if x in ("fnin", "midin"):
            files.setdefault(path, {"data": g.data(maxtotal=3000)})
        if x == "fnin":
            f = earlyreader(g) if g.p(0.4) else g.fnfilter(("map", "sink"))
            return g.pipe([{"t": "red", "fd": "stdin", "to": g.one(path, "/dev/null", "/work/missing"), "p": f,
                            "style": "redirect"}, g.filter(("cat",))])
        a = g.source(err=False, data=g.data(maxtotal=2000))
        b = g.filter(("cat", "slurp"))
        if x == "midout":
            a["redirs"] = [{"fd": "stdout", "to": g.one(path, "TMP", "/dev/null", "STRING")}]
        elif x == "midin":
            b["redirs"] = [{"fd": "stdin", "to": path}]
        else:
            g.one(a, b)["redirs"] = [{"fd": "stderr", "to": g.one("/work/nodir/x", 77)}]
        return g.pipe([a, b] + ([g.fnfilter(("map",))] if g.p(0.4) else []))
    return g.group()


def earlyreader(g):
    k = g.one("head", "headl", "none", "closein", "headn", "ignore", "raise")
    if k == "head":
        return g.prog({"do": [["head", g.one(0, 1, 10, 3000), 1000]]}, "h")
    if k == "headl":
        return g.prog({"do": [["headl", g.one(1, 2), 1000]]}, "h")
    if k == "none":
        return g.prog({"do": [], "exit": g.one(0, 0, 3)}, "h")
    if k == "closein":
        return g.prog({"do": [["closein"], ["sleep", 0.05], ["out", {"lines": [5]}, 0, 0]]}, "h")
    if k == "headn":
        return g.fn({"fn": "headn", "n": g.one(0, 1, 3), "sleep": g.delay(0.3)}, "hf")
    if k == "ignore":
        return g.fn({"fn": g.one("ignore", "gen", "list"), "items": [["s", "one"], ["s", "two"]][:g.one(0, 1, 2)]}, "hf")
    return g.fn(dict({"fn": "map", "raise_at": g.one(0, 1)}, **g.exc()), "hf")


def argprog(g, depth=0, kinds=("r", "r", "it", "w"), n=None, stdin=False, big=False, once=True, rest=True):
    """A program with pipelines, iterators and functions for arguments.  rest: it may use some of them only in part,
    and they may be anything."""
    n = n or g.one(1, 1, 2, 3)
    do, args = [], []
    rs = []
    pos = 1
    fill = g.p(0.3)
    for i in range(n):
        if fill and g.p(0.5):
            args.append(g.one("plain", "-x", "a b"))
            pos += 1
        k = g.one(*kinds)
        pos += 1
        if k == "w":
            d = g.data(g.one("ascii", "utf8"), maxtotal=4000)
            a = {"p": g.fn({"fn": g.one("sink", "quiet", "sink"), "sleep": g.delay(0.2)}, "af")}
            do.append(["argout", pos, d, g.chunk(d)])
        else:
            if k == "it":
                a = {"p": g.producer(("it:list", "it:gen", "it:tuple") if once else ("it:list", "it:tuple"),
                                    items=g.itemlist(0, 8, 6000))}
            elif depth < 1 and g.p(0.2):
                a = {"p": argprog(g, depth + 1, ("r", "it"), 1, once=once)}
            elif g.p(0.4):
                a = {"p": g.pipe([g.source(err=False, data=g.data(maxtotal=5000)), g.filter(("cat",))])}
            elif g.p(0.3):
                k2 = g.one("grp", "fns", "redin", "sub", "fails") if rest else "fns"
                if k2 == "grp":
                    a = {"p": g.group(once=once)}
                elif k2 == "redin":
                    a = {"p": g.filter(("cat", "slurp", "sum"))}
                    path = "/work/ain%d" % g.r.randrange(3)
                    g.sc.setdefault("files", {}).setdefault(path, {"data": g.data(maxtotal=3000)})
                    a["p"]["redirs"] = [{"fd": "stdin", "to": path}]
                elif k2 == "sub":
                    g.sc["sub"] = g.sc.get("sub", 0) + 12
                    a = {"p": {"t": "sub", "p": g.source(err=False, data=g.data(maxtotal=1000))}}
                elif k2 == "fails":
                    a = {"p": g.pipe([g.source(err=False, data=g.data(maxtotal=500), exit=g.exitcode()),
                                      ender(g, False, ("exit0", "exitn", "kill", "fn"))])}
                else:
                    a = {"p": g.pipe([g.producer() if once and g.p(0.3) else g.source(err=False, data=g.data(maxtotal=3000)),
                                      g.filter(("cat",)), g.fnfilter(("map", "collect"))])}
            else:
                a = {"p": g.source(err=False, data=g.data(maxtotal=5000))}
            e = g.r.random() if rest else 1
            if e < 0.04:
                do.append(["nop", pos])
            elif e < 0.07:
                do.append(["argdrop", pos])
            elif e < 0.12:
                do.append(["arghead", pos, g.one(1, 10, 1500)])
            else:
                rs.append(pos)
                do.append(["argin", pos, g.one(0, 1000)])
        if g.p(0.25):
            a["opt"] = g.one("file", "in_put", "x")
        args.append(a)
    # option dictionaries come after the plain arguments
    plain = [a for a in args if not (isinstance(a, dict) and "opt" in a)]
    opts = {}
    for a in args:
        if isinstance(a, dict) and "opt" in a:
            o = a["opt"]
            while a["opt"] in opts:
                a["opt"] = a["opt"] + "x"
            opts[a["opt"]] = a
    new = plain + list(opts.values())
    where = {id(a): i + 2 for i, a in enumerate(new)}
    k = 0
    for a in args:
        if isinstance(a, dict):
            do[k][1] = where[id(a)]
            k += 1
    if stdin:
        do.insert(g.r.randrange(len(do) + 1), ["cat", 0, 0, None])
    if len(rs) > 1 and g.p(0.2) and all(o[0] == "argin" for o in do):
        do = [["argall", [o[1] for o in do], g.one(0, 500)]]
    return g.prog({"do": do, "exit": 0}, "a", args=new)


def c07(g):
    g.prof("C07", None, raise_=[])
    g.cfg(nofile=g.one(48, 64, 128))
    if g.p(0.3):
        g.sc["user_fds"] = [{"pipe": g.p(0.5), "cloexec": g.p(0.5)} for _ in range(g.one(1, 3))]
    n = g.one(2, 3, 4)
    for _ in range(n):
        p = weird(g)
        g.job(p, g.one("fg", "bytes", "iterbytes", "fg"), snap=True, may_raise=True)
    if g.p(0.3):
        # the same again and again: one lost descriptor each time would end it
        p = g.one(0, 1)
        st = g.sc["steps"][-1]
        for _ in range(3):
            g.sc["steps"].append(st)
    g.noise(0.2)


def c08(g):
    g.prof("C08", ["C04"])
    g.cfg(nofile=g.one(64, 128))
    if g.p(0.5):
        n = g.one(1, 2, 4, 8, 8, 20, 30)
        if n > 8:
            g.sc["cfg"]["nofile"] = 200
        g.sc["user_fds"] = [{"pipe": g.p(0.5), "cloexec": g.p(0.4)} for _ in range(n)]
    if g.p(0.1):
        # descriptors with high numbers
        g.sc["manager"] = "signalfd+1100"
        g.sc["cfg"]["nofile"] = 1100
        at = [40, 100, 127, 128, 255, 256, 257, 300, 511, 512, 1000, 1022, 1023, 1024, 1025, 1090]
        g.r.shuffle(at)
        g.sc["user_fds"] = [{"pipe": g.p(0.3), "cloexec": g.p(0.3), "at": n} for n in at[:g.one(1, 2, 5)]]
        if g.p(0.4):
            g.sc["user_fds"].insert(0, {"count": g.one(250, 300, 520), "cloexec": True})

    def pl():
        k = g.r.random()
        if k < 0.2:
            return rich(g)
        if k < 0.45:
            return g.chain()[0]
        if k < 0.7:
            a = argprog(g)
            return g.pipe([a, g.filter(("cat",))]) if g.p(0.4) else a
        if k < 0.85:
            return g.group()
        return g.prog({"do": [["out", g.data(maxtotal=100), 0, 0]]}, "e",
                      redirs=[{"fd": "stdout", "to": "/work/o%d" % g.r.randrange(3)}])
    if g.p(0.5):
        # a pipeline that stays while others come and go: they must not wait for it
        slow = g.pipe([g.prog({"do": [["out", {"lines": [5], "tag": "w"}, 0, 0], ["sleep", 50.0]]}, "w"),
                       g.filter(("cat",))])
        js = [{"p": slow, "mode": "iterbytes"}]
        for _ in range(g.one(1, 2)):
            js.append(dict({"p": g.chain()[0], "delay": g.one(0, 0.001, 0.01), "within": 40.0}, mode="iterbytes"))
        g.step(jobs=js)
        g.sc["expect"] = [{"e": "within", "props": ["C08", "C21"]}]
    else:
        for _ in range(g.one(1, 2)):
            g.job(pl(), g.one("bytes", "iterbytes"))
    g.noise(0.15, kids=False)


def c09(g):
    """Redirections."""
    g.prof("C09", ["C04"])
    g.cfg()
    umask = 0o022
    if g.p(0.3):
        umask = g.sc["cfg"]["umask"] = g.one(0, 0, 0o002, 0o027, 0o077)
    files = {}
    exp = []
    g.sc["files"] = files
    g.sc["expect"] = [{"e": "files", "files": exp}]
    names = ["/work/f%d" % i for i in range(6)]
    import os
    for _ in range(g.one(1, 2)):
        path = names.pop()
        kind = g.one("out", "out", "in", "null", "err2out", "out2err", "fnin", "fnout", "bad", "errfile", "tofd", "pipein",
                     "swap", "fault", "extra", "midout", "midin", "runred", "and", "group", "sub", "args", "envdef", "disk")
        old = g.data(maxtotal=3000) if g.p(0.5) else None
        rel = g.p(0.3)
        nm = path if not rel else path
        d = g.data(maxtotal=9000)
        if kind in ("out", "errfile"):
            flag = g.one(None, None, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                         os.O_WRONLY | os.O_CREAT | os.O_EXCL)
            mode = g.one(None, 0o600, 0o644, 0o755)
            if old is not None:
                files[path] = {"data": old}
            fd = "stdout" if kind == "out" else "stderr"
            node = {"fd": fd, "to": nm}
            if flag is not None:
                node["flag"] = flag
            if mode is not None:
                node["mode"] = mode
            src = g.prog({"do": [["out" if fd == "stdout" else "err", d, g.chunk(d)] + ([0] if fd == "stdout" else [])]},
                         "r")
            if flag is not None and flag & os.O_EXCL and old is not None:
                exp.append({"path": path, "data": old, "mode": 0o644})
                exp.append({"failed": len(g.sc["steps"]), "noexec": src["l"]})
            else:
                e = {"path": path, "data": d, "mode": (0o777 if mode is None else mode) & ~umask if old is None else 0o644}
                if old is not None and not (flag or 0) & (os.O_TRUNC | os.O_APPEND):
                    e["over"] = old
                if old is not None and (flag or 0) & os.O_APPEND:
                    e["pre"] = old
                exp.append(e)
            if flag is None and mode is None and fd == "stdout" and g.p(0.5):
                p = {"t": "red", "fd": fd, "to": nm, "p": src, "style": g.one("str", "cmp")}
                if g.p(0.3):
                    p["as"] = g.one("bytes", "path")
            elif g.p(0.5):
                p = dict({"t": "red", "p": src}, **node)
            else:
                src["redirs"] = [node]
                p = src
            if fd == "stderr":
                p = g.pipe([p, g.filter(("cat",))]) if g.p(0.3) else p
            g.job(p, "fg")
        elif kind in ("in", "pipein"):
            files[path] = {"data": d}
            rd = g.filter()
            p = {"t": "red", "fd": "stdin", "to": nm, "p": rd, "style": g.one("str", "cmp", "ror", "redirect")}
            if kind == "pipein":
                p = g.pipe([p, g.filter()])
            exp.append({"path": path, "data": d, "reader": rd["l"], "job": len(g.sc["steps"])})
            g.job(p, g.one("bytes", "iterbytes"))
        elif kind == "null":
            rd = g.filter(("cat", "slurp"))
            p = {"t": "red", "fd": "stdin", "to": "/dev/null", "p": rd, "style": g.one("str", "cmp")}
            exp.append({"reader": rd["l"], "data": {"lit": ""}, "job": len(g.sc["steps"])})
            g.job(p, "bytes")
            exp.append({"none": 1})
            s = g.source()
            g.job({"t": "red", "fd": "stdout", "to": g.one("/dev/null", None), "p": s, "style": "str"}, "fg")
        elif kind in ("err2out", "out2err"):
            e = g.data("ascii", maxtotal=500)
            src = g.prog({"do": [["out", d, 0, 0], ["err", e, 0], ["out", e, 0, 0]]}, "r")
            src["redirs"] = [{"fd": "stderr", "to": 1}] if kind == "err2out" else [{"fd": "stdout", "to": 2}]
            if kind == "err2out":
                g.job(src, g.one("bytes", "iterbytes"))
            else:
                g.job(src, "fg")
        elif kind == "extra":
            # a further descriptor
            n = g.one(3, 4, 7, 12)
            src = g.prog({"do": [["out", {"lines": [4], "tag": "o"}, 0, 0], ["outfd", n, d]]}, "r")
            src["redirs"] = [{"fd": n, "to": path, "flag": os.O_WRONLY | os.O_CREAT | g.one(0, os.O_TRUNC)}]
            if g.p(0.4):
                src["redirs"].append({"fd": "stdout", "to": names.pop()})
            exp.append({"path": path, "data": d, "mode": 0o777 & ~umask})
            g.job(src, "fg")
        elif kind == "swap":
            # two descriptors exchanged, or moved over each other
            src = g.prog({"do": [["out", d, 0, 0]]}, "r")
            src["redirs"] = [{"fd": "stdout", "to": path}, {"fd": "stderr", "to": 1}]
            exp.append({"path": path, "data": d, "mode": 0o777 & ~umask})
            g.job(src, "fg")
        elif kind == "fnin":
            files[path] = {"data": d}
            f = g.fnfilter(("map", "collect", "sink"))
            p = g.pipe([{"t": "red", "fd": "stdin", "to": g.one(nm, nm, "/dev/null"), "p": f, "style": "redirect"},
                        g.filter(("cat",))])
            if "/dev/null" not in repr(p):
                exp.append({"fnlines": f["l"], "data": d, "job": len(g.sc["steps"])})
            else:
                exp.append({"fnlines": f["l"], "data": {"lit": ""}, "job": len(g.sc["steps"])})
            g.job(p, "bytes")
        elif kind == "fnout":
            items = g.itemlist(0, 10, 6000)
            f = g.producer(("fn:ignore", "fn:gen", "it:list", "it:gen"), items=items)
            to = g.one(nm, nm, "/dev/null")
            p = {"t": "red", "fd": "stdout", "to": to, "p": f, "style": "redirect"}
            if to == nm:
                exp.append({"path": path, "items": items, "mode": 0o777 & ~umask})
            g.job(p, "fg")
        elif kind == "bad":
            src = g.prog({"do": [["out", d, 0, 0]]}, "r")
            node = g.one({"fd": "stdin", "to": "/work/missing"}, {"fd": "stdout", "to": "/work/nodir/x"},
                         {"fd": "stdout", "to": "/work/sub"}, {"fd": "stdin", "to": "/work/noread"},
                         {"fd": "stderr", "to": "/work/nodir/y"}, {"fd": "stdout", "to": "/work/nowrite"},
                         {"fd": "stdout", "to": 77}, {"fd": "stderr", "to": 55})
            files["/work/noread"] = {"data": {"lit": "x"}, "mode": 0o000}
            files["/work/nowrite"] = {"data": {"lit": "x"}, "mode": 0o444}
            src["redirs"] = [node]
            exp.append({"failed": len(g.sc["steps"]), "noexec": src["l"]})
            p = src
            if node["fd"] != "stdout" and g.p(0.4):
                p = g.pipe([src, g.filter(("cat",))])
            elif node["fd"] != "stdin" and g.p(0.4):
                p = g.pipe([g.source(), src])
            g.job(p, "fg")
        elif kind == "tofd":
            src = g.prog({"do": [["out", d, 0, 0]]}, "r")
            ufds = g.sc.setdefault("user_fds", [])
            ufds.append({"file": path, "cloexec": True})
            src["redirs"] = [{"fd": "stdout", "to": "@%d" % (len(ufds) - 1)}]
            exp.append({"path": path, "data": d, "mode": 0o777 & ~umask})
            g.job(src, "fg")
        elif kind in ("midout", "midin"):
            # a stage in the middle that does not use the pipe
            a = g.prog({"do": [["out", d, g.chunk(d), 0]]}, "r")
            if kind == "midout":
                b = g.filter(("cat", "slurp"))
                to = g.one(path, path, "TMP", "/dev/null")
                a["redirs"] = [{"fd": "stdout", "to": to}]
                exp.append({"reader": b["l"], "data": {"lit": ""}, "job": len(g.sc["steps"])})
                if to == path:
                    exp.append({"path": path, "data": d, "mode": 0o777 & ~umask})
                p = g.pipe([a, b] + ([g.filter()] if g.p(0.4) else []))
                if g.p(0.3):
                    p = g.pipe([g.source(err=False, data=g.data(maxtotal=300)), p])
            else:
                files[path] = {"data": d}
                b = g.filter(("cat", "slurp"))
                b["redirs"] = [{"fd": "stdin", "to": path}]
                exp.append({"reader": b["l"], "data": d, "job": len(g.sc["steps"])})
                p = g.pipe([g.source(err=False, data=g.data(maxtotal=3000)), b] + ([g.filter()] if g.p(0.4) else []))
            g.job(p, g.one("bytes", "iterbytes"), may_raise=True)
        elif kind in ("runred", "envdef"):
            # redirections that are not part of the pipeline
            fd = g.one("stdout", "stderr", "stdin", 2)
            node = {"fd": fd, "to": path}
            if fd == "stdin":
                files[path] = {"data": d}
                p = rd = g.filter(("cat", "slurp", "sum"))
                exp.append({"reader": rd["l"], "data": d, "job": len(g.sc["steps"])})
            elif fd == "stdout":
                p = g.prog({"do": [["out", d, g.chunk(d), 0]]}, "r")
                if g.p(0.5):
                    p = g.pipe([p, g.prog({"do": [["cat", 0, 0, None]]}, "c")])
                exp.append({"path": path, "data": d, "mode": 0o777 & ~umask})
                if g.p(0.2):
                    # what the pipeline itself says counts
                    p = {"t": "red", "fd": "stdout", "to": "/dev/null", "p": p, "style": "str"}
                    exp.pop()
            else:
                p = g.prog({"do": [["err", d, g.chunk(d)]]}, "r")
                exp.append({"path": path, "data": d, "mode": 0o777 & ~umask})
            if kind == "envdef":
                if fd in ("stdin", "stdout") and g.p(0.5):
                    node["style"] = "str"
                g.sc["envs"] = [{"redirs": [node], "how": g.one("or", "or", "arg", "copy")}]
                g.sc["steps"], keep = [], exp[-1:]
                del exp[:]
                for e in keep:
                    if "job" in e:
                        e["job"] = 0
                    if e.get("path") == path or "reader" in e:
                        exp.append(e)
                g.sc["files"] = {path: files[path]} if path in files else {}
                g.job(p, g.one("fg", "pos"))
                if g.sc["envs"][0]["how"] == "copy":
                    g.sc["envs"].append({"how": "orig"})
                    g.job(g.source(), g.one("fg", "bytes"), env=1)
                break
            g.job(p, "bg", redirs=[node])
            g.step(op="wait", job=sum("job" in s for s in g.sc["steps"]) - 1)
            break
        elif kind == "and":
            s = g.prog({"do": [["out", d, g.chunk(d), 0]]}, "r")
            to = g.one(path, path, None)
            p = {"t": "red", "fd": "stdout", "to": to, "p": s, "style": "and"}
            if to:
                exp.append({"path": path, "data": d, "mode": 0o777 & ~umask})
                if g.p(0.5):
                    p["as"] = g.one("bytes", "path")
            g.job(p, "bg", **{"and": True})
            g.step(op="wait", job=sum("job" in s for s in g.sc["steps"]) - 1)
            break
        elif kind == "group":
            # both members append to one file, or read from one each
            p = g.group()
            ls = [gen_data(g.specs[x["l"]]["do"][0][1]) for x in (p["a"], p["b"]) if x["t"] == "prog"]
            node = {"fd": "stdout", "to": path, "flag": os.O_WRONLY | os.O_CREAT | os.O_APPEND}
            exp.append({"path": path, "parts": [x.decode("latin1") for x in ls] if len(ls) == 2 else None})
            g.job(dict({"t": "red", "p": p}, **node), "fg")
        elif kind == "sub":
            g.sc["sub"] = 8
            s = g.prog({"do": [["out", d, g.chunk(d), 0]]}, "r")
            if g.p(0.5):
                p = {"t": "sub", "p": {"t": "red", "fd": "stdout", "to": path, "p": s, "style": "str"}}
            else:
                p = {"t": "red", "fd": "stdout", "to": path, "p": {"t": "sub", "p": s}, "style": g.one("str", "redirect")}
            exp.append({"path": path, "data": d, "mode": 0o777 & ~umask})
            g.job(p, "fg")
        elif kind == "args":
            # a program with pipelines for arguments whose own output is redirected
            a = argprog(g)
            if g.p(0.5):
                a["redirs"] = [{"fd": g.one("stdout", "stderr"), "to": path}]
                p = a
            else:
                p = {"t": "red", "fd": "stdout", "to": path, "p": a, "style": g.one("str", "redirect", "cmp")}
            g.job(p, "fg")
        elif kind == "disk":
            # the disk is full or broken when a Python stage, or a program, reads or writes a file
            g.sc["steps"] = []
            del exp[:]
            what = g.one("fnin", "fnout", "prog")
            if what == "fnin":
                g.sc["files"] = {path: {"data": d}}
                f = g.fnfilter(("map", "collect", "sink"))
                p = g.pipe([{"t": "red", "fd": "stdin", "to": path, "p": f, "style": "redirect"}, g.filter(("cat",))])
                g.sc["cfg"]["faults"] = [{"who": "root", "op": "fread:" + path, "n": g.r.randrange(0, 6), "errno": g.one(5, 116)}]
            elif what == "fnout":
                f = g.producer(("fn:ignore", "fn:gen", "it:list", "it:gen"), items=g.itemlist(1, 10, 6000))
                p = {"t": "red", "fd": "stdout", "to": path, "p": f, "style": "redirect"}
                if g.p(0.3):
                    p = {"t": "red", "fd": "stdout", "to": path, "p": g.pipe([g.source(), g.fnfilter(("map",))]),
                         "style": "redirect"}
                g.sc["cfg"]["faults"] = [{"who": "root", "op": "fwrite:" + path, "n": g.r.randrange(0, 6), "errno": g.one(5, 28, 27, 122)}]
            else:
                p = g.prog({"do": [["out", d, g.chunk(d), 0]]}, "r", redirs=[{"fd": "stdout", "to": path}])
                g.sc["cfg"]["faults"] = [{"who": "prog", "op": "fwrite", "n": g.r.randrange(0, 3), "errno": g.one(5, 28)}]
            exp.append({"disk": 0})
            g.job(p, g.one("fg", "bytes") if what == "fnin" else "fg")
            break
        elif kind == "fault":
            # the system refuses something while the redirections are made in the child
            src = g.prog({"do": [["out", d, 0, 0]]}, "r", redirs=[{"fd": "stdout", "to": path}])
            op = g.one("dup2", "open")
            n = g.r.randrange(0, 3) if op == "dup2" else 0
            g.sc["cfg"]["faults"] = [{"who": "kid", "op": op, "n": n, "errno": g.one(4 + 20, 5, 12, 13, 28)}]
            g.sc["steps"] = []
            del exp[:]
            exp.append({"failed": 0, "noexec": src["l"], "iffault": True})
            g.job(src, "fg")
            break
    g.noise(0.1)


def errs(g):
    enc = g.one("ascii", "utf8", "sep", "ctl", "bin", "bin")
    if g.p(0.15):
        # larger than any buffer
        return {"lines": [g.one(65536, 65537, 70000, 131072 + 5, 8191)] * g.one(1, 2), "tag": g.label("t"), "enc": enc,
                "nl": g.p(0.5)}
    return g.data(enc, maxtotal=9000)


def adderrs(g, p):
    """Programs anywhere in p write to standard error, too."""
    if isinstance(p, list):
        for x in p:
            adderrs(g, x)
    elif isinstance(p, dict):
        for x in list(p.values()):
            adderrs(g, x)
        if p.get("t") == "prog" and g.p(0.7):
            do = g.specs[p["l"]]["do"]
            for _ in range(g.one(1, 1, 2)):
                do.insert(g.r.randrange(len(do) + 1), ["err", g.data(g.one("ascii", "utf8", "bin"), maxtotal=500), 0])


def c10(g):
    g.prof("C10", ["C04"])
    g.cfg()
    exp = []
    g.sc["expect"] = exp
    for _ in range(g.one(1, 2, 3)):
        e = errs(g)
        do = [["err", e, g.chunk(e)]]
        if g.p(0.4):
            do.insert(g.r.randrange(2), ["out", g.data(maxtotal=2000), 0, 0])
        if g.p(0.3):
            do.append(["kill", g.one(9, 15, 11)])
        src = g.prog({"do": do, "exit": g.one(0, 0, 1, 3)}, "e")
        k = g.r.random()
        mode = "fg"
        if k < 0.3:
            src["redirs"] = [{"fd": g.one("stdout", "stderr"), "to": g.one("STRING", "TMP", "TMP")}]
            mode = g.one("fg", "bg")
        p = src
        if k > 0.6:
            p = g.pipe([src, g.prog({"do": [["cat", 0, 0, None], ["err", g.data("utf8", maxtotal=100), 0]]}, "c")])
            mode = g.one("fg", "bytes", "iterbytes")
        elif k > 0.48:
            p = argprog(g) if g.p(0.7) else g.pipe([argprog(g), g.filter(("cat",))])
            adderrs(g, p)
            mode = g.one("fg", "bytes", "iterbytes")
        elif k > 0.42:
            p = g.group()
            adderrs(g, p)
        g.job(p, mode)
        n = len(g.sc["steps"]) - 1
        if k < 0.3 and g.p(0.4):
            if mode == "bg":
                g.step(op="wait", job=n)
                exp.append(None)
            g.step(op="cleanup", job=n)
    g.sc["expect"] = []
    # job numbers count jobs only
    n = -1
    for s in g.sc["steps"]:
        if "job" in s and isinstance(s["job"], dict):
            n += 1
        elif "op" in s:
            s["job"] = n
    g.noise(0.2)


def c11(g):
    g.prof("C11", ["C04"], kidexc=True, tag={"missed-failure": ["C11"], "never-ends": ["C11"]})
    g.cfg()
    k = g.one("missing", "noexec", "badarg", "nocwd", "redir", "stderrclosed", "fault", "fault", "fault", "int", "int",
              "many", "enoexec")
    node = {}
    job = {}
    src = g.prog({"do": [["sleep", g.one(0.001, 0.02)], ["out", {"lines": [5, 6]}, 0, 0]]}, "p")
    p = src
    exp = {"e": "childfail"}
    if k == "missing":
        p = {"t": "prog", "l": g.label("nx"), "bin": g.one("missing", "nonesuch")}
    elif k == "noexec":
        g.sc["bins"] = {"/bin/plain": {"mode": 0o644}}
        p = {"t": "prog", "l": g.label("nx"), "bin": "plain"}
    elif k == "enoexec":
        g.sc["bins"] = {"/bin/odd": {"mode": 0o755}}
        p = {"t": "prog", "l": g.label("nx"), "bin": "odd"}
    elif k == "badarg":
        src["args"] = [{"bad": g.one("nul", "none", "int")}]
    elif k == "nocwd":
        g.sc["files"] = {"/work/gone": {"dir": True}}
        g.sc["envs"] = [{"cwd": "/work/gone"}]
        src["cwd"] = "/work/gone"
        g.step(op="rmdir", path="/work/gone")
    elif k == "redir":
        src["redirs"] = [g.one({"fd": "stdin", "to": "/work/missing"}, {"fd": "stdout", "to": "/work/nodir/x"},
                               {"fd": "stdout", "to": 77})]
    elif k == "stderrclosed":
        p = {"t": "prog", "l": g.label("nx"), "bin": "missing", "redirs": [{"fd": "stderr", "to": g.one(
            "/dev/full", "/work/nodir/x", "/dev/null")}]}
        if g.p(0.3):
            g.sc["stdio"] = {"2": {"closed": True}}
    elif k == "fault":
        for _ in range(g.one(1, 1, 2)):
            op = g.one("dup2", "open", "close", "chdir", "execve", "write", "stat", "execve")
            g.fault(who="kid", op=op, n=g.r.randrange(0, 4), errno=g.one(1, 5, 11, 12, 13, 24, 28, 7, 26))
        if g.p(0.3):
            p = {"t": "prog", "l": g.label("nx"), "bin": "missing"}
    elif k == "many":
        p = {"t": "grp", "a": {"t": "prog", "l": g.label("nx"), "bin": "missing"},
             "b": {"t": "prog", "l": g.label("nx"), "bin": "missing"}}
    if k in ("fault", "int") and g.p(0.5):
        # a directory of its own, which it has to reach before it may run
        g.sc["envs"] = [{"cwd": "/work/sub"}]
        src["cwd"] = "/work/sub"
    if g.p(0.4) and k != "many":
        if g.p(0.5):
            p = g.pipe([p, g.filter(("cat",))])
        else:
            p = g.pipe([g.source(), p])
    if k == "int":
        job["may_raise"] = True
        for _ in range(g.one(1, 2)):
            g.fault(at=g.r.randrange(1, 160), name="tty_int", kids_only=True)
        p = g.pipe([p, g.filter(("cat",))]) if g.p(0.3) else p
    mode = g.one("fg", "fg", "bytes", "bg", "wait", "list")
    if mode == "wait":
        g.step(jobs=[dict({"p": p, "mode": "wait"}, **job)])
    else:
        g.job(p, mode, **job)
        if mode == "bg":
            g.step(op="wait", job=0)
    g.sc["expect"] = [exp]
    # the shell goes on
    g.job(g.source(err=False), g.one("bytes", "fg"), may_raise=True)
    if g.p(0.1):
        g.noise(1.0)


def longchain(g, ign=False):
    """Something that takes its time and carries data, with a known result."""
    d = {"lines": [g.r.randrange(3, 40) for _ in range(g.r.randrange(3, 12))], "tag": g.label("l"),
         "enc": g.one("ascii", "utf8")}
    st = [g.prog({"do": [["out", d, "l", g.one(0.001, 0.003)]]}, "s")]
    for _ in range(g.one(0, 1, 1, 2)):
        st.append(g.fnfilter(("map", "collect")) if g.p(0.35) else g.filter(("cat", "slurp")))
    if ign and g.p(0.2):
        # programs that do not care for suspensions
        for x in st:
            if x["t"] == "prog" and g.p(0.7):
                g.specs[x["l"]]["do"].insert(0, ["sigign", 20])
    if g.p(0.35):
        # any of them may fail, having done its work
        for x in st:
            if x["t"] == "prog" and g.p(0.5):
                g.specs[x["l"]]["exit"] = g.exitcode()
                if g.p(0.5):
                    g.specs[x["l"]]["do"].insert(0, ["err", g.data(g.one("ascii", "utf8", "bin"), maxtotal=100), 0])
    if g.p(0.2):
        # with other pipelines for arguments
        a = argprog(g)
        for l in list(g.specs):
            if l[0] == "s" and g.specs[l].get("do") and g.specs[l]["do"][0][0] == "out" and g.p(0.7):
                o = g.specs[l]["do"][0]
                if len(o[1].get("lines", ())) < 30 and len(o) > 3:
                    o[3] = g.one(0.001, 0.003)
        return a if g.p(0.5) else g.pipe([a, g.filter(("cat",))])
    if g.p(0.15):
        return {"t": "grp", "a": st[0], "b": g.prog({"do": [["sleep", 0.02]], "exit": g.one(0, 3)}, "z")}
    return g.pipe(st)


def c12(g):
    g.prof("C12", ["C04"], tag={c: ["C12"] for c in ("data", "lines", "early", "never-ends", "missed-failure", "false-failure")})
    g.cfg()
    if g.p(0.55):
        # asked to suspend by the program
        js = [{"p": longchain(g, True), "mode": "suspended", "out": True}]
        susp = []
        t = 0.0
        for _ in range(g.one(1, 1, 2, 4)):
            susp.append({"at": g.one(0.0, 0.0005, 0.002, 0.004, 0.01), "how": g.one("restart", "wait", "wait"),
                         "hold": g.one(0, 0.001, 0.02)})
        js[0]["susp"] = susp
        if g.p(0.3):
            js.append({"p": longchain(g, True), "mode": "iterbytes"})
        g.step(jobs=js)
        if len(js) == 1 and g.p(0.3):
            g.noise(1.0, kids=False)
    else:
        g.sc["envs"] = [{"interactive": True}]
        p = longchain(g, True)
        p = {"t": "red", "p": p, "fd": "stdout", "to": "/work/out%d" % g.r.randrange(3)} if p["t"] == "prog" else p
        g.job(p, g.one("fg", "pos", "repr"))
        for _ in range(g.one(1, 1, 2)):
            g.fault(at=g.r.randrange(30, g.one(150, 300, 900)), name="tty_tstp", when_fg=True, shell_only=g.p(0.3),
                    **({"when_chld": True} if g.p(0.3) else {}))
        for _ in range(g.one(1, 2, 3)):
            if g.p(0.5):
                g.step(op="ifsusp", job=0, do=g.one("restart", "sleep", "nothing"))
            g.step(op="ifsusp", job=0, do="wait")
        g.sc["expect"] = [{"e": "tstp"}]
    g.sc.setdefault("expect", []).append({"e": "stopped"})


def c13(g):
    g.prof("C13", None, raise_=[])
    g.cfg(pid_reuse=g.one(50, 90, 100, 0))
    js = []
    ops = []
    for _ in range(g.one(1, 2, 3)):
        js.append({"p": rich(g, sub=False) if g.p(0.25) else endchain(g, g.one(1, 2, 3), ("exit0", "exitn", "kill", "exit0")),
                   "mode": g.one("bg", "wait", "aiter", "await", "bg"), "may_raise": True})
    n = len(js)
    for _ in range(g.one(1, 2, 4)):
        ops.append({"op": g.one("suspend", "restart", "restart"), "job": g.r.randrange(n),
                    "at": g.one(0, 0.0005, 0.001, 0.003, 0.01, 0.03, 0.08)})
    # whatever was stopped is let go in the end
    for i in range(n):
        ops.append({"op": "restart", "job": i, "at": 0.2})
    for _ in range(g.one(0, 1)):
        ops.append({"op": "foreign", "t": 0.01, "at": 0.001})
    g.step(jobs=js, ops=ops)
    for i in range(n):
        if g.p(0.6):
            g.step(op=g.one("suspend", "restart", "wait"), job=i)
    for i in range(n):
        g.step(op="restart", job=i)
    g.noise(0.2, kids=False)


def c14(g):
    g.prof("C14", ["C04"])
    g.cfg()
    dirs = ["/work", "/work/sub", "/work/other", "/home/user", "/tmp"]
    odd = [x for x in ("/work/a b", "/work/\u00e4x", "/work/c'd", "/work/-e", "/work/sub/sub", "/work/x=1", "/work/n\nl")
           if g.p(0.25)] if g.p(0.4) else []
    dirs += odd
    inter = g.p(0.3)

    def val(pre):
        """A value of a variable."""
        v = g.label(pre)
        return v if g.p(0.6) else g.one("", v + "=b", " " + v + " ", v + "\n2", "\u00e4" + v, v * 300, "'%s'" % v,
                                        "$HOME", "~", "a:b", "*", v + "\t", "\\" + v)
    envs = []
    state = []
    cwd0 = "/work"
    for i in range(g.one(1, 2, 3)):
        e = {"exports": dict({"PATH": "/bin", "HOME": "/home/user"}, **{"V%d" % j: val("v") for j in range(g.one(0, 1, 2))})}
        if g.p(0.2):
            e["exports"].update({x: val("w") for x in ("lower", "_U", "LONG_" + "N" * 60, "A.B")[:g.one(1, 2, 4)]})
        if g.p(0.6):
            e["cwd"] = g.one(*dirs)
        if inter and i == 0:
            e["interactive"] = True
            e.pop("cwd", None)
        envs.append(e)
        state.append({"cwd": e.get("cwd", cwd0), "exports": dict(e["exports"])})
    g.sc["envs"] = list(envs)
    g.sc["files"] = {d: {"dir": True} for d in odd}
    g.sc["files"].update({"%s/f%d" % (d, j): {"data": {"lit": ""}} for d in dirs for j in range(g.one(0, 0, 1, 2))})
    root = [cwd0]

    def proc(i):
        s = state[i]
        do = [["pwd"]]
        if g.p(0.5):
            do.append(["env", ["V0", "HOME"]])
        if g.p(0.4):
            do.append(["sleep", 0.005])
        n = g.prog({"do": do}, "w", env=i, cwd=s["cwd"], exports=dict(s["exports"]))
        if g.p(0.4):
            n["args"] = [g.one("x", "a b", "", "\u00e4\u00f6", "--y", "'q'", "a\\b", "line\nbreak", {"raw": "*"},
                               {"raw": "%(V0)s"}, {"dict": {"d_e": "1", "f": True}})
                         for _ in range(g.one(1, 2, 3))]
            if g.p(0.12):
                # many, or long ones
                n["args"] = [g.one("m%d" % j, "x y", "") for j in range(g.one(40, 70, 130))] if g.p(0.6) else [
                    "L" * g.one(4096, 5000, 70000), "end"]
            if g.p(0.3):
                names = sorted(n for n in g.sc["files"] if n.rpartition("/")[0] == s["cwd"] and n.rpartition("/")[2][0] == "f")
                if names:
                    n["args"].append({"glob": "f*", "want": ["./" + x.rpartition("/")[2] for x in names]})
            if g.p(0.4):
                n["args"].append({"opt": g.one("o_p", "name", "a_b_c", "x_"), "v": g.one(True, "val", "1 2", False, 7, 0, 2.5, "")})
                if g.p(0.3):
                    n["args"].append({"opt": "z_9", "v": g.one(True, "w", False)})
        return n

    def pl():
        i = g.r.randrange(len(envs))
        st = [proc(i)]
        for _ in range(g.one(0, 0, 1, 2)):
            j = g.r.randrange(len(envs))
            x = proc(j)
            g.specs[x["l"]]["do"].insert(0, ["drain", 0, 0])
            st.append(x)
        return g.pipe(st)

    def change():
        i = g.r.randrange(len(envs))
        s = state[i]
        import posixpath
        if len(envs) < 6 and g.p(0.25):
            # an environment made from another one
            d = g.one(None, "sub", "..", "/work", "/tmp", "~", "other", "/work/sub/../other/.")
            full = posixpath.normpath(posixpath.join(s["cwd"], d.replace("~", "/home/user"))) if d else s["cwd"]
            if full not in dirs and full not in ("/", "/home"):
                d, full = None, s["cwd"]
            op = {"op": "newenv", "from": i, "cwd": d, "how": g.one("call", "call", "item", "kw") if d else "call"}
            new = {"cwd": full, "exports": dict(s["exports"])}
            if g.p(0.3) and op["how"] == "call":
                op["exports"] = new["exports"] = {"PATH": "/bin", "HOME": "/home/user", "V0": g.label("x")}
                op["exports"] = dict(op["exports"])
            envs.append({"interactive": envs[i].get("interactive")})
            if envs[i].get("interactive"):
                if op["how"] != "item" and g.p(0.5):
                    op["interactive"] = False
                    envs[-1]["interactive"] = False
                else:
                    root[0] = full
            state.append(new)
            g.sc["steps"].append(op)
            return
        if g.p(0.08):
            # what can not be a directory to work in
            g.sc["files"].update({"/work/afile": {"data": {"lit": ""}}, "/work/locked": {"dir": True, "mode": 0o600}})
            g.step(op="cdbad", env=i, path=g.one("/work/nonesuch", "/work/afile", "/work/locked") if envs[i].get("interactive")
                   else "/work/nonesuch", **({"how": "pipe"} if g.p(0.3) else {}))
            return
        if g.p(0.6):
            d = g.one(*dirs) if g.p(0.7) else g.one("..", "sub", ".")
            full = posixpath.normpath(posixpath.join(s["cwd"], d))
            if full in dirs or full in ("/", "/home"):
                s["cwd"] = full
                if envs[i].get("interactive"):
                    root[0] = full
                how = g.one("op", "pipe")
                if how == "pipe":
                    g.job({"t": "cd", "path": d, "env": i}, "fg", env=i)
                else:
                    g.step(op="cd", env=i, path=d)
            else:
                g.step(op="cdbad", env=i, path="/work/nonesuch")
        else:
            v = "V%d" % g.r.randrange(2)
            before = dict(s["exports"])
            s["exports"][v] = val("n")
            g.step(op="export", env=i, name=v, value=s["exports"][v], **({"how": "scope"} if g.p(0.3) and v in before else {}))
            if g.p(0.15):
                del s["exports"][v]
                g.step(op="unexport", env=i, name=v)
    for _ in range(g.one(2, 3, 4)):
        if g.p(0.5):
            change()
        if g.p(0.2):
            # made before the change, started after it
            p = pl()
            l = g.label("sh")
            g.shared[l] = p
            g.step(op="build", id=l)
            change()
            for st in leaves(p):
                st["cwd"], st["exports"] = state[st["env"]]["cwd"], dict(state[st["env"]]["exports"])
                st["args"] = [a for a in st.get("args", ()) if not isinstance(a, dict) or "glob" not in a]
            g.job({"t": "ref", "id": l}, g.one("bytes", "fg", "bg"))
        if g.p(0.4):
            # made and started before the change, runs during it
            g.job(pl(), "bg")
            change()
        else:
            g.job(pl(), g.one("bytes", "fg"))
    if not inter and g.p(0.12):
        # a directory that is gone by the time something is to run in it
        g.sc["files"]["/work/gone"] = {"dir": True}
        g.step(op="newenv", **{"from": 0, "cwd": "/work/gone", "how": "call"})
        envs.append({})
        state.append({"cwd": "/work/gone", "exports": dict(state[0]["exports"])})
        n = proc(len(envs) - 1)
        g.step(op="rmdir", path="/work/gone")
        g.job(n if g.p(0.5) else g.pipe([n, proc(0)]), g.one("bytes", "fg"), may_raise=True)
    g.sc["prof"]["root_cwd"] = root[0]
    g.noise(0.1)


def leaves(a):
    if a["t"] == "prog":
        return [a]
    return [x for k in ("a", "b", "p") if k in a for x in leaves(a[k])]


def c15(g):
    g.prof("C15", ["C04"], tag={c: ["C15"] for c in ("missed-failure", "false-failure", "early", "fd-leak")})
    g.cfg()
    a = argprog(g, stdin=g.p(0.3))
    k = g.r.random()
    if "cat" in str(g.specs[a["l"]]["do"]) and k < 0.99:
        p = g.pipe([g.source(data=g.data(maxtotal=5000)), a])
    elif k < 0.3:
        p = g.pipe([a, g.filter(("cat", "sum"))])
    elif k < 0.4:
        b = argprog(g, stdin=True)
        p = g.pipe([a, b])
    else:
        p = a
    if g.p(0.25):
        # one of the argument pipelines fails
        for x in a["args"]:
            if isinstance(x, dict) and x.get("p", {}).get("t") == "prog":
                g.specs[x["p"]["l"]]["exit"] = 5
                break
    m = g.one("bytes", "iterbytes", "fg")
    g.job(p, m)
    if g.p(0.3):
        g.job(argprog(g), g.one("bytes", "fg"))
    g.noise(0.2)


def c16(g):
    g.prof("C16", ["C04"], data=["C16"], tag={c: ["C16"] for c in ("wiring", "fd", "fds", "missed-failure", "false-failure", "never-ends", "early", "unexpected-exception", "no-capture", "capture", "argv")})
    g.cfg()

    def reusable():
        if g.p(0.2):
            return rich(g, ("exit0", "exitn", "kill"), reds=False, once=False)
        st = [g.source(err=g.p(0.3))] if g.p(0.7) else [g.producer(("it:list", "it:tuple", "it:iterable", "fn:ignore",
                                                                     "fn:gen"))]
        for _ in range(g.one(0, 1, 1, 2)):
            st.append(g.fnfilter(("map", "collect", "sink")) if g.p(0.4) else g.filter())
        if not g.ispipe(st):
            st.append(g.filter())
        return g.pipe(st)
    g.shared["s"] = reusable()
    k = g.r.random()
    if k > 0.85:
        g.shared["s"] = argprog(g, kinds=("r", "w", "r"), once=False)
    if g.p(0.12):
        # commands made from a common beginning
        b = g.prog({"do": [["argv"], ["out", g.data(maxtotal=400), 0, 0]]}, "b",
                   args=[g.one("x", "a b", "", "--y", "\u00e4") for _ in range(g.one(0, 1, 2, 4, 5, 8))]
                   + [{"opt": g.one("b_q", "name"), "v": g.one(True, "w", False, 3)}] * g.one(0, 0, 1))
        g.shared["b"] = b
        ref = {"t": "ref", "id": "b"}

        def der():
            if g.p(0.3):
                return ref
            n = g.one(1, 1, 2, 3)
            attr = g.p(0.3)
            more = [g.one("status", "log", "commit") if attr else g.one("m1", "m2", {"opt": "o_p", "v": g.one(True, "v", 3)})
                    for _ in range(n)]
            more = [x for x in more if isinstance(x, str)] + [x for x in more if not isinstance(x, str)][:1]
            if g.p(0.25):
                more, attr = [{"opt": g.one("o_p", "name"), "v": g.one(True, "v", 3)}], False
                n = 1
            return dict(b, args=list(b["args"]) + more, der={"id": "b", "n": len(more), "attr": attr})
        for _ in range(g.one(2, 3, 4)):
            p = der()
            if g.p(0.3):
                g.step(op="build", p=p)
                continue
            x = g.r.random()
            if x < 0.4:
                p = {"t": "pipe", "a": p, "b": g.filter() if g.p(0.7) else g.fnfilter(("map", "collect"))}
            elif x < 0.55:
                p = {"t": "red", "p": p, "fd": g.one("stderr", "stdout"), "to": "/work/err%d" % g.r.randrange(4)}
            g.job(p, g.one("bytes", "fg", "iterbytes", "bg"))
        g.job(ref, "bytes")
        return
    ref = {"t": "ref", "id": "s"}
    twice = k < 0.2 and not g.shared["s"].get("redirs")

    def use():
        u = g.r.random()
        if twice and u < 0.5:
            # as two arguments of one command
            return g.prog({"do": [["argin", 2, 0], ["argin", 3, 0]]}, "a", args=[{"p": ref}, {"p": ref}])
        if u < 0.5:
            return ref
        if u < 0.75:
            return {"t": "pipe", "a": ref, "b": g.filter() if g.p(0.6) else g.fnfilter(("map", "collect"))}
        if u < 0.85:
            q = g.prog({"do": [["argin", 2, 0]]}, "a", args=[{"p": ref}])
            return q
        return {"t": "red", "p": ref, "fd": "stderr", "to": "/work/err%d" % g.r.randrange(4)}
    if g.p(0.35):
        for _ in range(g.one(2, 3)):
            g.job(use(), g.one("bytes", "iterbytes", "fg"))
    else:
        js = []
        for _ in range(g.one(2, 2, 3)):
            j = {"p": use(), "mode": "iterbytes"}
            if g.p(0.6):
                j["delay"] = g.one(0, 0.0005, 0.003)
            js.append(j)
        g.step(jobs=js)
        if g.p(0.4):
            g.job(use(), "bytes")
    g.noise(0.1)


def c17(g):
    g.prof("C17", ["C04"], tag={"never-ends": ["C17"], "data": ["C17"], "missed-failure": ["C17"], "false-failure": ["C17"]})
    g.cfg(slots=g.one(1, 2, 16))
    prod = g.one("yes", "inf", "inf2", "bigprog", "bigfn")
    if prod == "yes":
        s = g.prog({"do": [["yes", {"lines": [g.one(3, 40, 1000, 5000)], "tag": "y"}]]}, "y")
    elif prod == "inf":
        s = g.producer(("fn:ignore", "fn:gen", "it:gen"), items=[], inf=True, inflen=g.one(3, 50, 1100, 5000))
    elif prod == "inf2":
        s = g.producer(("fn:aiterobj", "fn:aiterable", "fn:ignore"), items=[["s", "q"]], inf=True, sleep=0.0005)
    elif prod == "bigprog":
        s = g.source(data={"lines": [300] * 80, "tag": "b"})
    else:
        s = g.producer(("it:list", "fn:ignore"), items=[["s", "w%d" % i + "z" * 200] for i in range(80)])
    st = [s]
    x = g.r.random()
    if x < 0.12:
        # two producers for one reader
        s2 = g.prog({"do": [["yes", {"lines": [g.one(3, 40, 1000)], "tag": "z"}]]}, "y")
        st = [{"t": "grp", "a": s2, "b": s}]
    elif x < 0.17:
        g.sc["sub"] = 14
        st = [{"t": "sub", "p": s if s["t"] == "prog" else g.pipe([s, g.filter(("cat",))])}]
    for _ in range(g.one(0, 0, 1, 2)):
        st.append(g.filter(("cat",)) if g.p(0.6) else g.fnfilter(("map",)))
    x = g.r.random()
    if x < 0.12:
        # the producer is an argument
        if len(st) == 1 and st[0]["t"] == "fn":
            # (a function alone would be one that is written to)
            st.append(g.filter(("cat",)))
        do = [g.one(["nop", 2], ["argdrop", 2], ["arghead", 2, g.one(1, 100, 3000)])]
        a = g.prog({"do": do, "exit": g.one(0, 0, 3)}, "a", args=[{"p": g.pipe(st)}])
        if g.p(0.3):
            d = g.data(maxtotal=300)
            a["args"].append({"p": g.source(err=False, data=d)})
            do.append(["argin", 3, 0])
        st = [a]
    elif x < 0.2:
        # both members of a group stop reading
        st.append({"t": "grp", "a": g.prog({"do": [["head", g.one(1, 1000), 1000]]}, "h"),
                   "b": g.prog({"do": [["head", g.one(1, 1000), 1000]]}, "h")})
    elif x < 0.28:
        # it reads something else
        g.sc["files"] = {"/work/in": {"data": g.data(maxtotal=300)}}
        b = g.filter(("cat", "slurp"))
        b["redirs"] = [{"fd": "stdin", "to": "/work/in"}]
        st.append(b)
    elif x < 0.34 and not g.sc.get("sub"):
        g.sc["sub"] = 14
        st.append({"t": "sub", "p": g.prog({"do": [["head", g.one(0, 1, 1000), 1000]]}, "h")})
    else:
        st.append(earlyreader(g))
    if g.p(0.3):
        st.append(g.filter(("cat",)) if g.p(0.6) else g.fnfilter(("map", "collect")))
    if not g.ispipe(st) and st[0]["t"] in ("fn", "it"):
        st.append(g.filter(("cat",)))
    p = g.pipe(st)
    g.job(p, g.one("bytes", "fg", "iterbytes", "list", "fg"), leaky=False)
    g.noise(0.15, kids=False)


def c18(g):
    g.prof("C18", ["C04"], tag={c: ["C18"] for c in ("early", "missed-failure", "false-failure", "never-ends", "tmp-left", "fd-leak")})
    g.cfg()
    js = []
    for _ in range(g.one(1, 1, 2)):
        ws = []
        for _ in range(g.one(2, 2, 3, 5)):
            w = {}
            if g.p(0.5):
                w["delay"] = g.one(0.0005, 0.002, 0.01, 0.05, 0.3)
            k = g.r.random()
            if k < 0.25:
                w["timeout"] = g.one(0.0005, 0.002, 0.005, 0.02)
            elif k < 0.5:
                w["cancel"] = g.one(0.0001, 0.001, 0.003, 0.01, 0.02)
            ws.append(w)
        p = longchain(g) if g.p(0.5) else rich(g) if g.p(0.3) else endchain(g, g.one(1, 2))
        js.append({"p": p, "mode": "waiters", "waiters": ws})
    g.step(jobs=js)
    if g.p(0.4):
        g.step(op="wait", job=0)
    if g.p(0.3):
        g.job(g.source(err=False), "bytes")
    g.sc["expect"] = [{"e": "waiters"}]
    g.noise(0.25)


def c19(g):
    g.prof("C19", ["C04"], data=["C19"], tag={"cwd": ["C19"]})
    g.cfg()
    g.sc["sub"] = 14
    exp = {"e": "subshell"}
    k = g.r.random()
    if k > 0.85:
        # one that stays while others come and go: they must not wait for it
        sub = {"t": "sub", "p": g.pipe([g.prog({"do": [["out", {"lines": [5], "tag": "w"}, 0, 0], ["sleep", 50.0]]}, "w"),
                                        g.filter(("cat",))])}
        if g.p(0.3):
            sub = {"t": "pipe", "a": sub, "b": g.filter(("cat",))}
        js = [{"p": sub, "mode": "iterbytes", "delay": g.one(0, 0.001, 0.003, 0.01)}]
        for _ in range(g.one(1, 2)):
            if g.p(0.6):
                a = g.producer(("fn:ignore",), sleeps=False)
                g.specs[a["l"]]["sleep"] = g.one(0.001, 0.01)
                o = g.pipe([a, g.filter(("cat", "slurp"))] + [g.fnfilter(("map",))] * g.one(0, 1))
            elif g.p(0.5):
                o = argprog(g)
            else:
                o = g.chain()[0]
            js.append({"p": o, "delay": g.one(0, 0.001, 0.01), "within": 40.0, "mode": "iterbytes"})
        g.step(jobs=js)
        g.sc["expect"] = [{"e": "within", "props": ["C19"]}, exp]
        return
    bad = g.p(0.4)
    if bad:
        inner = endchain(g, g.one(1, 2, 2, 3), ("exit0", "exitn", "kill", "fn", "raise"))
    else:
        st = [g.source(err=False)]
        for _ in range(g.one(0, 0, 1, 2)):
            st.append(g.filter(("cat", "slurp")) if g.p(0.6) else g.fnfilter(("map", "collect", "sink")))
        inner = g.pipe(st)
    sub = {"t": "sub", "p": inner}
    p = sub
    if k < 0.3:
        p = {"t": "pipe", "a": sub, "b": g.filter(("cat",))}
    elif k < 0.4:
        p = g.pipe([g.source(err=False, data=g.data(maxtotal=2000)), {"t": "sub", "p": g.filter(("cat", "slurp"))}])
        bad = False
    elif k < 0.5:
        # what is inside cannot be started
        how = g.one("cd", "openfn", "openfn", "missing")
        if how == "cd":
            inner = {"t": "cd", "path": g.one("/work/nowhere", "nowhere", "/work/sub/../no")}
        elif how == "openfn":
            f = g.producer(("it:list", "it:gen"), items=[["s", "x"]], sleeps=False) if g.p(0.5) else g.fnfilter(("map", "sink"))
            inner = {"t": "red", "fd": "stdout", "to": "/work/nowhere/x", "p": f}
            if f["t"] == "fn":
                inner = {"t": "pipe", "a": g.prog({"do": []}, "s"), "b": inner}
        else:
            inner = {"t": "prog", "l": g.label("nx"), "bin": "missing"}
        sub["p"] = inner
        exp["fails"] = True
        if g.p(0.4):
            p = {"t": "pipe", "a": sub, "b": g.filter(("cat",))}
    elif k < 0.58:
        # it has a directory of its own
        sub["p"] = {"t": "cd", "path": g.one("/work/sub", "/tmp", "sub")}
        exp["works"] = True
        g.job(sub, g.one("fg", "bytes"))
        g.job(g.prog({"do": [["out", g.data(maxtotal=200), "l", 0]]}, "s", cwd="/work"), "bytes")
        g.sc["expect"] = [exp]
        return
    elif k < 0.66:
        p = {"t": "sub", "p": sub}
    if g.p(0.35):
        js = [{"p": p, "mode": "iterbytes"}, {"p": g.chain(2)[0], "mode": "iterbytes"}]
        g.step(jobs=js)
    else:
        if g.p(0.15) and "fails" not in exp:
            # all in it are interrupted, the shell is not
            exp["int"] = True
            g.fault(at=g.r.randrange(20, 250), name="tty_int", kids_only=True)
        g.job(p, g.one("bytes", "iterbytes"), may_raise="int" in exp)
        if g.p(0.3):
            g.job(g.source(), "bytes", may_raise="int" in exp)
    g.sc["expect"] = [exp]


def c26(g):
    g.prof("C26", ["C04"], tag={c: ["C26"] for c in ("data", "lines", "joblist", "zombie", "never-ends", "fd-leak")})
    g.cfg(slots=g.one(1, 2, 16))
    if g.p(0.3):
        g.sc["envs"] = [{"interactive": True}]
    if g.p(0.4):
        # one that goes on meanwhile
        g.job(g.pipe([g.prog({"do": [["out", {"lines": [20] * 6, "tag": "b"}, "l", g.one(0.001, 0.01)]]}, "b"),
                      g.filter(("slurp",))]), "bg")
    ign = [["sigign", 2]] if g.p(0.4) else []
    x = g.r.random()
    slow = g.one(0, 0, 0.001)
    line = {"lines": [g.one(3, 40, 1000, 1023, 1024, 5000)], "tag": "y"}
    if x < 0.25:
        st = [g.prog({"do": ign + [["yes", line]]}, "y")]
    elif x < 0.4:
        st = [g.producer(("fn:ignore", "fn:gen", "it:gen"), items=[], inf=True, inflen=g.one(3, 50, 1100, 5000))]
    elif x < 0.5:
        st = [g.producer(("fn:aiterobj", "fn:aiterable", "fn:ignore"), items=[["s", "q"]], inf=True, sleep=0.0005)]
    elif x < 0.6:
        st = [g.prog({"do": ign + [["out", {"lines": [10] * 3, "tag": "f"}, "l", slow], ["yes", line]]}, "y")]
    elif x < 0.7:
        st = [g.prog({"do": ign + [["out", {"lit": "good\nb\xff\xfea\n"}, 0, 0], ["yes", line]]}, "y")]
    elif x < 0.8:
        st = [g.source(data={"lines": [300] * g.one(5, 80), "tag": "b"})]
    elif x < 0.9:
        st = [{"t": "grp", "a": g.prog({"do": ign + [["yes", line]]}, "y"),
               "b": g.prog({"do": ign + [["yes", {"lines": [g.one(3, 40)], "tag": "z"}]]}, "y")}]
    else:
        g.sc["sub"] = 14
        st = [{"t": "sub", "p": g.prog({"do": ign + [["yes", line]]}, "y")}]
    for _ in range(g.one(0, 0, 1, 2)):
        st.append(g.filter(("cat",)) if g.p(0.6) else g.fnfilter(("map",)))
    if not g.ispipe(st) and st[0]["t"] in ("fn", "it"):
        st.append(g.filter(("cat",)))
    p = g.pipe(st)
    if g.p(0.6):
        g.job(p, "list", consume=g.one(0, 1, 1, 2, 5, 30), close=g.p(0.5))
    else:
        # forever, if not for the interrupt
        g.job(p, g.one("list", "bytes", "str"), may_int=True, endless=True)
        for _ in range(g.one(1, 1, 2)):
            g.fault(at=g.r.randrange(30, g.one(120, 800)), name="tty_int", when_fg="read", shell_only=g.p(0.4))
    g.step(op="sleep", t=g.one(0.01, 0.2, 1.0))
    g.job(g.chain(g.one(1, 2))[0], g.one("bytes", "iterbytes"), may_int=True)
    if g.p(0.5):
        g.step(op="joblist")
    g.step(op="settle")
    g.step(op="joblist")
    g.sc["expect"] = [{"e": "released"}]
    g.noise(0.15, kids=False)


def c27(g):
    """What is told about the parts of a pipeline, while they are stopped, continued, killed and end."""
    g.prof("C27", None, raise_=[])
    g.cfg(pid_reuse=g.one(0, 0, 50, 100))
    js = []
    ops = []
    n = g.one(1, 2, 2, 3)
    for _ in range(n):
        k = g.r.random()
        js.append({"p": rich(g) if k < 0.3 else endchain(g, g.one(1, 2, 3, 4), ENDS + ("exitn", "kill")) if k < 0.7
                   else longchain(g, True),
                   "mode": g.one("bg", "wait", "aiter", "await", "bg", "iterbytes"), "may_raise": True})
    for _ in range(g.one(3, 6, 10)):
        ops.append({"op": "inspect", "job": g.r.randrange(n), "at": g.one(0, 0.0005, 0.001, 0.003, 0.01, 0.03, 0.08)})
    for _ in range(g.one(0, 1, 2, 4)):
        ops.append({"op": g.one("suspend", "restart"), "job": g.r.randrange(n),
                    "at": g.one(0, 0.0005, 0.001, 0.003, 0.01, 0.03)})
    for i in range(n):
        ops.append({"op": "restart", "job": i, "at": 0.2})
    for _ in range(g.one(0, 1)):
        ops.append({"op": "foreign", "t": 0.01, "at": 0.001})
    g.step(jobs=js, ops=ops)
    for i in range(n):
        g.step(op="inspect", job=i)
        if g.p(0.5):
            g.step(op=g.one("suspend", "restart", "sleep"), job=i, t=0.01)
            g.step(op="inspect", job=i)
    for i in range(n):
        g.step(op="restart", job=i)
    g.step(op="sleep", t=0.5)
    for i in range(n):
        g.step(op="inspect", job=i)
    for _ in range(g.one(1, 2, 3, 5)):
        g.fault(at=g.r.randrange(40, g.one(200, 600)), name="stop_kid", i=g.r.randrange(4), sig=g.one(19, 20, 21, 22),
                **{"for": g.one(1, 3, 100, 400, 1000)})
    if g.p(0.3):
        g.fault(at=g.r.randrange(50, 500), name="kill_kid", i=g.r.randrange(4), sig=g.one(9, 15, 11, 6, 2))
    g.noise(0.2, kids=False)


def c28(g):
    """Entering pipelines at a prompt, and looking at what has been run, is run, or is not to be run."""
    g.prof("C28", None, raise_=[])
    g.cfg()
    g.sc["envs"] = [{"interactive": True}, {}]
    n = 0

    def pl():
        k = g.r.random()
        if k < 0.4:
            return rich(g)
        if k < 0.7:
            return endchain(g, g.one(1, 2, 3), ENDS + ("exitn", "kill"))
        if k < 0.78:
            return {"t": "cd", "path": g.one("/work", "sub", "/tmp")}
        if k < 0.85:
            return {"t": "prog", "l": g.label("nx"), "bin": "missing"}
        return g.group()
    for _ in range(g.one(1, 2, 3)):
        k = g.r.random()
        p = pl()
        if k < 0.1 and p["t"] != "cd":
            # the same one entered again
            key = "s%d" % n
            g.sc["shared"][key] = g.prog({"do": [["out", g.data(maxtotal=200), 1, 0]]}, "s")
            for m in g.one(["repr", "repr"], ["repr", "fg", "repr"], ["bg", "repr"]):
                g.job({"t": "ref", "id": key}, m, may_raise=True, env=0)
                n += 1
        if k < 0.6:
            m = g.one("repr", "repr", "fg", "bg", "pos")
            g.job(p, m, may_raise=True, env=0)
            n += 1
            if m == "bg" and g.p(0.4):
                g.job({"t": g.one("fg", "bg"), "job": n - 1}, g.one("fg", "repr"), noplan=True, ctl="fg", may_raise=True)
                n += 1
        elif k < 0.75:
            g.job(p, g.one("bg", "fg"), may_raise=True, env=1)
            n += 1
        else:
            js = [{"p": p if p["t"] != "cd" else endchain(g), "mode": g.one("wait", "await", "aiter", "bg"),
                   "may_raise": True, "env": g.r.randrange(2)}]
            ops = [{"op": "show", "at": g.one(0, 0.0005, 0.001, 0.003, 0.01, 0.03),
                    **({"job": n, "env": js[0]["env"]} if g.p(0.7) else {"env": g.r.randrange(2)})}
                   for _ in range(g.one(1, 2, 4))]
            g.step(jobs=js, ops=ops)
            n += 1
        for _ in range(g.one(0, 1, 1, 2)):
            if g.p(0.3):
                g.step(op=g.one("poll", "sleep", "settle"), t=0.002)
            k = g.r.random()
            if k < 0.5 and n:
                i = g.r.randrange(n)
                g.step(op="show", job=i, env=0)
            elif k < 0.7:
                g.step(op="show", env=0)
            elif k < 0.85:
                g.step(op="show", env=0, odd=g.one("value", "value", "recursion"), within=g.one(0, 0, 1, 2))
            elif k < 0.93:
                g.step(op="show", ps=[endchain(g, g.one(1, 2, 3)) if g.p(0.6) else argprog(g) if g.p(0.5) else g.group()
                                      for _ in range(g.one(1, 2, 3))], env=g.one(0, 0, 1), **({"as": "dict"} if g.p(0.3) else {}))
            else:
                g.step(op="show", p=endchain(g, g.one(1, 2, 3)) if g.p(0.7) else g.group(), env=1)
    g.step(op="settle")
    for i in range(n):
        g.step(op="show", job=i, env=0)
    g.step(op="show", env=0)
    if g.p(0.3):
        g.fault(at=g.r.randrange(50, 500), name="kill_kid", i=g.r.randrange(4), sig=g.one(9, 15, 11, 6))
    if g.p(0.2):
        g.fault(at=g.r.randrange(30, 300), name=g.one("tty_int", "tty_tstp"), when_fg=True)
    for i in range(n):
        g.step(op="ifsusp", job=i, do="restart")
    g.noise(0.2, kids=False)
    g.sc["expect"] = [{"e": "once"}]


def c29(g):
    """Redirections to PIPE, whose other ends the caller has to look after."""
    import os
    g.prof("C29", None, raise_=["C29"], tag={x: ["C29"] for x in ("fds", "fd", "wiring", "fd-leak", "again")})
    g.sc["prof"]["hang"] = ["C29"]
    g.cfg()

    def conn(write):
        c = {"do": "write" if write else g.one("read", "read", "read", "close")}
        if write and g.p(0.15):
            c["do"] = "close"
        if write:
            c["data"] = g.data(maxtotal=g.one(300, 9000, 20000))
            c["chunk"] = g.one(0, 100, 1000, 4096) if len(gen_data(c["data"])) < 4000 else g.one(0, 1000, 4096)
        else:
            c["chunk"] = g.one(0, 1000, 4096, 100)
            if g.p(0.15):
                c["upto"] = g.one(1, 100, 5000)
        if g.p(0.3):
            c["delay"] = g.one(0.0005, 0.005, 0.05)
        if g.p(0.15):
            c["slp"] = 0.0003
        return c

    def red(fd, flag=None):
        n = {"fd": fd, "to": "PIPE", "conn": conn(fd == "stdin" or flag == os.O_RDONLY)}
        if flag is not None:
            n["flag"] = flag
        return n

    def some(first, last, only=None):
        fds = [fd for fd in ("stdin", "stdout", "stderr") if only is None or fd == only]
        return [red(fd) for fd in fds if g.p(0.5 if only is None else 1) and (fd != "stdin" or first) and (
            fd != "stdout" or last)]

    def prog(first):
        """one that writes to everything it has"""
        p = g.source() if first and g.p(0.5) else g.filter()
        do = g.specs[p["l"]]["do"]
        if g.p(0.6):
            do.insert(g.r.randrange(len(do) + 1), ["err", g.data(maxtotal=g.one(300, 9000)), 0])
        if g.p(0.1):
            do.append(["kill", g.one(9, 15)])
        elif g.p(0.15):
            g.specs[p["l"]]["exit"] = g.exitcode()
        return p

    def extra(p):
        do = g.specs[p["l"]]["do"]
        for fd in g.one([3], [5], [7, 4], [3, 4, 5]):
            if g.p(0.5):
                p.setdefault("redirs", []).append(red(fd, os.O_RDONLY))
                do.insert(g.r.randrange(len(do) + 1), ["infd", fd, g.one(0, 1000), 0])
            else:
                p.setdefault("redirs", []).append(red(fd, os.O_WRONLY))
                do.insert(g.r.randrange(len(do) + 1), ["outfd", fd, g.data(maxtotal=9000)])

    def stage(first, last):
        if g.p(0.25):
            return (g.producer() if first and g.p(0.5) else g.fnfilter()), True
        p = prog(first)
        if g.p(0.3):
            extra(p)
        return p, False

    def pipeline(own):
        k = g.r.random()
        if k < 0.2:
            p = prog(True)
            for fd in ("stdin", "stdout", "stderr"):
                if g.p(0.5) and (own or fd != "stdout"):
                    p.setdefault("redirs", []).append(red(fd))
            if g.p(0.4):
                extra(p)
            return p
        if k < 0.4:
            p = {"t": "grp", "a": prog(True), "b": prog(True) if g.p(0.7) else g.fnfilter()}
            if g.p(0.2):
                p = {"t": "grp", "a": p, "b": prog(True)}
        elif k < 0.5:
            g.sc["sub"] = g.sc.get("sub", 0) + 24
            p = {"t": "sub", "p": g.pipe([g.filter(("cat", "slurp")) for _ in range(g.one(1, 2))])}
            if g.p(0.4):
                p = g.pipe([prog(True), p] if g.p(0.5) else [p, g.filter()])
        else:
            n = g.one(1, 2, 2, 3)
            st = []
            for i in range(n):
                s, f = stage(i == 0, i == n - 1)
                if f and i == 0 and n == 1:
                    s = prog(True)
                if g.p(0.15) and s["t"] != "it":
                    for r in some(i == 0, own and i == n - 1, g.one("stdin", "stdout", "stderr") if s["t"] == "prog" else
                                  g.one("stdin", "stdout")):
                        s = dict({"t": "red", "p": s}, **r)
                st.append(s)
            p = g.pipe(st)
        for r in some(True, own):
            if g.p(0.7):
                p = dict({"t": "red", "p": p, "style": g.one("redirect", "ror")}, **r)
        return p

    js = []
    for _ in range(g.one(1, 1, 2, 3)):
        m = g.one("wait", "awaitrun", "wait", "iterbytes", "aiter")
        j = {"p": pipeline(m in ("wait", "awaitrun")), "mode": m, "connect": True}
        if m == "aiter":
            j["run"] = True
            j["may_raise"] = True
            if '"grp"' in repr(j["p"]).replace("'", '"'):
                # (what its members write need not be text when put together)
                m = j["mode"] = "iterbytes"
        if m in ("wait", "awaitrun") and g.p(0.3):
            j["redirs"] = some(True, True)
        if g.p(0.3):
            j["delay"] = g.one(0.0003, 0.002, 0.02)
        if g.p(0.1):
            # it cannot be started, and nothing is handed to anybody
            j = {"p": j["p"], "mode": "wait", "connect": True, "may_raise": True, "startfault": (
                {"name": g.one("fork", "pipe", "dup", "open"), "n": g.one(0, 1, 2, 3), "errno": 24})}
            g.sc["prof"]["tmp_always"] = True
        js.append(j)
    if g.p(0.2):
        # one blocking call after the other
        p = g.source(err=False)
        fd = g.one("stdout", "stderr", "stdin", 5)
        if fd == "stderr":
            g.specs[p["l"]]["do"].append(["err", g.data(maxtotal=9000), 0])
        elif fd == "stdin":
            p = g.filter()
        elif fd == 5:
            g.specs[p["l"]]["do"].append(["outfd", fd, g.data(maxtotal=9000)])
        p["redirs"] = [red(fd, os.O_WRONLY if fd == 5 else None)]
        if fd == 5:
            p["redirs"][0]["flag"] = os.O_WRONLY
        for o in ("stdout", "stderr"):
            if fd != o:
                p["redirs"].append({"fd": o, "to": "/work/o" + o})
        g.job(p, "bg", connect=True)
        if g.p(0.5):
            g.step(op="sleep", t=0.01)
    g.step(jobs=js)
    g.step(op="settle")
    g.step(op="poll", n=12)
    g.step(op="sleep", t=20.0)
    g.step(op="settle")
    g.step(op="poll", n=12)
    g.step(op="fds", name="afterwards")
    g.noise(0.2, kids=False)


def c32(g):
    g.prof("C32", ["C04"], data=["C32"],
           tag={c: ["C32"] for c in ("argv", "cwd", "env", "wiring", "fd", "missed-failure", "false-failure",
                                     "unexpected-exception", "flags", "argfd", "arg-data", "capture", "no-capture")})
    g.cfg()
    g.sc["sub"] = 24
    dirs = ("/work", "/work/sub", "/tmp")
    envs = g.sc["envs"] = []
    for i in range(g.one(1, 1, 2)):
        envs.append({"cwd": g.one(*dirs), "exports": {"PATH": "/bin", "HOME": "/home/user", "V%d" % i: g.one("1", "a b", "")}})
        if g.p(0.15):
            # redirections that all its pipelines have
            envs[-1]["redirs"] = [{"fd": "stderr", "to": g.one("/work/ee%d" % i, "/dev/null")}]
            envs[-1]["how"] = g.one("or", "arg")
    opts = g.one(["host"], ["host"], ["-p", "22", "user@host"])
    exp = {"e": "subshell", "prop": "C32", "opts": opts}

    def at(p, i):
        for st in leaves(p):
            st["env"] = i
            st["cwd"] = envs[i]["cwd"]
            st["exports"] = dict(envs[i]["exports"])
        return p

    def there(bad):
        """What runs at the other end: nothing that exists here only."""
        i = g.r.randrange(len(envs))
        its = [it for it in g.itemlist(0, 12, 3000) if it[0] in "sbif"]
        x = g.r.random()
        if x < 0.3:
            p = g.pipe([g.source(err=False, data=g.data(maxtotal=4000))] + [g.filter(("cat", "slurp"))] * g.one(0, 1))
        elif x < 0.45:
            p = g.pipe([g.producer(("it:list", "it:tuple"), items=its), g.filter(("cat", "slurp"))])
        elif x < 0.6:
            p = g.prog({"do": [["argin", 2, 0]]}, "a", args=[{"p": g.source(err=False, data=g.data(maxtotal=1000)) if g.p(0.5)
                                                           else g.producer(("it:list",), items=its)}])
        elif x < 0.75:
            p = {"t": "grp", "a": g.prog({"do": [["out", {"lines": [9], "tag": g.label("m")}, 0, 0]]}, "m"),
                 "b": g.prog({"do": [["out", {"lines": [12], "tag": g.label("m")}, 0, 0]]}, "m")}
        elif x < 0.85:
            p = g.prog({"do": [["out", {"lines": [9]}, 0, 0]]}, "w",
                       args=[g.one("x", "a b", "", {"raw": "*"}, {"raw": "%(V0)s~"}) for _ in range(g.one(1, 2))]
                       + [{"opt": "o_p", "v": g.one(True, "val", 7)}] * g.one(0, 1))
        elif x < 0.9:
            p = {"t": "red", "fd": "stdout", "to": "/work/r%d" % g.r.randrange(3), "p": g.source(err=False, data=g.data(maxtotal=500)),
                 "style": g.one("str", "redirect")}
        else:
            import os
            p = g.prog({"do": [["out", {"lines": [4], "tag": "o"}, 0, 0], ["err", {"lines": [6], "tag": "e"}, 0]]}, "e",
                       redirs=[g.one({"fd": "stderr", "to": "/work/e0"}, {"fd": "stderr", "to": 1}, {"fd": 2, "to": "TMP"},
                                     {"fd": "stdin", "to": "/dev/null"}, {"fd": "stderr", "to": "STRING"},
                                     {"fd": "stderr", "to": "/work/e1", "flag": os.O_WRONLY | os.O_CREAT | os.O_APPEND})])
        if bad:
            st = g.one(*leaves(p))
            g.specs[st["l"]]["exit"] = g.exitcode()
        p = at(p, i)
        x = g.r.random()
        if x < 0.08:
            p = {"t": "remote", "opts": opts, "p": p}
        elif x < 0.14:
            p = {"t": "sub", "p": p}
        elif x < 0.2:
            p = {"t": "pipe", "a": p, "b": at(g.filter(("cat",)), i)}
        return p

    def remote(bad, once=True):
        x = g.r.random()
        if x < 0.25:
            # data goes there and comes back
            p = g.pipe([g.filter(("cat", "slurp"))] + [g.filter(("cat",))] * g.one(0, 0, 1))
            if bad:
                g.specs[g.one(*leaves(p))["l"]]["exit"] = g.exitcode()
            r = {"t": "remote", "opts": opts, "p": at(p, g.r.randrange(len(envs)))}
            return g.pipe([g.source(err=False, data=g.data(maxtotal=4000)) if g.p(0.6) else
                           g.producer(None if once else ("it:list", "it:tuple", "fn:ignore", "fn:gen")), r]
                          + [g.one(g.filter(("cat",)), g.fnfilter(("map",)))] * g.one(0, 1))
        r = {"t": "remote", "opts": opts, "p": there(bad)}
        if x < 0.5:
            return g.pipe([r, g.filter(("cat",)) if g.p(0.5) else g.fnfilter(("map", "collect"))])
        if x < 0.6:
            return g.prog({"do": [["argin", 2, 0]]}, "a", args=[{"p": r}])
        if x < 0.66:
            return {"t": "sub", "p": r}
        return r

    def before():
        """Whatever has been run before, or is still running."""
        for _ in range(g.one(0, 1, 1, 2)):
            i = g.r.randrange(len(envs))
            x = g.r.random()
            if x < 0.3:
                p = g.chain(2)[0]
            elif x < 0.5:
                p = {"t": "remote", "opts": opts, "p": there(False)}
            elif x < 0.7:
                p = argprog(g)
            else:
                p = g.pipe([g.producer(sleeps=False), g.filter(("cat",))])
            if g.p(0.4):
                y = g.prog({"do": [["sleep", g.one(0.01, 1.0)]], "exit": g.one(0, 0, 3)}, "w")
                g.job(y if g.p(0.5) else g.pipe([y, g.fnfilter(("collect",))]), "bg", env=i)
            else:
                g.job(p, g.one("bytes", "fg"), env=i)
    for _ in range(g.one(1, 2, 2)):
        before()
        bad = g.p(0.3)
        i = g.r.randrange(len(envs))
        if g.p(0.3):
            g.shared["r"] = remote(bad, False)
            js = [{"p": {"t": "ref", "id": "r"}, "mode": "iterbytes", "env": i, "delay": d} for d in (0, g.one(0, 0.001))]
            g.step(jobs=js)
            break
        if g.p(0.3):
            g.step(jobs=[{"p": remote(bad), "mode": "iterbytes", "env": i}, {"p": g.chain(2)[0], "mode": "iterbytes", "env": i}])
        else:
            g.job(remote(bad), g.one("bytes", "fg", "iterbytes"), env=i)
    g.noise(0.2)
    g.sc["expect"] = [exp]


def quote_declare(v):
    """The way bash writes a value in declare -x."""
    if any(ord(c) < 32 or ord(c) == 127 for c in v):
        out = "$'"
        for c in v:
            if c == "\n":
                out += "\\n"
            elif c == "\t":
                out += "\\t"
            elif c == "\r":
                out += "\\r"
            elif c == "\x1b":
                out += "\\E"
            elif c == "\x07":
                out += "\\a"
            elif c in "\\'":
                out += "\\" + c
            elif ord(c) < 32 or ord(c) == 127:
                out += "\\%03o" % ord(c)
            else:
                out += c
        return out + "'"
    return '"' + "".join("\\" + c if c in '"\\$`' else c for c in v) + '"'


def c20(g):
    g.prof("C20", ["C04"])
    g.cfg()
    vals = ["", "x", "a b", "  lead", "tr ", 'q"uote', "it's", "back\\slash", "dollar$HOME", "`tick`", "a=b=c", "#hash",
            "semi;colon", "new\nline", "tab\there", "\u00e4\u20ac\u6f22", "(paren)", "{brace}", "*?[a]", "~", "!bang",
            "x" * 1500, "a\\nb", "$", "\\", '"', "'", "\\\\n", "l1\nl2\nl3", "\x1b[0m", "declare -x FAKE=\"1\"",
            "a\ndeclare -x FAKE=\"2\"", "f () \n{ \n", "$(cmd)", "&&", "|", ">", "<", "trail\\", "\n", "cr\rx", "\u00e4\n", "\u20ac\x01x",
            "a\n\n b", "\x7f", "\x07\x0b\x0c\x08", "\\x41\n", "\\u00e4\n", "\\E\x1b\\e", "\\N{DASH}\t", "it's\nq\"", "\\\n", "\U0001f600\t\u00ff",
            "\x01" "7", "\\\\001\n", "\u0080\n"]
    names = ["A", "B_1", "_C", "PATH", "HOME", "LONGNAME", "z", "declare", "X9", "FUNC"]
    want = {}
    r = g.r
    order = names[:r.randrange(1, len(names) + 1)]
    r.shuffle(order)
    lines = []
    for n in order:
        if g.p(0.1):
            lines.append("declare -x %s" % n)
            want[n] = None
            continue
        v = g.one(*vals) if g.p(0.8) else "v%d" % r.randrange(1000)
        flag = g.one("-x", "-x", "-x", "-x", "-rx", "-ix", "-lx")
        if flag != "-x":
            v = "7"
        lines.append("declare %s %s=%s" % (flag, n, quote_declare(v)))
        want[n] = v
    if g.p(0.2):
        lines.append("declare -ax ARR=([0]=\"1\" [1]=\"2\")")
    text = "\n".join(lines) + "\n"
    funcs = g.one(0, 0, 1, 2)
    for i in range(funcs):
        body = g.one("    echo hi", "    echo \"it's\" # don't", "    case $x in\n        a) echo 'x' ;;\n    esac",
                     "    local a=\"${1:-}\";\n    declare -x IN=\"no\"", "    cat <<EOF\n'unbalanced\nEOF\n",
                     "    declare -x INNER=\"5\"", "    echo \\\"")
        text += "fun%d () \n{ \n%s\n}\n" % (i, body)
    d = {"lit": text.encode("utf-8").decode("latin1")}
    spec = {"do": [["bash", d, g.one(0, 1, 17, 100, 1000) if len(text) < 300 else g.one(0, 100, 333, 1000, 1024),
                    [0.001] * g.one(0, 1, 2)]], "exit": 0}
    fail = g.p(0.2)
    k = g.r.random()
    exp = {"e": "bash", "want": want, "job": 0}
    if fail:
        kind = g.one("exit", "kill", "early")
        if kind == "exit":
            spec["exit"] = 3
        elif kind == "kill":
            # dies in the middle of its report
            spec["do"][0].append(g.r.randrange(0, max(1, len(text))))
            spec["do"][0].append(g.one(9, 15))
            exp["partial"] = True
        else:
            spec["do"] = []
            spec["exit"] = 1
            exp["partial"] = True
    g.specs["bash"] = spec
    exp["total"] = len(gen_data(d))
    g.sc["files"] = {"/work/script.sh": {"data": {"lit": "export A=1\n"}}}
    g.sc["envs"] = [{"exports": {"PATH": "/bin", "HOME": "/home/user", "KEEP": "kept", "A": "old"}}, {}]
    exp["keep"] = g.sc["envs"][0]["exports"]
    paths = ["script.sh"]
    exp["scripts"] = ["/work/script.sh"]
    if g.p(0.5):
        paths, exp["scripts"] = [], []
        for _ in range(g.one(0, 1, 1, 1, 2)):
            n = g.one("script.sh", "it's.sh", "a b.sh", 'q"uote.sh', "dol$lar.sh", "back\\slash.sh", "semi;colon.sh",
                      "sub/in.sh", "/work/sub/abs.sh", "'.sh", "`x`.sh", "tab\t.sh")
            full = n if n.startswith("/") else "/work/" + n
            g.sc["files"][full] = {"data": {"lit": "export A=1\n"}}
            exp["scripts"].append(full)
            paths.append({"raw": n} if g.p(0.2) else n)
        if not exp["scripts"] and g.p(0.7):
            # all of them, by a pattern
            for n in ("it's", "a b", "p"):
                g.sc["files"]["/work/other/%s.sh" % n] = {"data": {"lit": "export A=1\n"}}
                exp["scripts"].append("/work/other/%s.sh" % n)
            paths.append("other/*.sh")
            exp["anyorder"] = True
    p = {"t": "bashsource", "paths": paths}
    if g.p(0.5):
        g.job(p, "fg")
    else:
        g.step(jobs=[{"p": p, "mode": g.one("wait", "await")}], ops=[{"op": "exports", "at": g.one(0, 0.0001, 0.0005, 0.001,
                                                                                          0.002), "name": "during"}])
        exp["during"] = True
    g.sc["expect"] = [exp]
    g.noise(0.1)


def shared_pipe(g, read=0.4, slow=1.0):
    """A Python stage that shares its pipes with a program."""
    d = {"lines": [g.one(8, 30, 60) for _ in range(g.one(5, 30, 60))], "tag": "z"}
    chunk = "l"
    ni = g.one(3, 30, 60)
    if g.p(0.4):
        # each time there is room again, both want to fill it
        d["lines"] = [g.one(500, 1000, 4000) for _ in range(g.one(5, 15))]
        chunk = g.one(4096, 8192)
        ni = g.one(10, 30)
        g.sc["cfg"]["slots"] = g.one(1, 1, 2)
    a = g.producer(("it:list", "fn:ignore"), items=[g.item(g.one(30, 60, 500)) for _ in range(ni)])
    b = g.prog({"do": [["out", d, chunk, g.delay(0.3)]]}, "m")
    rd = g.prog({"do": [["sleep", g.one(0, 0.1, slow)], ["cat", g.one(100, 4096), g.delay(0.5), None]]}, "slow")
    if g.p(read):
        a, b = g.fnfilter(("map", "collect"), swap=False), g.prog({"do": [["cat", g.one(50, 1000), g.delay(0.5), None]]}, "c")
    grp = {"t": "grp", "a": a, "b": b} if g.p(0.5) else {"t": "grp", "a": b, "b": a}
    st = [grp, rd]
    if a["l"][0] == "f":
        st.insert(0, g.source(data=d) if g.p(0.6) else g.producer(("it:list",), items=[
            g.item(g.one(30, 60, 500)) for _ in range(g.one(3, 30))]))
    if g.p(0.3):
        st.append(g.fnfilter(("map",)))
    return st


def c21(g):
    g.prof("C21", ["C04"])
    g.cfg(slots=g.one(1, 2, 16))
    js = []
    k = g.r.random()
    total = 50000
    if k < 0.4:
        # a lot of data for a reader that is slow or does nothing for long
        rd = g.prog({"do": [["sleep", g.one(5.0, 20.0)], ["cat", g.one(500, 4096), 0.0001, None]]}, "slow")
        items = [g.item(g.one(500, 3000, 4096, 5000, 20000)) for _ in range(g.one(4, 10))]
        src = g.producer(("it:list", "it:gen", "fn:ignore", "fn:gen"), items=items[:12])
        st = [src, rd]
        js.append({"p": g.pipe(st), "mode": "iterbytes"})
    elif k < 0.75:
        # Python stages on both sides of slow programs
        d = {"lines": [g.one(30, 500, 1000, 4000) for _ in range(g.one(5, 15))], "tag": "z"}
        st = [g.producer(("it:list", "fn:ignore"), items=[g.item(g.one(30, 1000, 4000, 5000)) for _ in range(g.one(3, 12))]),
              g.prog({"do": [["cat", g.one(100, 4096) if g.p(0.3) else 4096, g.delay(0.7), None]]}, "c"),
              g.fnfilter(("map", "collect")),
              g.prog({"do": [["sleep", g.one(0, 2.0)], ["cat", 4096, 0, None]]}, "c")]
        if g.p(0.4):
            st = st[1:]
            st[0] = g.source(data=d)
        if g.p(0.4):
            st.append(g.fnfilter(("map",)))
        js.append({"p": g.pipe(st), "mode": "iterbytes"})
    elif k < 0.9:
        st = shared_pipe(g, slow=10.0)
        js.append({"p": g.pipe(st), "mode": "iterbytes"})
    else:
        # a stopped program in the middle
        st = [g.producer(("it:list", "fn:ignore"), items=[g.item(g.one(1000, 4000, 5000)) for _ in range(8)]),
              g.filter(("cat",))]
        js.append({"p": g.pipe(st), "mode": "iterbytes"})
        g.fault(at=g.r.randrange(20, 300), name="stop_kid", i=g.r.randrange(2), **{"for": g.one(200, 500)})
    for _ in range(g.one(0, 1, 1)):
        js.append({"p": g.chain(2)[0], "mode": "iterbytes", "delay": g.one(0, 0.01, 0.3)})
    n = g.one(5, 10)
    g.step(jobs=js, ops=[{"op": "tick", "n": n, "t": 0.05}])
    g.sc["expect"] = [{"e": "ticks", "slack": 2.0}]


def c22(g):
    g.prof("C22", ["C04"], tag={c: ["C22"] for c in ("never-ends", "joblist", "data", "zombie", "fd-leak", "argv")})
    g.cfg()
    if g.p(0.5):
        g.sc["envs"] = [{"interactive": True}]
    st = [g.prog({"do": ([["sigign", 2]] if g.p(0.4) else []) + [["sleep", g.one(0.001, 0.01)], ["out", {
        "lines": [10] * 5, "tag": "i"}, "l", 0.003]]}, "s")]
    if g.p(0.5):
        st.append(g.fnfilter(("map", "collect")) if g.p(0.4) else g.prog({"do": ([["sigign", 2]] if g.p(0.4) else []) + [
            ["cat", 0, 0, None]]}, "c"))
    work = g.p(0.25)
    if work:
        # a Python stage that computes
        if g.p(0.5):
            st[0] = g.fn({"fn": g.one("ignore", "gen"), "items": [g.item(g.one(5, 100)) for _ in range(8)], "work": g.one(0.001, 0.01)}, "w")
            if len(st) == 1:
                st.append(g.filter(("cat",)))
        else:
            st.insert(1, g.fn({"fn": "map", "work": g.one(0.001, 0.01)}, "w"))
    q = g.pipe(st)
    if g.p(0.15):
        g.sc["sub"] = 12
        q = {"t": "sub", "p": q}
    if g.p(0.2):
        # brought to the foreground
        g.job(q, "bg")
        g.job({"t": "fg", "job": 0}, g.one("fg", "pos"), noplan=True, ctl="fg")
    else:
        g.job(q, g.one("fg", "pos", "repr") if "envs" in g.sc else g.one("fg", "pos"))
    if work and g.p(0.6):
        g.fault(who="root", op="sleep", n=g.r.randrange(0, 6), sig=2)
    elif g.p(0.3) and any(x["t"] == "prog" for x in st):
        # the interrupt hits the shell in the middle of its own work on the pipeline
        g.fault(who="root", op="kill", n=g.r.randrange(0, sum(1 for x in st if x["t"] == "prog")), sig=2)
    else:
        for _ in range(g.one(1, 1, 2)):
            g.fault(at=g.r.randrange(30, g.one(120, 500)), name="tty_int", when_fg=g.one(True, "busy"), shell_only=g.p(0.4))
    if g.p(0.5):
        g.step(op="joblist")
    g.job(g.chain(g.one(1, 2))[0], g.one("bytes", "fg"), may_int=True)
    g.job(g.source(err=False), "bytes", may_int=True)
    g.step(op="settle")
    g.step(op="joblist")
    g.sc["expect"] = [{"e": "interrupt"}]


def c23(g):
    g.prof("C23", None, raise_=[])
    g.cfg()
    inter = g.p(0.2)
    g.sc["envs"] = [{}, {}][:g.one(1, 1, 2)]
    ne = len(g.sc["envs"])
    if g.p(0.25):
        # the same one run several times
        g.shared["r"] = g.pipe([g.prog({"do": [["out", g.data(maxtotal=300), "l", 0], ["sleep", g.one(0, 0.002, 0.02)]]}, "s")]
                               + [g.filter(("cat",))] * g.one(0, 1))

    def pl():
        k = g.r.random()
        if "r" in g.shared and g.p(0.6):
            return {"t": "ref", "id": "r"}
        if k < 0.6:
            return some(g)
        if k < 0.75:
            return {"t": "cd", "path": g.one("/work", "sub", "/tmp")}
        if k < 0.85:
            return {"t": "prog", "l": g.label("nx"), "bin": "missing"}
        return g.group()
    if g.p(0.5):
        n = g.one(2, 3, 4)
        for _ in range(n):
            p = pl()
            g.job(p, g.one("bg", "bg", "fg", "bytes", "iterbytes") if p["t"] != "cd" else g.one("bg", "fg"), env=g.r.randrange(ne), may_raise=True)
            if g.p(0.5):
                g.step(op=g.one("poll", "sleep", "settle"), t=g.one(0.001, 0.02))
            g.step(op="joblist")
        g.step(op="sleep", t=0.1)
        g.step(op="joblist")
        if g.p(0.3):
            # one that ends while it is suspended
            g.job(longchain(g), "bg", env=0)
            n = sum(1 for s in g.sc["steps"] if "job" in s and isinstance(s["job"], dict)) - 1
            g.step(op="suspend", job=n)
            g.step(op="joblist")
            g.step(op="killjob", job=n, sig=9)
            g.step(op="sleep", t=0.1)
            g.step(op="joblist")
    else:
        js, ops = [], []
        for _ in range(g.one(2, 3, 4)):
            p = pl()
            js.append({"p": p, "mode": g.one("wait", "await", "bg", "iterbytes", "aiter", "awaitrun", "waiters") if p["t"] != "cd" else "wait", "env": g.r.randrange(ne),
                       "delay": g.one(0, 0, 0.001, 0.01), "may_raise": True})
            if js[-1]["mode"] == "waiters":
                js[-1]["waiters"] = [{}, {"timeout": 0.002}][:g.one(1, 2)]
        for _ in range(g.one(2, 4)):
            ops.append({"op": "joblist", "at": g.one(0.0001, 0.001, 0.005, 0.01, 0.03, 0.1)})
        g.step(jobs=js, ops=ops)
        g.step(op="joblist")
    for s in g.sc["steps"]:
        for j in ([s["job"]] if isinstance(s.get("job"), dict) else s.get("jobs", ())):
            if j["p"]["t"] == "ref":
                j["env"] = 0
            if j["p"]["t"] == "cd":
                j["p"]["env"] = j.get("env", 0)
    g.noise(0.4)
    g.sc["expect"] = [{"e": "last"}]


def c24(g):
    g.prof("C24", ["C04"], leak=["C24"], tmp_always=True, raise_=["C24"],
           tag={"data": ["C24"], "zombie": ["C24"]})
    g.cfg()
    k = g.r.random()
    if k < 0.5:
        p = g.chain()[0]
    elif k < 0.75:
        p = argprog(g)
    elif k < 0.8:
        p = g.group(g.one(2, 3))
    elif k < 0.92:
        # parts that do not use the pipes between them
        g.sc["files"] = {"/work/w0": {"data": g.data(maxtotal=500)}}
        p = [g.prog({"do": [["out", g.data(maxtotal=500), 0, 0]]}, "s")] + [
            g.prog({"do": [["cat", 0, 0, None]]}, "c") for _ in range(g.one(1, 2, 2))]
        for i, s in enumerate(p):
            if i and g.p(0.4):
                s["redirs"] = [{"fd": "stdin", "to": g.one("/work/w0", "/dev/null")}]
            if g.p(0.6):
                s.setdefault("redirs", []).append({"fd": g.one("stdout", "stdout", "stderr"), "to": g.one(
                    "TMP", "TMP", "TMP", "STRING", "/work/o%d" % i)})
        p = g.pipe(p)
    elif k < 0.95:
        p = rich(g, ("exit0", "fn"), sub=False)
    else:
        p = {"t": "red", "p": g.source(), "fd": "stdout", "to": g.one("TMP", "STRING")}
    if g.p(0.12):
        # it is a subshell that is refused something
        g.sc["sub"] = 24
        inner = some(g, 0.3, ends=("exit0", "fn"), sub=False) if g.p(0.6) else g.chain()[0]
        op = g.one("fork", "fork", "pipe", "open")
        g.fault(who="kid", op=op, n=g.r.randrange(0, 4), errno={"fork": 11, "pipe": 24, "open": g.one(28, 24)}[op])
        g.job({"t": "sub", "p": inner}, g.one("fg", "bytes"), may_raise=True)
        g.step(op="sleep", t=20.0)
        g.step(op="settle")
        g.job(g.chain(g.one(1, 2))[0], "bytes")
        return
    what = g.one("fork", "pipe", "open", "dup", "nofile", "nofile", "disk")
    g.job(g.source(err=False), "bytes")
    if what == "nofile":
        f = {"free": g.r.randrange(0, 12)}
    elif what == "disk":
        f = {"name": "open", "n": g.r.randrange(0, 4), "errno": 28}
    else:
        f = {"name": what, "n": g.r.randrange(0, 5), "errno": {"fork": g.one(11, 12), "pipe": g.one(24, 23),
                                                             "open": g.one(28, 24, 13), "dup": 24}[what]}
    mode = g.one("bg", "iterbytes")
    if what != "nofile" and g.p(0.2):
        # with pipes whose other ends would have been handed to the caller
        mode = "wait"
        p = [g.source() if g.p(0.5) else g.filter()] + [g.filter() for _ in range(g.one(1, 1, 2))]
        if g.p(0.2):
            p[-1:] = [{"t": "grp", "a": p[-1], "b": g.filter()}]
        p = g.pipe(p)
        for fd in ("stdin", "stdout", "stderr"):
            if g.p(0.5):
                p = {"t": "red", "p": p, "fd": fd, "to": "PIPE", "conn": {
                    "do": "write", "data": g.data(maxtotal=9000), "chunk": 0} if fd == "stdin" else {"do": "read", "chunk": 0}}
        g.step(jobs=[{"p": p, "mode": "wait", "connect": True, "startfault": f, "may_raise": True}])
    else:
        g.job(p, mode, startfault=f, may_raise=True)
    g.step(op="settle")
    g.step(op="poll", n=12)
    if mode == "bg":
        g.step(op="wait", job=1)
    g.step(op="sleep", t=20.0)
    g.step(op="settle")
    g.step(op="poll", n=12)
    g.step(op="fds", name="after failure")
    g.job(g.chain(g.one(1, 2))[0], "bytes", snap=True)
    g.sc["expect"] = [{"e": "start_failure", "job": 1}]


def c25(g):
    g.prof("C25", ["C04"], tag={c: ["C25"] for c in ("data", "missed-failure", "false-failure", "early")})
    g.cfg()
    g.sc["envs"] = [{"interactive": True}]
    p = longchain(g, True)
    if g.p(0.12):
        g.sc["sub"] = 12
        p = {"t": "sub", "p": p}
    if g.p(0.15):
        # suspended by another task while in the foreground
        g.job(p, "bg")
        if g.p(0.5):
            g.step(op="suspend", job=0)
        g.step(jobs=[{"p": {"t": "fg", "job": 0}, "mode": g.one("wait", "await"), "noplan": True, "ctl": "fg"}],
               ops=[{"op": "suspend", "job": 0, "at": g.one(0.0005, 0.002, 0.005, 0.01)}])
        g.step(op="joblist")
        g.step(op="restart", job=0)
        g.step(op="wait", job=0)
        g.sc["expect"] = [{"e": "fgbg"}]
        return
    how = g.one("tstp", "suspend", "none")
    if how == "tstp":
        g.job(p, g.one("fg", "pos"))
        g.fault(at=g.r.randrange(30, g.one(150, 500)), name="tty_tstp", when_fg=True, shell_only=g.p(0.3))
    else:
        g.job(p, "bg")
        if g.p(0.5):
            g.step(op="sleep", t=g.one(0.0005, 0.002, 0.005))
        if how == "suspend":
            g.step(op="suspend", job=0)
    if g.p(0.3) and how != "tstp":
        # something else started meanwhile: the last pipeline is another one
        g.job(g.prog({"do": [["sleep", 0.001]]}, "o"), "bg")
        explicit = True
    else:
        explicit = g.p(0.5)
    fg = {"t": "fg"}
    bg = {"t": "bg"}
    if explicit:
        fg["job"] = bg["job"] = 0
    seq = g.one("bg", "fg", "fg", "bgfg", "fgfg", "bgwait")
    if "bg" in seq:
        g.job(bg, g.one("fg", "bg"), noplan=True, ctl="bg", explicit=explicit)
        if g.p(0.4):
            g.step(op="sleep", t=g.one(0.0005, 0.003))
    if not explicit:
        fg["job"] = 0
    if seq.endswith("fg") or seq == "fg":
        g.job(fg, g.one("fg", "pos"), noplan=True, ctl="fg")
        if g.p(0.4):
            g.fault(at=g.r.randrange(60, g.one(150, 300, 1200)), name="tty_tstp", when_fg=True, shell_only=g.p(0.3))
    if seq == "fgfg":
        g.job(dict(fg), "fg", noplan=True, ctl="fg")
    g.step(op="sleep", t=0.01)
    g.step(op="ifsusp", job=0, do="wait")
    g.step(op="wait", job=0, only_running=True)
    g.sc["expect"] = [{"e": "fgbg"}]


# workers some properties need besides the usual ones
MANAGERS = {"C08": {"signalfd+1100": 2}}

PROFILES = {n.upper(): f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "c" and n[1:].isdigit()}


LOWFDS = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C12", "C15", "C16", "C17", "C18", "C21", "C24", "C29")


def scenario(prop, seed):
    g = Gen(seed)
    PROFILES[prop](g)
    if prop in LOWFDS:
        g.lowfds()
    g.sc["prop"] = prop
    return g.sc

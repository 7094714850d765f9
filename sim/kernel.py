"""A small deterministic model of the part of Linux that a shell sees.

Descriptor tables, open file descriptions, pipes (page slots and merging as in fs/pipe.c), an in-memory file system,
processes, signals, signalfd, epoll, waitpid, fork/exec and virtual time.  The kernel is entirely passive and
deterministic: every choice it makes goes through Choices.draw().

Entities that make system calls:
  root    the simulating process itself (the shell under test, real Python code)
  remote  a really forked continuation of root or of another remote; each of its system calls is a message (remote.py)
  stub    an external program: a Python generator that yields system calls (programs.py)
"""
import binascii
import errno
import marshal
import os as _os
import posixpath
import random
import re
import signal as _signal
import struct
from collections import deque

repr = repr      # the code under test replaces the builtin
PAGE = 4096
O_ACCMODE = 3
O_RDONLY, O_WRONLY, O_RDWR = 0, 1, 2
O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_NONBLOCK = _os.O_CREAT, _os.O_EXCL, _os.O_TRUNC, _os.O_APPEND, _os.O_NONBLOCK
O_CLOEXEC, O_DIRECTORY = _os.O_CLOEXEC, _os.O_DIRECTORY
EPOLLIN, EPOLLOUT, EPOLLERR, EPOLLHUP = 1, 4, 8, 16

SIGINT, SIGQUIT, SIGABRT, SIGKILL, SIGSEGV, SIGPIPE, SIGTERM = 2, 3, 6, 9, 11, 13, 15
SIGCHLD, SIGCONT, SIGSTOP, SIGTSTP, SIGTTIN, SIGTTOU = 17, 18, 19, 20, 21, 22
STOPSIGS = (SIGSTOP, SIGTSTP, SIGTTIN, SIGTTOU)
IGN_DEFAULT = (SIGCHLD, SIGCONT, 23, 28)
CORE_DEFAULT = (3, 4, 5, 6, 7, 8, 11, 24, 25, 31)

WNOHANG, WUNTRACED, WCONTINUED = _os.WNOHANG, _os.WUNTRACED, _os.WCONTINUED


class KErr(Exception):
    """A system call failed with an errno."""

    def __init__(self, no, path=None):
        Exception.__init__(self, no, path)
        self.errno = no
        self.path = path


class WouldBlock(Exception):
    pass


class SimAbort(BaseException):
    """The run cannot go on.  Raised in root again and again once set, so that no except clause can keep it."""


class SimHang(SimAbort):
    pass


class SimLimit(SimAbort):
    pass


class SimUnsupported(SimAbort):
    """The code asked for something the simulated kernel does not model: an error of the harness, never a verdict."""


RAW = _os.environ.get("SIM_RAW")
ADDRESS = re.compile(b"0x[0-9a-f]+")


class Choices(object):
    """Every nondeterministic choice of a run: drawn from one PRNG and logged, or replayed from a list."""

    def __init__(self, seed, replay=None):
        self.rng = random.Random("choices:%s" % (seed,))
        self.replay = replay
        self.log = []

    def draw(self, n):
        if n <= 1:
            return 0
        if self.replay is None:
            v = int(self.rng.random() * n)
            self.log.append(v)
            return v
        i = len(self.log)
        v = self.replay[i] if i < len(self.replay) else 0
        if v >= n:
            v = n - 1
        self.log.append(v)
        return v


# ------------------------------------------------------------------------------------------ objects

class Pipe(object):
    n = 0

    def __init__(self, ident, slots):
        self.id = ident
        self.max = slots
        self.bufs = deque()  # [bytes, end-of-page offset]
        self.size = 0
        self.readers = 0
        self.writers = 0
        self.total_in = 0
        self.total_out = 0

    def full(self):
        return len(self.bufs) >= self.max

    def mergeable(self, n):
        chars = n & (PAGE - 1)
        return bool(chars and self.bufs and self.bufs[-1][1] + chars <= PAGE)

    def write_some(self, data, first):
        """Copies as much as fits now; returns the count.  first: the merge attempt is only made when a write begins."""
        done = 0
        n = len(data)
        chars = n & (PAGE - 1)
        if first and chars and self.bufs and self.bufs[-1][1] + chars <= PAGE:
            b = self.bufs[-1]
            b[0] += data[:chars]
            b[1] += chars
            done = chars
        while done < n and len(self.bufs) < self.max:
            part = data[done:done + PAGE]
            self.bufs.append([part, len(part)])
            done += len(part)
        self.size += done
        self.total_in += done
        return done

    def read_some(self, n):
        out = []
        while n > 0 and self.bufs:
            b = self.bufs[0]
            if len(b[0]) <= n:
                out.append(b[0])
                n -= len(b[0])
                self.bufs.popleft()
            else:
                out.append(b[0][:n])
                b[0] = b[0][n:]
                n = 0
        data = b"".join(out)
        self.size -= len(data)
        self.total_out += len(data)
        return data


class Inode(object):
    def __init__(self, kind, mode=0o644, prog=None, ino=0):
        self.kind = kind  # file dir null full tty
        self.mode = mode
        self.prog = prog
        self.ino = ino
        self.data = bytearray()
        self.nlink = 1
        self.tty_in = b""       # bytes still to be read from a tty
        self.log = []           # (pid, bytes) written to a tty
        self.wlog = bytearray() # all that was ever written to a file, in order


class OFD(object):
    """Open file description."""
    __slots__ = ("kind", "obj", "flags", "pos", "refs", "path", "serial")

    def __init__(self, kind, obj, flags, path=None, serial=0):
        self.kind = kind  # piper pipew file dir null full tty epoll sigfd
        self.obj = obj
        self.flags = flags
        self.pos = 0
        self.refs = 0
        self.path = path
        self.serial = serial

    def describe(self):
        if self.kind in ("piper", "pipew"):
            return "%s:%d" % (self.kind, self.obj.id)
        if self.kind in ("epoll", "sigfd"):
            return "%s:%d" % (self.kind, self.serial)
        return "%s:%s" % (self.kind, self.path)


class Fd(object):
    __slots__ = ("ofd", "cloexec")

    def __init__(self, ofd, cloexec):
        self.ofd = ofd
        self.cloexec = cloexec


class Epoll(object):
    def __init__(self):
        self.items = {}  # (fd, ofd) -> events


class Proc(object):
    def __init__(self, pid, ppid, pgid):
        self.pid = pid
        self.ppid = ppid
        self.pgid = pgid
        self.sid = 1
        self.fds = {}
        self.cwd = "/"
        self.umask = 0o022
        self.sigmask = set()
        self.pending = {}      # signo -> info
        self.disp = {}         # signo -> 'IGN' | 'PY' (absent: default)
        self.state = "run"     # run stop dying zombie dead
        self.status = None
        self.stop_report = None
        self.cont_report = False
        self.stopsig = None    # what it was stopped by last
        self.nchanges = 0      # times it was stopped or continued
        self.pysigs = []       # signals whose Python-level handler has to run
        self.kind = "root"
        self.label = None
        self.gen = None        # stub
        self.chan = None       # remote
        self.spin = 0
        self.op = None         # pending (name, args)
        self.wdone = 0         # progress of a blocking write
        self.deadline = None
        self.serial = 0
        self.weight = 1
        self.inst = None
        self.foreign = False
        self.signals_got = []  # (signo, sender pid) ever sent to it by kill()
        self.children = []
        self.faulted = False
        self.exit_step = None
        self.job = None
        self.parent = None
        self.exec_failed = 0

    def __repr__(self):
        return "<%s %d %s %s>" % (self.kind, self.pid, self.label, self.state)


class Instance(object):
    """What one execution of an external program saw and did (ground truth for the oracles)."""

    def __init__(self, label, proc, argv, env):
        self.label = label
        self.pid = proc.pid
        self.serial = proc.serial
        self.argv = list(argv)
        self.env = dict(env)
        self.cwd = proc.cwd
        self.pgid = proc.pgid
        self.fds = {fd: e.ofd.describe() for fd, e in proc.fds.items()}
        self.fdflags = {fd: e.ofd.flags for fd, e in proc.fds.items()}
        self.sigmask = sorted(proc.sigmask)
        self.ignored = sorted(s for s, d in proc.disp.items() if d == "IGN")
        self.read = {}
        self.wrote = {}
        self.eof = set()
        self.broken = set()
        self.again = set()
        self.wobj = {}         # the same by object (describe()) instead of descriptor
        self.robj = {}
        self.reof = set()
        self.parent = proc.ppid
        self.job = getattr(proc, "job", None)
        self.opened = []       # (path, fd) in order, by the program itself
        self.status = None
        self.step = 0
        self.end_step = None
        self.killed_by_harness = False


def fd_mask(p):
    m = 0
    for fd in p.fds:
        m |= 1 << fd
    return m


BLOCKING = frozenset(("read", "write", "waitpid", "epoll_wait", "sleep", "poll", "hello"))


class Kernel(object):
    def __init__(self, choices, cfg):
        self.ch = choices
        self.cfg = cfg
        self.now = 1000.0
        self.start = self.now
        self.step = 0
        self.limit = cfg.get("limit", 60000)
        self.fair = False
        self.last_run = {}
        self.trace = []
        self.tracing = cfg.get("trace", False)
        self.digest = 0
        self.sched_digest = 0
        self.procs = {}
        self.serial = 0
        self.objs = 0
        self.fs = {}
        self.fired = {}        # fault kind -> count
        self.probes = {}       # rare condition -> count
        self.counts = {}       # (who, op) -> count
        self.plan = {}         # (who, op, n) -> fault
        self.hog = 0
        self.root_calls = 0
        for f in cfg.get("faults", ()):
            if "op" in f:
                self.plan[(f["who"], f["op"], f["n"])] = f
        self.root_next = None  # the call root is about to make, or makes
        self.events = []       # external events: dict(at=step, do=callable, name=str), sorted by at
        self.abort = None
        self.programs = {}
        self.insts = []
        self.nofile = cfg.get("nofile", 128)
        self.starved = False      # the shell process gets no more descriptors
        self.slots = cfg.get("slots", 16)
        self.disk_free = cfg.get("disk_free", None)
        self.nproc = cfg.get("nproc", None)
        self.pid_next = cfg.get("pid0", 100)
        self.pid_free = []
        self.root_blocked = 0.0
        self.root_block_ops = []
        self.tty_signals = []
        self.spin = 0
        self.spin_total = 0
        self.idle_zombies = {}
        self.last_other = 0
        self.pstep = 0
        self.foreign_hits = []
        self.kill_log = []     # (step, sender pid, target pid, signo, target serial, target kind, state)
        self.forks = 0
        self.chan_pool = []    # channels for forks of remote processes
        self.world = None
        self.spin_calls = 0
        self.spin_timers = []
        self.exec_stub = None
        self.remotes = []      # executions of ssh
        self.pipe_closed = {}  # when the last writing end of a pipe was closed
        self.on_exit = []
        self.hooks = {}
        self.root_saw = {}     # bytes root read per pipe id
        self.root_werr = {}    # pipe id -> errno of failed root writes
        self.root_wrote = {}
        self.short_read = cfg.get("short_read", 0)
        self.short_write = cfg.get("short_write", 0)
        self.pid_reuse = cfg.get("pid_reuse", 0)
        self._mkfs()
        init = Proc(1, 0, 1)
        init.kind = "init"
        self.procs[1] = init
        self.root = Proc(self._pid(), 1, 50)
        self.root.pgid = self.root.pid
        self.root.umask = cfg.get("umask", 0o022)
        self.procs[self.root.pid] = self.root
        self.root.disp[SIGPIPE] = "IGN"
        self.root.disp[25] = "IGN"
        self.root.disp[SIGINT] = "PY"
        self.fg_pgid = self.root.pgid
        self.cur_serial = 0

    # ---------------------------------------------------------------- bookkeeping
    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1

    def _brief(self, v):
        if isinstance(v, (bytes, bytearray)):
            if len(v) <= 24:
                return repr(bytes(v))
            return "b<%d:%08x%s>" % (len(v), binascii.crc32(bytes(v)), ":" + repr(bytes(v)[:150]) if RAW else "")
        if isinstance(v, (tuple, list)):
            return "(" + ",".join(self._brief(x) for x in v) + ")"
        if isinstance(v, dict):
            return "{%d}" % len(v)
        return repr(v)

    def note(self, who, what, args=(), res=None):
        if who != "R" and what == "write" and len(args) > 1 and type(args[1]) is bytes and b" at 0x" in args[1]:
            # the address of an object in a message
            args = (args[0], ADDRESS.sub(b"0x", args[1])) + tuple(args[2:])
        elif what == "read" and type(res) is bytes and b" at 0x" in res:
            res = ADDRESS.sub(b"0x", res)
        try:
            self.digest = binascii.crc32(marshal.dumps((who, what, args, res), 2), self.digest)
        except ValueError:
            s = "%s %s %s -> %s" % (who, what, self._brief(args), self._brief(res))
            self.digest = binascii.crc32(s.encode("utf-8", "replace"), self.digest)
        if self.tracing:
            s = "%s %s %s -> %s" % (who, what, self._brief(args), self._brief(res))
            self.trace.append("%6d %.5f %s" % (self.step, self.now - self.start, s))

    def _serial(self):
        self.objs += 1
        return self.objs

    def _pid(self):
        if self.pid_free and self.ch.draw(100) < self.pid_reuse:
            pid = self.pid_free.pop(self.ch.draw(len(self.pid_free)))
            if pid not in self.procs:
                self.fire("pid_reuse")
                return pid
        while self.pid_next in self.procs:
            self.pid_next += 1
        pid = self.pid_next
        self.pid_next += 1
        return pid

    # ---------------------------------------------------------------- file system
    def _mkfs(self):
        self.made = {}          # the last file made under a name
        for d in ("/", "/bin", "/dev", "/dev/fd", "/tmp", "/work", "/home", "/home/user", "/work/sub", "/work/other"):
            self.fs[d] = self._inode("dir", 0o755)
        self.fs["/dev/null"] = self._inode("null", 0o666)
        self.fs["/dev/full"] = self._inode("full", 0o666)
        self.tty = self.fs["/dev/tty"] = self._inode("tty", 0o666)
        self.tty.tty_in = self.cfg.get("tty_in", "").encode("latin1")

    def _inode(self, kind, mode, prog=None):
        return Inode(kind, mode, prog, self._serial())

    def resolve(self, p, path):
        if isinstance(path, bytes):
            path = _os.fsdecode(path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        if path == "":
            raise KErr(errno.ENOENT, path)
        full = posixpath.normpath(posixpath.join(p.cwd, path))
        if full.startswith("//"):
            full = full[1:]
        if full == "/proc/self/fd":
            full = "/dev/fd"
        elif full.startswith("/proc/self/fd/"):
            full = "/dev/fd/" + full[len("/proc/self/fd/"):]
        if full.startswith("/dev/fd/"):
            return full
        if full == "/dev/stdin":
            return "/dev/fd/0"
        if full == "/dev/stdout":
            return "/dev/fd/1"
        if full == "/dev/stderr":
            return "/dev/fd/2"
        # every parent has to be a directory
        parent = posixpath.dirname(full)
        while parent != "/":
            n = self.fs.get(parent)
            if n is None:
                raise KErr(errno.ENOENT, path)
            if n.kind != "dir":
                raise KErr(errno.ENOTDIR, path)
            parent = posixpath.dirname(parent)
        return full

    def devfd(self, p, full, path):
        try:
            n = int(full[len("/dev/fd/"):])
        except ValueError:
            raise KErr(errno.ENOENT, path)
        if n not in p.fds:
            raise KErr(errno.ENOENT, path)
        return p.fds[n]

    def add_file(self, path, data=b"", mode=0o644, prog=None):
        n = self.fs[path] = self._inode("file", mode, prog)
        n.data[:] = data
        return n

    # ---------------------------------------------------------------- descriptors
    def limit_of(self, p):
        return 0 if self.starved and p is self.root else self.nofile

    def alloc(self, p, ofd, cloexec, lo=0):
        fd = lo
        while fd in p.fds:
            fd += 1
        if fd >= self.limit_of(p):
            if not ofd.refs:
                # it was to be the first descriptor of it
                self.ref(ofd)
                self.unref(ofd)
            raise KErr(errno.EMFILE)
        p.fds[fd] = Fd(ofd, cloexec)
        self.ref(ofd)
        return fd

    def ref(self, ofd):
        ofd.refs += 1

    def new_ofd(self, kind, obj, flags, path=None):
        o = OFD(kind, obj, flags, path, self._serial())
        if kind == "piper":
            obj.readers += 1
        elif kind == "pipew":
            obj.writers += 1
        return o

    def unref(self, ofd):
        ofd.refs -= 1
        if ofd.refs == 0:
            if ofd.kind == "piper":
                ofd.obj.readers -= 1
                if ofd.obj.readers == 0 and ofd.obj.size and ofd.obj.writers:
                    self.probe("pipe_abandoned_with_data")
            elif ofd.kind == "pipew":
                ofd.obj.writers -= 1
                if ofd.obj.writers == 0:
                    self.pipe_closed["%s" % ofd.obj.id] = self.step

    def getfd(self, p, fd):
        e = p.fds.get(fd)
        if e is None:
            raise KErr(errno.EBADF)
        return e

    def close_fd(self, p, fd):
        e = p.fds.pop(fd, None)
        if e is None:
            raise KErr(errno.EBADF)
        self.unref(e.ofd)

    def o_close(self, p, fd):
        self.close_fd(p, fd)

    def o_closerange(self, p, lo, hi):
        for fd in sorted(p.fds):
            if lo <= fd < hi:
                self.close_fd(p, fd)

    def o_dup(self, p, fd, lo=0, cloexec=True):
        e = self.getfd(p, fd)
        return self.alloc(p, e.ofd, cloexec, lo)

    def o_dup2(self, p, fd, fd2, inheritable=True):
        e = self.getfd(p, fd)
        if fd2 < 0 or fd2 >= self.limit_of(p):
            raise KErr(errno.EBADF)
        if fd == fd2:
            return fd2
        self.ref(e.ofd)
        if fd2 in p.fds:
            self.close_fd(p, fd2)
        p.fds[fd2] = Fd(e.ofd, not inheritable)
        return fd2

    def o_pipe(self, p, cloexec=True, nonblock=False):
        self._pipes = getattr(self, "_pipes", 0) + 1
        pipe = Pipe(self._pipes, self.slots)
        fl = O_NONBLOCK if nonblock else 0
        r = self.new_ofd("piper", pipe, O_RDONLY | fl)
        w = self.new_ofd("pipew", pipe, O_WRONLY | fl)
        a = self.alloc(p, r, cloexec)
        try:
            b = self.alloc(p, w, cloexec)
        except KErr:
            self.close_fd(p, a)
            raise
        return (a, b)

    def o_open(self, p, path, flags=0, mode=0o777):
        full = self.resolve(p, path)
        acc = flags & O_ACCMODE
        cloexec = bool(flags & O_CLOEXEC)
        if full.startswith("/dev/fd/"):
            src = self.devfd(p, full, path).ofd
            if src.kind in ("piper", "pipew"):
                if acc == O_RDWR:
                    raise KErr(errno.EINVAL, path)
                o = self.new_ofd("piper" if acc == O_RDONLY else "pipew", src.obj, flags & ~O_CLOEXEC)
                if (acc == O_RDONLY) != (src.kind == "piper"):
                    self.probe("devfd_other_end")
            elif src.kind in ("epoll", "sigfd"):
                raise KErr(errno.ENXIO, path)
            else:
                if flags & O_TRUNC and acc != O_RDONLY and src.kind == "file":
                    del src.obj.data[:]
                o = self.new_ofd(src.kind, src.obj, flags & ~O_CLOEXEC, src.path)
            return self.alloc(p, o, cloexec)
        n = self.fs.get(full)
        if n is None:
            if not flags & O_CREAT:
                raise KErr(errno.ENOENT, path)
            parent = self.fs.get(posixpath.dirname(full))
            if not parent.mode & 0o200:
                raise KErr(errno.EACCES, path)
            if self.disk_free is not None and self.disk_free < 0:
                raise KErr(errno.ENOSPC, path)
            # a free descriptor is needed before the file is made
            n = self._inode("file", mode & ~p.umask & 0o7777)
            created = True
        else:
            created = False
            if flags & O_CREAT and flags & O_EXCL:
                raise KErr(errno.EEXIST, path)
            if n.kind == "dir" and acc != O_RDONLY:
                raise KErr(errno.EISDIR, path)
            if n.kind == "dir" and flags & O_CREAT:
                raise KErr(errno.EISDIR, path)
            if flags & O_DIRECTORY and n.kind != "dir":
                raise KErr(errno.ENOTDIR, path)
            if acc != O_WRONLY and not n.mode & 0o400:
                raise KErr(errno.EACCES, path)
            if acc != O_RDONLY and not n.mode & 0o200:
                raise KErr(errno.EACCES, path)
        o = self.new_ofd(n.kind, n, flags & ~(O_CLOEXEC | O_CREAT | O_EXCL | O_TRUNC), full)
        fd = self.alloc(p, o, cloexec)
        if created:
            self.fs[full] = n
            self.made[full] = n
        elif flags & O_TRUNC and n.kind == "file" and acc != O_RDONLY:
            self._disk(-len(n.data))
            del n.data[:]
        return fd

    def _disk(self, n):
        if self.disk_free is not None:
            self.disk_free -= n

    def b_read(self, p, fd, n):
        e = p.fds.get(fd)
        if e is None:
            return False
        o = e.ofd
        if o.kind == "piper":
            return not o.obj.size and o.obj.writers > 0 and not o.flags & O_NONBLOCK and n > 0
        if o.kind == "sigfd":
            return not o.flags & O_NONBLOCK and not any(s in o.obj for s in p.pending)
        return False

    def o_read(self, p, fd, n):
        e = self.getfd(p, fd)
        o = e.ofd
        if o.kind == "sigfd":
            return self.read_sigfd(p, o, n)
        if o.kind in ("epoll",):
            raise KErr(errno.EINVAL)
        if o.kind == "pipew" or o.flags & O_ACCMODE == O_WRONLY:
            raise KErr(errno.EBADF)
        if o.kind == "dir":
            raise KErr(errno.EISDIR)
        if o.kind == "piper":
            if n == 0:
                return b""
            pipe = o.obj
            if not pipe.size:
                if not pipe.writers:
                    data = b""
                elif o.flags & O_NONBLOCK:
                    raise KErr(errno.EAGAIN)
                else:
                    raise WouldBlock
            else:
                data = pipe.read_some(self._short(p, min(n, pipe.size)))
            if p.inst is None:
                if p is self.root:
                    self.root_saw.setdefault(pipe.id, bytearray()).extend(data)
            return data
        if o.kind == "null":
            return b""
        if o.kind == "full":
            return b"\0" * n
        if o.kind == "tty":
            k = self._short(p, min(n, len(o.obj.tty_in))) if o.obj.tty_in else 0
            data, o.obj.tty_in = o.obj.tty_in[:k], o.obj.tty_in[k:]
            return data
        data = bytes(o.obj.data[o.pos:o.pos + n])
        o.pos += len(data)
        return data

    def _short(self, p, n):
        if n > 1 and self.short_read and self.ch.draw(100) < self.short_read:
            self.fire("short_read")
            how = self.ch.draw(3)
            if how == 0:
                return 1
            if how == 1:
                return n - 1
            return 1 + self.ch.draw(n)
        return n

    def b_write(self, p, fd, data):
        e = p.fds.get(fd)
        if e is None:
            return False
        o = e.ofd
        if o.kind == "pipew" and not o.flags & O_NONBLOCK:
            pipe = o.obj
            if not pipe.readers:
                return False
            if not data:
                return False
            return pipe.full() and not (p.wdone == 0 and pipe.mergeable(len(data)))
        return False

    def o_write(self, p, fd, data):
        e = self.getfd(p, fd)
        o = e.ofd
        if o.kind in ("epoll", "sigfd"):
            raise KErr(errno.EINVAL)
        if o.kind in ("piper", "dir") or o.flags & O_ACCMODE == O_RDONLY:
            raise KErr(errno.EBADF)
        if o.kind == "pipew":
            pipe = o.obj
            if p.wdone == 0 and self.short_write and p.kind in ("root", "remote") and len(data) > PAGE \
                    and self.ch.draw(100) < self.short_write:
                # a signal handler interrupted the call after part of it was done
                self.fire("short_write")
                data = data[:1 + self.ch.draw(len(data) - 1)]
            return self.write_pipe(p, o, pipe, data)
        if o.kind == "null":
            return len(data)
        if o.kind == "full":
            raise KErr(errno.ENOSPC)
        if o.kind == "tty":
            o.obj.log.append((p.serial, bytes(data)))
            return len(data)
        n = len(data)
        if self.disk_free is not None:
            if n and self.disk_free <= 0:
                self.fire("disk_full")
                raise KErr(errno.ENOSPC)
            if n > self.disk_free:
                self.fire("disk_full_short")
                n = self.disk_free
                data = data[:n]
            self.disk_free -= n
        f = o.obj
        if o.flags & O_APPEND:
            o.pos = len(f.data)
        if o.pos > len(f.data):
            f.data.extend(b"\0" * (o.pos - len(f.data)))
        f.data[o.pos:o.pos + n] = data
        f.wlog += data
        o.pos += n
        return n

    def write_pipe(self, p, o, pipe, data):
        """p.wdone is the progress of a blocking write that has already copied something."""
        if p.wdone >= len(data) and data:
            n, p.wdone = p.wdone, 0
            return n
        if not pipe.readers:
            if p.wdone:
                n, p.wdone = p.wdone, 0
                return n
            self.fire_sigpipe(p)
            raise KErr(errno.EPIPE)
        if not data:
            return 0
        nonblock = o.flags & O_NONBLOCK
        if nonblock and len(data) <= PAGE and pipe.full() and not pipe.mergeable(len(data)):
            raise KErr(errno.EAGAIN)
        n = pipe.write_some(data[p.wdone:], p.wdone == 0)
        if p.inst is not None and n:
            p.inst.wobj.setdefault(o.describe(), bytearray()).extend(data[p.wdone:p.wdone + n])
        if p is self.root and n:
            self.root_wrote[pipe.id] = self.root_wrote.get(pipe.id, 0) + n
        p.wdone += n
        if p.wdone >= len(data):
            n, p.wdone = p.wdone, 0
            return n
        if nonblock:
            n, p.wdone = p.wdone, 0
            if not n:
                raise KErr(errno.EAGAIN)
            return n
        self.probe("blocking_write_incomplete")
        raise WouldBlock

    def fire_sigpipe(self, p):
        self.probe("epipe_" + p.kind)
        if p.disp.get(SIGPIPE) is None and SIGPIPE not in p.sigmask:
            self.post(p, SIGPIPE, {"pid": p.pid, "code": 0})

    def o_lseek(self, p, fd, off, whence):
        o = self.getfd(p, fd).ofd
        if o.kind != "file":
            raise KErr(errno.ESPIPE)
        base = {0: 0, 1: o.pos, 2: len(o.obj.data)}[whence]
        if base + off < 0:
            raise KErr(errno.EINVAL)
        o.pos = base + off
        return o.pos

    def o_ftruncate(self, p, fd, n):
        o = self.getfd(p, fd).ofd
        if o.kind != "file":
            raise KErr(errno.EINVAL)
        d = o.obj.data
        if n < len(d):
            del d[n:]
        else:
            d.extend(b"\0" * (n - len(d)))

    def o_getfd_flags(self, p, fd):
        return 1 if self.getfd(p, fd).cloexec else 0

    def o_setfd_flags(self, p, fd, v):
        self.getfd(p, fd).cloexec = bool(v & 1)
        return 0

    def o_getfl(self, p, fd):
        o = self.getfd(p, fd).ofd
        return o.flags

    def o_setfl(self, p, fd, v):
        o = self.getfd(p, fd).ofd
        keep = O_NONBLOCK | O_APPEND
        o.flags = (o.flags & ~keep) | (v & keep)
        return 0

    def o_pipe_sz(self, p, fd, n=None):
        o = self.getfd(p, fd).ofd
        if o.kind not in ("piper", "pipew"):
            raise KErr(errno.EBADF)
        if n is not None:
            o.obj.max = max(1, (n + PAGE - 1) // PAGE, len(o.obj.bufs))
        return o.obj.max * PAGE

    def o_fionread(self, p, fd):
        o = self.getfd(p, fd).ofd
        if o.kind == "piper":
            return o.obj.size
        if o.kind == "file":
            return max(0, len(o.obj.data) - o.pos)
        raise KErr(errno.ENOTTY)

    def _stat(self, n, kind=None):
        kind = kind or n.kind
        fmt = {"file": 0o100000, "dir": 0o040000, "null": 0o020000, "full": 0o020000, "tty": 0o020000,
               "fifo": 0o010000, "anon": 0}[kind]
        size = len(n.data) if kind == "file" else 0
        return (fmt | (n.mode if n else 0o600), n.ino if n else 0, 1, n.nlink if n else 1, 0, 0, size, 0, 0, 0)

    def o_stat(self, p, path):
        full = self.resolve(p, path)
        if full.startswith("/dev/fd/"):
            return self._fdstat(self.devfd(p, full, path).ofd)
        n = self.fs.get(full)
        if n is None:
            raise KErr(errno.ENOENT, path)
        return self._stat(n)

    def _fdstat(self, o):
        if o.kind in ("piper", "pipew"):
            return (0o010600, o.obj.id, 9, 1, 0, 0, 0, 0, 0, 0)
        if o.kind in ("epoll", "sigfd"):
            return (0o600, o.serial, 10, 1, 0, 0, 0, 0, 0, 0)
        return self._stat(o.obj)

    def o_fstat(self, p, fd):
        return self._fdstat(self.getfd(p, fd).ofd)

    def o_isatty(self, p, fd):
        e = p.fds.get(fd)
        return e is not None and e.ofd.kind == "tty"

    def o_access(self, p, path, mode):
        try:
            full = self.resolve(p, path)
        except KErr:
            return False
        n = self.fs.get(full)
        if n is None:
            return full.startswith("/dev/fd/") and full[8:].isdigit() and int(full[8:]) in p.fds
        bits = (0o400 if mode & 4 else 0) | (0o200 if mode & 2 else 0) | (0o100 if mode & 1 else 0)
        return n.mode & bits == bits

    def o_listdir(self, p, path):
        full = self.resolve(p, path)
        if full == "/dev/fd":
            return [str(fd) for fd in sorted(p.fds)]
        n = self.fs.get(full)
        if n is None:
            raise KErr(errno.ENOENT, path)
        if n.kind != "dir":
            raise KErr(errno.ENOTDIR, path)
        pre = full if full.endswith("/") else full + "/"
        return sorted(k[len(pre):] for k in self.fs if k.startswith(pre) and k != full and "/" not in k[len(pre):])

    def o_mkdir(self, p, path, mode=0o777):
        full = self.resolve(p, path)
        if full in self.fs:
            raise KErr(errno.EEXIST, path)
        self.fs[full] = self._inode("dir", mode & ~p.umask)

    def o_rmdir(self, p, path):
        full = self.resolve(p, path)
        n = self.fs.get(full)
        if n is None:
            raise KErr(errno.ENOENT, path)
        if n.kind != "dir":
            raise KErr(errno.ENOTDIR, path)
        if any(k.startswith(full + "/") for k in self.fs):
            raise KErr(errno.ENOTEMPTY, path)
        del self.fs[full]

    def o_unlink(self, p, path):
        full = self.resolve(p, path)
        n = self.fs.get(full)
        if n is None:
            raise KErr(errno.ENOENT, path)
        if n.kind == "dir":
            raise KErr(errno.EISDIR, path)
        del self.fs[full]
        n.nlink -= 1

    def o_rename(self, p, a, b):
        fa, fb = self.resolve(p, a), self.resolve(p, b)
        if fa not in self.fs:
            raise KErr(errno.ENOENT, a)
        self.fs[fb] = self.fs.pop(fa)

    def o_chmod(self, p, path, mode):
        full = self.resolve(p, path)
        if full not in self.fs:
            raise KErr(errno.ENOENT, path)
        self.fs[full].mode = mode & 0o7777

    def o_fchmod(self, p, fd, mode):
        o = self.getfd(p, fd).ofd
        if hasattr(o.obj, "mode"):
            o.obj.mode = mode & 0o7777

    def o_chdir(self, p, path):
        full = self.resolve(p, path)
        n = self.fs.get(full)
        if n is None:
            raise KErr(errno.ENOENT, path)
        if n.kind != "dir":
            raise KErr(errno.ENOTDIR, path)
        if not n.mode & 0o100:
            raise KErr(errno.EACCES, path)
        p.cwd = full

    def o_getcwd(self, p):
        if p.cwd not in self.fs:
            raise KErr(errno.ENOENT)
        return p.cwd

    def o_umask(self, p, m):
        old, p.umask = p.umask, m & 0o777
        return old

    # ---------------------------------------------------------------- polling
    def poll_ofd(self, p, o):
        if o.kind == "piper":
            ev = 0
            if o.obj.size:
                ev |= EPOLLIN
            if not o.obj.writers:
                ev |= EPOLLHUP
            return ev
        if o.kind == "pipew":
            ev = 0
            if not o.obj.full():
                ev |= EPOLLOUT
            if not o.obj.readers:
                ev |= EPOLLERR
            return ev
        if o.kind == "sigfd":
            return EPOLLIN if any(s in o.obj for s in p.pending) else 0
        if o.kind == "tty":
            return EPOLLOUT | EPOLLIN
        return EPOLLIN | EPOLLOUT

    def o_epoll_create(self, p):
        return self.alloc(p, self.new_ofd("epoll", Epoll(), O_RDWR), True)

    def o_epoll_ctl(self, p, epfd, op, fd, events=0):
        ep = self.getfd(p, epfd).ofd
        if ep.kind != "epoll":
            raise KErr(errno.EINVAL)
        e = self.getfd(p, fd)
        if e.ofd.kind in ("file", "dir", "null", "full"):
            raise KErr(errno.EPERM)
        self.ep_clean(ep.obj)
        key = (fd, e.ofd)
        if op == "add":
            if key in ep.obj.items:
                raise KErr(errno.EEXIST)
            ep.obj.items[key] = events
        elif op == "mod":
            if key not in ep.obj.items:
                raise KErr(errno.ENOENT)
            ep.obj.items[key] = events
        else:
            if key not in ep.obj.items:
                raise KErr(errno.ENOENT)
            del ep.obj.items[key]

    def ep_clean(self, ep):
        for key in [k for k in ep.items if k[1].refs == 0]:
            del ep.items[key]

    def ep_ready(self, p, ep):
        self.ep_clean(ep)
        out = []
        for (fd, ofd), ev in ep.items.items():
            r = self.poll_ofd(p, ofd) & (ev | EPOLLERR | EPOLLHUP)
            if r:
                out.append((fd, r))
        return out

    def b_epoll_wait(self, p, epfd, timeout, maxev):
        e = p.fds.get(epfd)
        if e is None or e.ofd.kind != "epoll":
            return False
        if p.pysigs or timeout == 0:
            return False
        if p.deadline is None and timeout > 0:
            p.deadline = self.now + timeout
        if p.deadline is not None and self.now >= p.deadline:
            return False
        return not self.ep_ready(p, e.ofd.obj)

    def o_epoll_wait(self, p, epfd, timeout, maxev):
        e = self.getfd(p, epfd)
        if e.ofd.kind != "epoll":
            raise KErr(errno.EINVAL)
        if self.b_epoll_wait(p, epfd, timeout, maxev):
            raise WouldBlock
        p.deadline = None
        ready = self.ep_ready(p, e.ofd.obj)
        for i in range(len(ready) - 1, 0, -1):
            j = self.ch.draw(i + 1)
            ready[i], ready[j] = ready[j], ready[i]
        return ready[:maxev]

    def b_poll(self, p, fds, timeout):
        if p.pysigs or timeout == 0:
            return False
        if p.deadline is None and timeout is not None and timeout > 0:
            p.deadline = self.now + timeout
        if p.deadline is not None and self.now >= p.deadline:
            return False
        return not self._poll(p, fds)

    def _poll(self, p, fds):
        out = []
        for fd, ev in fds:
            e = p.fds.get(fd)
            if e is None:
                out.append((fd, 32))
                continue
            r = self.poll_ofd(p, e.ofd) & (ev | EPOLLERR | EPOLLHUP)
            if r:
                out.append((fd, r))
        return out

    def o_poll(self, p, fds, timeout):
        if self.b_poll(p, fds, timeout):
            raise WouldBlock
        p.deadline = None
        return self._poll(p, fds)

    # ---------------------------------------------------------------- time
    def b_sleep(self, p, t):
        if p.deadline is None:
            p.deadline = self.now + t
        return self.now < p.deadline and not p.pysigs

    def o_sleep(self, p, t):
        if self.b_sleep(p, t):
            raise WouldBlock
        p.deadline = None

    def o_time(self, p):
        return self.now

    # ---------------------------------------------------------------- signals
    def o_kill(self, p, pid, sig):
        if pid == 0 or pid < -1:
            pg = p.pgid if pid == 0 else -pid
            ts = [q for q in list(self.procs.values()) if q.pgid == pg and q.state not in ("dead",)]
            if not ts:
                raise KErr(errno.ESRCH)
        elif pid == -1:
            ts = [q for q in list(self.procs.values()) if q.pid not in (1, p.pid)]
        else:
            t = self.procs.get(pid)
            if t is None or t.state == "dead":
                self.kill_log.append((self.step, p.serial, pid, sig, None, "gone", "gone"))
                raise KErr(errno.ESRCH)
            ts = [t]
        for t in ts:
            self.kill_log.append((self.step, p.serial, t.pid, sig, t.serial, "foreign" if t.foreign else t.kind, t.state))
            t.signals_got.append((sig, p.serial))
            if sig:
                self.post(t, sig, {"pid": p.pid, "code": 0})

    def post(self, t, sig, info):
        if t.state in ("zombie", "dead", "dying") or t.kind == "init":
            return
        if sig == SIGCONT:
            for s in STOPSIGS:
                t.pending.pop(s, None)
            if t.state == "stop":
                t.state = "run"
                t.stop_report = None
                t.cont_report = True
                t.nchanges += 1
                self.note(t.serial, "CONT")
                self.notify_parent(t, 6, SIGCONT)
        if sig in STOPSIGS:
            t.pending.pop(SIGCONT, None)
        if sig == SIGKILL:
            return self.kill_now(t, sig)
        if sig == SIGSTOP:
            return self.stop_now(t, sig)
        d = t.disp.get(sig)
        if sig in t.sigmask:
            if sig not in t.pending:
                t.pending[sig] = info
            else:
                self.probe("signal_coalesced_%d" % sig)
            return
        self.deliver(t, sig, info)

    def deliver(self, t, sig, info):
        d = t.disp.get(sig)
        if d == "IGN" or (d is None and sig in IGN_DEFAULT):
            return
        if d == "PY":
            if sig not in t.pysigs:
                t.pysigs.append(sig)
            return
        if sig in STOPSIGS:
            return self.stop_now(t, sig)
        self.kill_now(t, sig)

    def stop_now(self, t, sig):
        if t.state == "run":
            t.state = "stop"
            t.stop_report = t.stopsig = sig
            t.cont_report = False
            t.nchanges += 1
            self.note(t.serial, "STOP", (sig,))
            self.notify_parent(t, 5, sig)

    def kill_now(self, t, sig):
        core = 0x80 if sig in CORE_DEFAULT and not self.cfg.get("nocore") else 0
        self.note(t.serial, "KILLED", (sig,))
        self.begin_exit(t, sig | core)

    def begin_exit(self, t, status):
        if t is self.root:
            self.abort = SimAbort("root killed, status %r" % (status,))
            return
        t.state = "dying"
        t.status = status
        t.op = ("__exit1", ())
        t.wdone = 0
        t.deadline = None
        if t.gen is not None:
            t.gen.close()
            t.gen = None
        if t.chan is not None:
            t.chan.die(self)
            t.chan = None

    def exit1(self, t):
        """files are closed before the parent is told"""
        for fd in list(t.fds):
            self.close_fd(t, fd)
        t.op = ("__exit2", ())

    def exit2(self, t):
        t.state = "zombie"
        t.op = None
        t.exit_step = self.step
        t.exit_calls = self.root_calls
        if t.inst is not None:
            t.inst.status = t.status
            t.inst.end_step = self.step
        for c in t.children:
            if c.state != "dead":
                c.ppid = 1
                self.procs[1].children.append(c)
                if c.state == "zombie":
                    self.reap(c)
        t.children = []
        for f in self.on_exit:
            f(t)
        if t.ppid == 1:
            self.reap(t)
        else:
            self.notify_parent(t, {0: 1}.get(t.status & 0x7f, 3 if t.status & 0x80 else 2),
                               t.status >> 8 if not t.status & 0x7f else t.status & 0x7f)

    def notify_parent(self, t, code, status):
        par = self.procs.get(t.ppid)
        if par is None or par.kind == "init":
            return
        self.post(par, SIGCHLD, {"pid": t.pid, "code": code, "status": status})

    def reap(self, t):
        t.state = "dead"
        if self.procs.get(t.pid) is t:
            del self.procs[t.pid]
        par = self.procs.get(t.ppid)
        if par is not None and t in par.children:
            par.children.remove(t)
        if self.pid_reuse:
            if self.ch.draw(100) < self.pid_reuse and self.cfg.get("foreign_reuse", True):
                # somebody else in the system gets the pid
                f = Proc(t.pid, 1, 7)
                f.kind = "foreign"
                f.foreign = True
                f.serial = self._pserial()
                self.procs[t.pid] = f
                self.fire("pid_taken_by_foreign")
            else:
                self.pid_free.append(t.pid)

    def _pserial(self):
        self.serial += 1
        return self.serial

    def o_sigprocmask(self, p, how, sigs):
        old = sorted(p.sigmask)
        s = set(sigs) - {SIGKILL, SIGSTOP}
        if how == 0:
            p.sigmask |= s
        elif how == 1:
            p.sigmask -= s
        else:
            p.sigmask = s
        for sig in [x for x in sorted(p.pending) if x not in p.sigmask]:
            self.deliver(p, sig, p.pending.pop(sig))
        return old

    def o_sigaction(self, p, sig, disp):
        old = p.disp.get(sig)
        if disp is None:
            p.disp.pop(sig, None)
        else:
            p.disp[sig] = disp
        return old

    def o_sigdisp(self, p, sig):
        return p.disp.get(sig)

    def o_sigpending(self, p):
        return sorted(p.pending)

    def o_signalfd(self, p, fd, sigs, cloexec, nonblock):
        if fd >= 0:
            e = self.getfd(p, fd)
            if e.ofd.kind != "sigfd":
                raise KErr(errno.EINVAL)
            e.ofd.obj = set(sigs)
            return fd
        return self.alloc(p, self.new_ofd("sigfd", set(sigs), O_RDWR | (O_NONBLOCK if nonblock else 0)), cloexec)

    def read_sigfd(self, p, o, n):
        ready = [s for s in sorted(p.pending) if s in o.obj]
        if not ready:
            if o.flags & O_NONBLOCK:
                raise KErr(errno.EAGAIN)
            raise WouldBlock
        out = b""
        while ready and n >= 128:
            sig = ready.pop(0)
            info = p.pending.pop(sig)
            out += struct.pack("<IiiIIiIIIIiiQQQQ", sig, 0, info.get("code", 0), info.get("pid", 0), 0, 0, 0, 0, 0, 0,
                               info.get("status", 0), 0, 0, 0, 0, 0).ljust(128, b"\0")
            n -= 128
        return out

    # ---------------------------------------------------------------- processes
    def waitable(self, c, options):
        if c.state == "zombie":
            return "zombie"
        if options & WUNTRACED and c.stop_report is not None and c.state == "stop":
            return "stop"
        if options & WCONTINUED and c.cont_report:
            return "cont"
        return None

    def _wait_cands(self, p, pid):
        if pid == -1:
            return list(p.children)
        if pid > 0:
            return [c for c in p.children if c.pid == pid]
        pg = p.pgid if pid == 0 else -pid
        return [c for c in p.children if c.pgid == pg]

    def b_waitpid(self, p, pid, options):
        if options & WNOHANG or p.pysigs:
            return False
        cands = self._wait_cands(p, pid)
        return bool(cands) and not any(self.waitable(c, options) for c in cands)

    def o_waitpid(self, p, pid, options):
        cands = self._wait_cands(p, pid)
        if not cands:
            raise KErr(errno.ECHILD)
        ready = [c for c in cands if self.waitable(c, options)]
        if not ready:
            if options & WNOHANG:
                return (0, 0)
            raise WouldBlock
        if len(ready) > 1:
            self.probe("waitpid_several_ready")
        c = ready[self.ch.draw(len(ready))]
        w = self.waitable(c, options)
        if w == "zombie":
            self.reap(c)
            return (c.pid, c.status)
        if w == "stop":
            sig, c.stop_report = c.stop_report, None
            return (c.pid, 0x7f | sig << 8)
        c.cont_report = False
        return (c.pid, 0xffff)

    def spawn(self, parent, kind):
        """The child of fork(): same descriptors, directory, mask and dispositions."""
        if self.nproc is not None and len(self.procs) >= self.nproc:
            raise KErr(errno.EAGAIN)
        c = Proc(self._pid(), parent.pid, parent.pgid)
        c.kind = kind
        c.serial = self._pserial()
        c.cwd = parent.cwd
        c.umask = parent.umask
        c.sigmask = set(parent.sigmask)
        c.disp = dict(parent.disp)
        c.label = parent.label
        c.parent = parent
        c.job = parent.job
        for fd, e in parent.fds.items():
            c.fds[fd] = Fd(e.ofd, e.cloexec)
            self.ref(e.ofd)
        c.weight = (1, 1, 8, 40)[self.ch.draw(4)]
        self.procs[c.pid] = c
        parent.children.append(c)
        self.forks += 1
        return c

    def spawn_stub(self, parent, gen, label=None):
        """A child process of a stub (a daemon it leaves behind), or a user's own child of root."""
        c = self.spawn(parent, "stub")
        c.label = label
        c.gen = gen
        c.op = None
        self.stub_next(c, None, None)
        return c

    def o_fork(self, p):
        if p is self.root:
            c = self.spawn(p, "remote")
            c.op = ("hello", ())
            return c.pid
        if not self.chan_pool:
            raise SimUnsupported("too many forks of forked processes")
        c = self.spawn(p, "remote")
        c.op = ("hello", ())
        idx, c.chan = self.chan_pool.pop(0)
        return (c.pid, idx)

    def o_getpid(self, p):
        return p.pid

    def o_getppid(self, p):
        return p.ppid

    def o_getpgid(self, p, pid):
        t = p if pid == 0 else self.procs.get(pid)
        if t is None:
            raise KErr(errno.ESRCH)
        return t.pgid

    def o_setpgid(self, p, pid, pg):
        t = p if pid == 0 else self.procs.get(pid)
        if t is None:
            raise KErr(errno.ESRCH)
        t.pgid = pg or t.pid

    def o_setsid(self, p):
        p.pgid = p.sid = p.pid
        return p.pid

    def o_tcgetpgrp(self, p, fd):
        self.getfd(p, fd)
        return self.fg_pgid

    def o_tcsetpgrp(self, p, fd, pg):
        self.getfd(p, fd)
        self.fg_pgid = pg

    def o__exit(self, p, code):
        self.begin_exit(p, (code & 0xff) << 8)

    def o_execve(self, p, path, argv, env):
        if p is self.root:
            self.abort = SimAbort("the shell replaced itself by %r" % (path,))
            raise self.abort
        full = self.resolve(p, path)
        n = self.fs.get(full)
        if n is None:
            raise KErr(errno.ENOENT, path)
        if n.kind != "file" or not n.mode & 0o111:
            raise KErr(errno.EACCES, path)
        if n.prog is None:
            raise KErr(errno.ENOEXEC, path)
        if sum(len(a) for a in argv) > 2000000:
            raise KErr(errno.E2BIG, path)
        for fd in [fd for fd, e in p.fds.items() if e.cloexec]:
            self.close_fd(p, fd)
        for s in [s for s, d in p.disp.items() if d == "PY"]:
            del p.disp[s]
        p.pysigs = []
        p.wdone = 0
        p.deadline = None
        if n.prog == "ssh" and p.chan is not None:
            # carries the command over to another pieshell, which runs on in this process
            self.remotes.append((p.serial, p.job, [bytes(a) for a in argv]))
            return "remote"
        if p.chan is not None:
            p.chan.die(self)
            p.chan = None
        p.kind = "stub"
        self.exec_stub(self, p, n.prog, argv, env)

    # ---------------------------------------------------------------- stub programs
    def stub_next(self, p, val, err):
        """Advances a stub to its next system call."""
        try:
            if err is not None:
                p.op = p.gen.throw(err)
            else:
                p.op = p.gen.send(val)
        except StopIteration as e:
            p.gen = None
            self.begin_exit(p, ((e.value or 0) & 0xff) << 8)
        except KErr as e:
            # a program that does not handle an error dies of it
            p.gen = None
            self.begin_exit(p, 1 << 8)

    # ---------------------------------------------------------------- execution of one system call
    def who(self, p):
        return {"root": "root", "remote": "kid", "stub": "prog"}.get(p.kind, p.kind)

    def exec_op(self, p, name, args):
        """Runs one system call of p now.  Raises KErr, WouldBlock or returns the value."""
        fresh = not p.faulted
        if fresh and self.plan:
            who = self.who(p)
            f = None
            whats = [name]
            if name in ("read", "write") and self.on_disk(p, args[0]):
                # those from and to files, and those from and to this very file
                whats += ["f" + name, "f%s:%s" % (name, p.fds[args[0]].ofd.path)]
            for what in whats:
                n = self.counts.get((who, what), 0)
                self.counts[who, what] = n + 1
                if f is None:
                    f = self.plan.get((who, what, n))
            if f is not None:
                if "errno" in f:
                    self.fire("%s:%s:%s" % (who, f.get("op", name), errno.errorcode[f["errno"]]))
                    raise KErr(f["errno"], args[0] if name in ("open", "execve", "chdir", "stat", "unlink") else None)
                if f.get("sig"):
                    self.fire("%s:%s:sig%d" % (who, name, f["sig"]))
                    self.post(p, f["sig"], {"pid": 0, "code": 0})
        p.faulted = True
        r = getattr(self, "o_" + name)(p, *args)
        p.faulted = False
        return r

    def on_disk(self, p, fd):
        e = p.fds.get(fd)
        return e is not None and e.ofd.kind == "file"

    def blocked(self, p):
        """Would the pending system call of p make no progress now?"""
        if p.state != "run":
            return p.state != "dying"
        if p.op is None:
            return True
        name, args = p.op
        if name in BLOCKING:
            if name == "hello":
                return False
            return getattr(self, "b_" + name)(p, *args)
        return False

    def runnable(self):
        return [q for q in self.procs.values()
                if q.kind in ("stub", "remote") and q.state in ("run", "dying") and not self.blocked(q)]

    def run_one(self, q):
        """One step of one entity other than root."""
        self.step += 1
        self.now += 0.00001
        self.sched_digest = hash((self.sched_digest, q.serial, q.op and q.op[0]))
        if q.op is None:
            return
        name, args = q.op
        if name == "__exit1":
            self.note(q.serial, "exit-files")
            return self.exit1(q)
        if name == "__exit2":
            self.note(q.serial, "exit", (q.status,))
            return self.exit2(q)
        if name == "hello":
            return q.chan.first(self, q)
        try:
            val = self.exec_op(q, name, args)
        except WouldBlock:
            return
        except KErr as e:
            q.faulted = False
            q.wdone = 0
            self.note(q.serial, name, args, "E%s" % errno.errorcode.get(e.errno, e.errno))
            if q.state == "dying":
                return
            if q.kind == "stub":
                self.rec_io(q, name, args, None, e)
                self.stub_next(q, None, e)
            else:
                q.chan.reply(self, q, None, e)
            return
        except ValueError as e:
            q.faulted = False
            if q.kind == "remote":
                q.chan.reply(self, q, None, e)
                return
            raise
        self.note(q.serial, name, args, val)
        if q.kind == "remote":
            # an event loop that finds something ready every time it asks and does nothing about it
            if name == "epoll_wait" and val:
                q.spin += 1
                if q.spin > 12:
                    self.now += min(0.002, 0.0001 * (q.spin - 12))
            elif name != "time":
                q.spin = 0
        if q.state == "dying":
            return
        if q.kind == "stub":
            if name != "execve":
                self.rec_io(q, name, args, val, None)
                self.stub_next(q, val, None)
        else:
            q.chan.reply(self, q, val, None)

    def rec_io(self, q, name, args, val, err):
        i = q.inst
        if i is None:
            return
        if name in ("read", "write"):
            e = q.fds.get(args[0])
            d = e.ofd.describe() if e is not None else None
        if err is not None and err.errno == errno.EAGAIN and name in ("read", "write"):
            i.again.add((args[0], d))
        if name == "read":
            if err is None:
                i.read.setdefault(args[0], bytearray()).extend(val)
                i.robj.setdefault(d, bytearray()).extend(val)
                if not val:
                    i.eof.add(args[0])
                    i.reof.add(d)
        elif name == "write":
            if err is None:
                i.wrote.setdefault(args[0], bytearray()).extend(args[1][:val])
                if e.ofd.kind != "pipew":
                    i.wobj.setdefault(d, bytearray()).extend(args[1][:val])
            elif err.errno == errno.EPIPE:
                i.broken.add(args[0])
        elif name == "open" and err is None:
            i.opened.append((args[0], val))

    # ---------------------------------------------------------------- scheduler
    def due(self):
        return self.events and self.events[0]["at"] <= self.step

    def fire_event(self):
        ev = self.events.pop(0)
        self.note("env", ev["name"])
        self.step += 1
        if ev["do"](self) is not False:
            self.fire(ev["name"])

    def at(self, step, name, do):
        self.events.append({"at": step, "name": name, "do": do})
        self.events.sort(key=lambda e: e["at"])

    def pick(self, cands):
        if len(cands) == 1:
            return cands[0]
        if self.fair:
            return min(cands, key=lambda q: (self.last_run.get(q.serial, 0), q.serial))
        mode = self.cfg.get("policy", 0)
        if mode == 1:
            tot = sum(q.weight for q in cands)
            d = self.ch.draw(tot)
            for q in cands:
                d -= q.weight
                if d < 0:
                    return q
        elif mode == 2:
            # run the same one as long as possible
            for q in cands:
                if q.serial == self.cur_serial and self.ch.draw(8):
                    return q
        elif mode == 3:
            if self.ch.draw(10):
                return cands[-1]
        elif mode == 4:
            if self.ch.draw(10):
                return cands[0]
        return cands[self.ch.draw(len(cands))]

    def other(self):
        """Lets one other entity make one step.  False if none can."""
        if self.due():
            self.fire_event()
            return True
        cands = self.runnable()
        if not cands:
            return False
        q = self.pick(cands)
        self.cur_serial = q.serial
        self.last_other = self.step
        if self.fair:
            self.last_run[q.serial] = self.step
        self.run_one(q)
        return True

    def deadlines(self):
        return [q.deadline for q in self.procs.values() if q.deadline is not None and q.state == "run"]

    def check(self):
        if self.abort is not None:
            raise self.abort
        if self.step > self.limit:
            if not self.fair:
                # faults stop, everybody gets a turn: now it has to come to an end
                self.fair = True
                self.limit += self.cfg.get("fair_steps", 30000)
                self.short_read = self.short_write = 0
                self.events = [e for e in self.events if e.get("name") not in ("spurious_chld", "stop_kid", "time_jump")]
                self.probe("fair_phase")
                return
            self.abort = SimLimit("step limit %d" % self.limit)
            raise self.abort

    def preempt(self):
        """How many steps others make before root's next call."""
        if self.fair:
            return 3
        mode = self.cfg.get("preempt", 1)
        if mode == 0:
            return 0
        if mode == 1:      # now and then a few
            return 1 + self.ch.draw(4) if self.ch.draw(4) == 0 else 0
        if mode == 2:      # most of the time some
            return self.ch.draw(4)
        if mode == 3:      # rarely, but a lot
            return 1 + self.ch.draw(200) if self.ch.draw(12) == 0 else 0
        if mode == 4:      # everybody else first
            return 400
        if mode == 5:      # mixed
            k = self.ch.draw(20)
            if k == 0:
                return 1000
            return 1 + self.ch.draw(6) if k < 8 else 0
        return 0

    def root_call(self, name, args):
        """A system call of root: the point where everybody else may run."""
        p = self.root
        self.root_next = name
        self.check()
        self.step += 1
        self.root_calls += 1
        self.now += 0.00001
        self.sched_digest = hash((self.sched_digest, name))
        n = self.preempt()
        if n == 0:
            # nobody computes for ever without the others getting a turn
            self.hog += 1
            if self.hog > 200:
                n = 40
        for _ in range(n):
            self.hog = 0
            if not self.other():
                break
            self.check()
        self.check()
        if name == "epoll_wait":
            self.spin_check(p, args)
        p.op = (name, args)
        waited = None
        try:
            while True:
                self.check()
                if not (name in BLOCKING and getattr(self, "b_" + name)(p, *args)):
                    try:
                        val = self.exec_op(p, name, args)
                        break
                    except WouldBlock:
                        pass
                if waited is None:
                    waited = self.now
                    if name not in ("epoll_wait", "sleep"):
                        self.root_block_ops.append((self.step, name, args[0]))
                        self.probe("root_blocked_in_" + name)
                if p.pysigs:
                    if name == "write" and p.wdone:
                        val, p.wdone = p.wdone, 0
                        break
                    if name in ("write", "read", "waitpid"):
                        # interrupted: handlers run, the call is made again by Python
                        return self.interrupted(name, args)
                self.idle_step(name)
        except KErr as e:
            p.faulted = False
            p.wdone = 0
            self.note("R", name, args, "E%s" % errno.errorcode.get(e.errno, e.errno))
            if name == "write" and e.errno == errno.EPIPE and args[0] in p.fds:
                self.root_werr[p.fds[args[0]].ofd.obj.id] = e.errno
            elif name == "write" and self.on_disk(p, args[0]):
                self.root_werr["file"] = e.errno
            raise
        finally:
            p.op = None
            p.deadline = None
            p.faulted = False
        if name == "epoll_wait" and args[1] and not val:
            self.spin = 0       # a timer of root is due: it has something to do now
        if waited is not None and name not in ("epoll_wait", "sleep", "poll"):
            self.root_blocked += self.now - waited
        self.note("R", name, args, val)
        return val

    def interrupted(self, name, args):
        self.root.op = None
        self.note("R", name, args, "EINTR")
        return ("__eintr__", name, args)

    def idle_step(self, name):
        """Root cannot go on: somebody else runs, an event happens, or time passes."""
        self.hog = 0
        if self.other():
            return
        if name == "epoll_wait":
            # the event loop has nothing to do, and nobody else has
            for c in self.root.children:
                if c.state == "zombie" and c.serial not in self.idle_zombies:
                    self.idle_zombies[c.serial] = self.step
        dl = self.deadlines()
        if dl:
            t = min(dl)
            if t > self.now:
                self.now = t
            return
        if self.events:
            self.fire_event()
            return
        if any(q.state == "stop" for q in self.procs.values()):
            why = "stopped processes"
        else:
            why = "nothing can run"
        self.abort = SimHang("root blocked in %s%r for ever: %s; %s" % (
            name, tuple(self._brief(a) for a in (self.root.op or (None, ()))[1]), why, self.ps()))
        raise self.abort

    def spin_check(self, p, args):
        """Root polls and finds something ready every time while nobody else can run: let time pass."""
        calls, self.spin_calls = self.spin_calls, self.root_calls
        if self.last_other != self.pstep or calls + 1 != self.root_calls:
            self.pstep = self.last_other
            self.spin = 0
            return
        loop = getattr(self.world, "loop", None)
        timers = sorted(h._when for h in getattr(loop, "_scheduled", ()) if not h._cancelled)
        if timers != self.spin_timers:
            # one has fired, or has been set: what follows from it takes a few rounds
            self.spin_timers = timers
            self.spin = 0
        self.spin += 1
        self.spin_total += 1
        if self.spin >= 7 and self.runnable():
            # nothing changes until somebody else does something
            self.spin = 0
            for _ in range(8):
                if not self.other():
                    break
            return
        if self.spin >= 7:
            if self.events:
                self.spin = 0
                self.fire_event()
                return
            dl = self.deadlines()
            if args[1] > 0:
                dl.append(self.now + args[1])
            # the timers of root itself (its event loop asks for 0 as long as anything is ready)
            dl += timers
            if dl:
                t = min(dl)
                if t > self.now:
                    self.now = t
                    self.spin = 0

    def ps(self):
        out = []
        for q in sorted(self.procs.values(), key=lambda q: q.serial):
            if q.kind in ("stub", "remote") or q.state == "zombie":
                out.append("%s#%d[%s,%s%s]" % (q.label, q.serial, q.kind, q.state,
                                               "," + q.op[0] + repr(tuple(self._brief(a) for a in q.op[1]))
                                               if q.op else ""))
        return " ".join(out)

    def settle(self, n=100000):
        """Everybody but root runs until nobody can (time passes too)."""
        for _ in range(n):
            self.check()
            if self.other():
                continue
            dl = self.deadlines()
            if dl:
                self.now = max(self.now, min(dl))
                continue
            if self.events:
                self.fire_event()
                continue
            return True
        return False

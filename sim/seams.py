"""The seams: everything the code under test can use to reach the operating system is replaced, for this process, by a
version that asks the simulated kernel while a simulation is on, and is the real thing otherwise.

CTX.role   'off'     real calls
           'root'    the simulating process; calls go to the kernel object directly
           'remote'  a really forked continuation; calls travel over a socket to the simulating process (remote.py)
"""
import asyncio
import builtins
import errno
import fcntl
import io
import marshal
import os
import posixpath
import random
import resource
import select
import selectors
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time

from .kernel import KErr, SimAbort, SimLimit, SimUnsupported, fd_mask, BLOCKING

REAL = {}


class Ctx(object):
    role = "off"
    k = None            # Kernel (root)
    chan = None         # client socket (remote)
    pid = None          # simulated pid of this process
    mask = -1           # descriptors open in the simulated process (remote)
    handlers = {}       # Python-level signal handlers
    pool = []           # socket pairs for forks of remote processes
    proc = None         # Proc of a remote, in root only
    kids = []           # real pids started by this real process
    temp_n = 0
    nofile = 128
    stdio = None
    world = None
    boot = False


CTX = Ctx()


def real(name):
    return REAL[name]


# --------------------------------------------------------------------------------------- remote side

def _sendall(s, data):
    s.sendall(struct.pack("<I", len(data)) + data)


def _recv(s, n):
    out = b""
    while len(out) < n:
        try:
            part = s.recv(n - len(out))
        except InterruptedError:
            continue
        if not part:
            return None
        out += part
    return out


def _recvmsg(s):
    h = _recv(s, 4)
    if h is None:
        return None
    d = _recv(s, struct.unpack("<I", h)[0])
    if d is None:
        return None
    return marshal.loads(d)


def _real_exit(code=0):
    REAL["os._exit"](code)


def remote_call(name, args):
    try:
        _sendall(CTX.chan, marshal.dumps((name, args)))
        m = _recvmsg(CTX.chan)
    except OSError:
        m = None
    if m is None or m[0] == "die":
        _real_exit(0)
    what, val, mask, sigs, path = m
    CTX.mask = mask
    for s in sigs:
        run_handler(s)
    if what == "err":
        raise oserror(val, path)
    if what == "value":
        raise ValueError(val)
    return val


class Chan(object):
    """Root's end of the connection to a remote."""

    def __init__(self, sock):
        self.sock = sock
        self.dead = False

    def request(self, k, q):
        """Receives requests until one that is a system call of its own."""
        while True:
            self.sock.settimeout(60)
            try:
                m = _recvmsg(self.sock)
            except socket.timeout:
                raise_abort(k, SimLimit("forked child %s#%d computes for ever" % (q.label, q.serial)))
            if m is None:
                raise_abort(k, SimUnsupported("forked child %s#%d vanished" % (q.label, q.serial)))
            name, args = m
            if name == "@rec":
                k.world.remote_rec(q, args)
                self.send(k, q, "ok", None)
                continue
            q.op = (name, args)
            if name == "__exit":
                q.op = ("_exit", args)
            return

    def first(self, k, q):
        k.note(q.serial, "hello")
        self.request(k, q)

    def send(self, k, q, what, val, path=None, sigs=()):
        _sendall(self.sock, marshal.dumps((what, val, fd_mask(q), list(sigs), path)))

    def reply(self, k, q, val, err):
        name = q.op[0]
        sigs = ()
        if q.pysigs and (name in WAITS or name != "fork" and k.cfg.get("kid_int", True)):
            # (not between the simulated fork and the real one)
            sigs, q.pysigs = q.pysigs, []
        if err is None:
            self.send(k, q, "ok", val, None, sigs)
        elif isinstance(err, KErr):
            self.send(k, q, "err", err.errno, err.path, sigs)
        else:
            self.send(k, q, "value", str(err), None, sigs)
        q.op = None
        self.request(k, q)

    def die(self, k):
        if not self.dead:
            self.dead = True
            try:
                _sendall(self.sock, marshal.dumps(("die", None, 0, [], None)))
            except OSError:
                pass
            self.sock.close()


def raise_abort(k, exc):
    if k.abort is None:
        k.abort = exc
    raise k.abort


# --------------------------------------------------------------------------------------- a system call

def oserror(no, path=None):
    if path is not None:
        return OSError(no, os.strerror(no), path)
    return OSError(no, os.strerror(no))


# (where handlers of signals run: Python runs them between any two instructions, but what waits is where they mostly hit)
WAITS = ("epoll_wait", "sleep", "poll", "kill")


def sc(name, *args):
    if CTX.role == "root":
        k = CTX.k
        try:
            v = k.root_call(name, args)
            while type(v) is tuple and len(v) == 3 and v[0] == "__eintr__":
                run_handlers()
                v = k.root_call(name, args)
        except KErr as e:
            err = oserror(e.errno, e.path)
        else:
            if name in WAITS and k.root.pysigs:
                run_handlers()
            return v
        raise err
    return remote_call(name, args)


def run_handlers():
    p = CTX.k.root
    while p.pysigs:
        run_handler(p.pysigs.pop(0))


def run_handler(sig):
    h = CTX.handlers.get(sig)
    if h is None:
        if sig == signal.SIGINT:
            raise KeyboardInterrupt
        return
    if isinstance(h, tuple):
        loop, handle = h
        if not handle._cancelled and not loop.is_closed():
            loop._ready.append(handle)
        return
    h(sig, None)


def on():
    return CTX.role != "off"


PASS = []


def passthrough(path):
    """Files of the interpreter and of the code under test are read for real."""
    try:
        path = os.fspath(path)
    except TypeError:
        return False
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    return any(path.startswith(x) and path[len(x):len(x) + 1] in ("", "/") for x in PASS)


def unsupported(what):
    e = SimUnsupported("%s is not simulated" % what)
    if CTX.role == "root":
        raise_abort(CTX.k, e)
    try:
        remote_call("@rec", ("unsupported", what))
    finally:
        _real_exit(3)


# --------------------------------------------------------------------------------------- os

def P(path):
    path = os.fspath(path)
    if isinstance(path, bytes):
        return os.fsdecode(path)
    if not isinstance(path, str):
        raise TypeError("path should be string, bytes or os.PathLike, not %s" % type(path).__name__)
    return path


def F(fd):
    if isinstance(fd, bool) or not isinstance(fd, int):
        if hasattr(fd, "fileno"):
            return fd.fileno()
        raise TypeError("an integer is required (got type %s)" % type(fd).__name__)
    if fd < 0:
        return -1
    return int(fd)


def local_ebadf(fd):
    if CTX.role == "remote" and (fd < 0 or not CTX.mask >> fd & 1):
        raise oserror(errno.EBADF)


def s_open(path, flags, mode=0o777, *, dir_fd=None):
    path = P(path)
    if passthrough(path):
        return REAL["os.open"](path, flags, mode)
    return sc("open", path, int(flags) | os.O_CLOEXEC, int(mode))


def s_close(fd):
    fd = F(fd)
    local_ebadf(fd)
    sc("close", fd)


def s_closerange(a, b):
    sc("closerange", int(a), int(b))


def s_read(fd, n):
    if n < 0:
        raise oserror(errno.EINVAL)
    return sc("read", F(fd), int(n))


def s_write(fd, data):
    return sc("write", F(fd), bytes(data))


def s_writev(fd, bufs):
    return sc("write", F(fd), b"".join(bytes(b) for b in bufs))


def s_readv(fd, bufs):
    data = sc("read", F(fd), sum(len(b) for b in bufs))
    pos = 0
    for b in bufs:
        part = data[pos:pos + len(b)]
        memoryview(b)[:len(part)] = part
        pos += len(part)
    return len(data)


def s_dup(fd):
    return sc("dup", F(fd), 0, True)


def s_dup2(fd, fd2, inheritable=True):
    return sc("dup2", F(fd), F(fd2), bool(inheritable))


def s_pipe():
    return tuple(sc("pipe", True, False))


def s_pipe2(flags):
    return tuple(sc("pipe", bool(flags & os.O_CLOEXEC), bool(flags & os.O_NONBLOCK)))


def s_lseek(fd, off, how):
    return sc("lseek", F(fd), int(off), int(how))


def s_ftruncate(fd, n):
    sc("ftruncate", F(fd), int(n))


def s_truncate(path, n):
    if isinstance(path, int):
        return s_ftruncate(path, n)
    fd = s_open(path, os.O_WRONLY)
    try:
        s_ftruncate(fd, n)
    finally:
        s_close(fd)


def s_fsync(fd):
    sc("fstat", F(fd))


def s_fstat(fd):
    return os.stat_result(tuple(sc("fstat", F(fd))))


def s_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return s_fstat(path)
    path = P(path)
    if passthrough(path):
        return REAL["os.stat"](path)
    return os.stat_result(tuple(sc("stat", path)))


def s_lstat(path, *, dir_fd=None):
    path = P(path)
    if passthrough(path):
        return REAL["os.lstat"](path)
    return os.stat_result(tuple(sc("stat", path)))


def s_access(path, mode, **kw):
    path = P(path)
    if passthrough(path):
        return REAL["os.access"](path, mode)
    return sc("access", path, int(mode))


def s_chdir(path):
    sc("chdir", P(path))


def s_getcwd():
    return sc("getcwd")


def s_getcwdb():
    return os.fsencode(sc("getcwd"))


def s_listdir(path="."):
    if isinstance(path, int):
        unsupported("os.listdir(fd)")
    if path is None:
        path = "."
    b = isinstance(path, bytes)
    path = P(path)
    if passthrough(path):
        return REAL["os.listdir"](path)
    r = list(sc("listdir", path))
    return [os.fsencode(x) for x in r] if b else r


class SimDirEntry(object):
    def __init__(self, d, name):
        self.name = name
        self.path = posixpath.join(d, name) if d != "." else name
        self._p = posixpath.join(d, name)

    def stat(self, follow_symlinks=True):
        return s_stat(self._p)

    def is_dir(self, follow_symlinks=True):
        import stat
        try:
            return stat.S_ISDIR(self.stat().st_mode)
        except OSError:
            return False

    def is_file(self, follow_symlinks=True):
        import stat
        try:
            return stat.S_ISREG(self.stat().st_mode)
        except OSError:
            return False

    def is_symlink(self):
        return False

    def inode(self):
        return self.stat().st_ino

    def __fspath__(self):
        return self.path


class SimScandir(object):
    def __init__(self, d):
        self.it = iter([SimDirEntry(d, n) for n in s_listdir(d)])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def s_scandir(path="."):
    if path is None:
        path = "."
    path = P(path)
    if passthrough(path):
        return REAL["os.scandir"](path)
    return SimScandir(path)


def s_mkdir(path, mode=0o777, **kw):
    sc("mkdir", P(path), int(mode))


def s_rmdir(path, **kw):
    sc("rmdir", P(path))


def s_unlink(path, **kw):
    sc("unlink", P(path))


def s_rename(a, b, **kw):
    sc("rename", P(a), P(b))


def s_chmod(path, mode, **kw):
    if isinstance(path, int):
        return sc("fchmod", path, int(mode))
    sc("chmod", P(path), int(mode))


def s_fchmod(fd, mode):
    sc("fchmod", F(fd), int(mode))


def s_umask(m):
    return sc("umask", int(m))


def s_isatty(fd):
    return sc("isatty", F(fd))


def s_get_inheritable(fd):
    return not sc("getfd_flags", F(fd)) & 1


def s_set_inheritable(fd, v):
    sc("setfd_flags", F(fd), 0 if v else 1)


def s_get_blocking(fd):
    return not sc("getfl", F(fd)) & os.O_NONBLOCK


def s_set_blocking(fd, v):
    fl = sc("getfl", F(fd))
    sc("setfl", F(fd), fl & ~os.O_NONBLOCK if v else fl | os.O_NONBLOCK)


def s_fork():
    if CTX.role == "root":
        k = CTX.k
        pid = sc("fork")
        c = k.procs[pid]
        a, b = socket.socketpair()
        c.chan = Chan(a)
        idx = None
    else:
        pid, idx = sc("fork")
        b = CTX.pool[idx][1]
        a = None
    rpid = REAL["os.fork"]()
    if rpid == 0:
        if a is not None:
            a.close()
        CTX.role = "remote"
        CTX.chan = b
        CTX.pid = pid
        CTX.kids = []
        CTX.k = None
        CTX.mask = -1
        return 0
    CTX.kids.append(rpid)
    if a is not None:
        b.close()
    return pid


def s_execve(path, args, env):
    if isinstance(path, int):
        unsupported("fexecve")
    argv = []
    for a in args:
        if not isinstance(a, (str, bytes)) and not hasattr(a, "__fspath__"):
            raise TypeError("execv() arg 2 must contain only strings")
        a = os.fspath(a)
        a = os.fsencode(a)
        if b"\0" in a:
            raise ValueError("embedded null byte")
        argv.append(a)
    if not argv:
        raise ValueError("execve: argv must not be empty")
    e = {}
    for key, val in env.items():
        key, val = os.fsencode(key), os.fsencode(val)
        if b"\0" in key or b"\0" in val:
            raise ValueError("embedded null byte")
        if not key or b"=" in key:
            raise ValueError("illegal environment variable name")
        e[key] = val
    r = sc("execve", P(path), argv, e)
    if r == "remote":
        CTX.handlers = {}
        CTX.world.remote_shell(argv)
    unsupported("return from execve %r" % (r,))


def s_execv(path, args):
    s_execve(path, args, os.environ)


def s__exit(code):
    if CTX.role == "root":
        raise_abort(CTX.k, SimAbort("the shell itself called os._exit(%r)" % (code,)))
    if not isinstance(code, int):
        raise TypeError("an integer is required (got type %s)" % type(code).__name__)
    remote_call("__exit", (code,))
    _real_exit(0)


def s_abort():
    s_kill(s_getpid(), signal.SIGABRT)
    _real_exit(0)


def s_kill(pid, sig):
    if not isinstance(pid, int):
        raise TypeError("an integer is required")
    sc("kill", int(pid), int(sig))
    if CTX.role == "root" and pid == CTX.pid and CTX.k.root.pysigs:
        run_handlers()


def s_killpg(pg, sig):
    sc("kill", -int(pg), int(sig))


def s_getpid():
    return CTX.pid


def s_getppid():
    return sc("getppid")


def s_getpgid(pid):
    return sc("getpgid", int(pid))


def s_getpgrp():
    return sc("getpgid", 0)


def s_setpgid(pid, pg):
    sc("setpgid", int(pid), int(pg))


def s_setpgrp():
    sc("setpgid", 0, 0)


def s_getsid(pid):
    return 1


def s_setsid():
    return sc("setsid")


def s_tcgetpgrp(fd):
    return sc("tcgetpgrp", F(fd))


def s_tcsetpgrp(fd, pg):
    sc("tcsetpgrp", F(fd), int(pg))


def s_waitpid(pid, options):
    return tuple(sc("waitpid", int(pid), int(options)))


def s_wait():
    return s_waitpid(-1, 0)


def s_wait3(options):
    pid, st = s_waitpid(-1, options)
    return pid, st, resource.struct_rusage((0,) * 16)


def s_wait4(pid, options):
    pid, st = s_waitpid(pid, options)
    return pid, st, resource.struct_rusage((0,) * 16)


def s_sysconf(name):
    if name in ("SC_OPEN_MAX", os.sysconf_names.get("SC_OPEN_MAX")):
        return CTX.nofile
    return REAL["os.sysconf"](name)


def s_urandom(n):
    return bytes(random.getrandbits(8) for _ in range(n))


def s_readlink(path, **kw):
    path = P(path)
    if passthrough(path):
        return REAL["os.readlink"](path)
    raise oserror(errno.EINVAL, path)


def s_cpu_count():
    return 4


def s_times():
    return REAL["os.times"]()


UNSUP_OS = ["system", "popen", "posix_spawn", "posix_spawnp", "spawnv", "spawnve", "spawnvp", "spawnvpe", "forkpty",
            "openpty", "sendfile", "mkfifo", "mknod", "link", "symlink", "pread", "pwrite", "preadv", "pwritev",
            "lockf", "nice", "setuid", "setgid", "chroot", "fchdir", "waitid", "memfd_create",
            "copy_file_range", "splice", "eventfd", "setpriority", "fdatasync", "chown", "fchown", "utime", "statvfs"]


# --------------------------------------------------------------------------------------- files

class SimRawIO(io.RawIOBase):
    def __init__(self, fd, mode="r", closefd=True, name=None):
        self._fd = fd
        self._closefd = closefd
        self.mode = mode
        self.name = name if name is not None else fd
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def isatty(self):
        return s_isatty(self._fd)

    def seekable(self):
        try:
            s_lseek(self._fd, 0, 1)
            return True
        except OSError:
            return False

    def readinto(self, b):
        try:
            data = s_read(self._fd, len(b))
        except BlockingIOError:
            return None
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        try:
            return s_write(self._fd, b)
        except BlockingIOError:
            return None

    def seek(self, off, how=0):
        return s_lseek(self._fd, off, how)

    def tell(self):
        return s_lseek(self._fd, 0, 1)

    def truncate(self, n=None):
        if n is None:
            n = self.tell()
        s_ftruncate(self._fd, n)
        return n

    def close(self):
        if not self.closed:
            try:
                io.RawIOBase.close(self)
            finally:
                if self._closefd and on():
                    s_close(self._fd)

    def __del__(self):
        pass


def s_io_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not on() or (not isinstance(file, int) and passthrough(file)):
        return REAL["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    ms = set(mode)
    if ms - set("axrwb+t") or len(mode) > len(ms) or len(ms & set("axrw")) != 1 or ("t" in ms and "b" in ms):
        raise ValueError("invalid mode: %r" % mode)
    binary = "b" in ms
    plus = "+" in ms
    raw_mode = "".join(c for c in mode if c not in "bt")
    if isinstance(file, int):
        fd = F(file)
        s_fstat(fd)
        name = file
    else:
        name = file
        flags = os.O_RDWR if plus else os.O_RDONLY if "r" in ms else os.O_WRONLY
        if "w" in ms:
            flags |= os.O_CREAT | os.O_TRUNC
        elif "a" in ms:
            flags |= os.O_CREAT | os.O_APPEND
        elif "x" in ms:
            flags |= os.O_CREAT | os.O_EXCL
        flags |= os.O_CLOEXEC
        fd = opener(file, flags) if opener is not None else s_open(file, flags, 0o666)
    raw = SimRawIO(fd, raw_mode, closefd, name)
    if "a" in ms:
        try:
            raw.seek(0, 2)
        except OSError:
            pass
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line = buffering == 1 and not binary
    size = buffering if buffering > 1 else 8192
    if plus:
        buf = io.BufferedRandom(raw, size)
    elif "r" in ms:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line)
    text.mode = mode
    return text


# --------------------------------------------------------------------------------------- fcntl

def s_fcntl(fd, cmd, arg=0):
    fd = F(fd)
    if cmd == fcntl.F_GETFD:
        return sc("getfd_flags", fd)
    if cmd == fcntl.F_SETFD:
        return sc("setfd_flags", fd, int(arg))
    if cmd == fcntl.F_GETFL:
        return sc("getfl", fd)
    if cmd == fcntl.F_SETFL:
        return sc("setfl", fd, int(arg))
    if cmd == fcntl.F_DUPFD:
        return sc("dup", fd, int(arg), False)
    if cmd == fcntl.F_DUPFD_CLOEXEC:
        return sc("dup", fd, int(arg), True)
    if cmd == 1031:
        return sc("pipe_sz", fd, int(arg))
    if cmd == 1032:
        return sc("pipe_sz", fd, None)
    unsupported("fcntl(%r)" % cmd)


def s_ioctl(fd, req, arg=0, mutate=True):
    import termios
    if req == termios.FIONREAD:
        n = struct.pack("i", sc("fionread", F(fd)))
        if isinstance(arg, (bytes, str)):
            return n
        if isinstance(arg, int):
            return 0
        arg[:4] = n
        return 0
    sc("fstat", F(fd))
    raise oserror(errno.ENOTTY)


# --------------------------------------------------------------------------------------- select

class SimEpoll(object):
    def __init__(self, sizehint=-1, flags=0):
        self._fd = sc("epoll_create")
        self.closed = False

    def fileno(self):
        return self._fd

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed epoll object")

    def close(self):
        if not self.closed:
            self.closed = True
            s_close(self._fd)

    def register(self, fd, eventmask=select.EPOLLIN | select.EPOLLPRI | select.EPOLLOUT):
        self._chk()
        sc("epoll_ctl", self._fd, "add", F(fd), int(eventmask))

    def modify(self, fd, eventmask):
        self._chk()
        sc("epoll_ctl", self._fd, "mod", F(fd), int(eventmask))

    def unregister(self, fd):
        self._chk()
        sc("epoll_ctl", self._fd, "del", F(fd), 0)

    def poll(self, timeout=-1, maxevents=-1):
        self._chk()
        if timeout is None:
            timeout = -1
        if maxevents == -1:
            maxevents = 1000
        return [tuple(x) for x in sc("epoll_wait", self._fd, float(timeout), int(maxevents))]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def s_epoll(sizehint=-1, flags=0):
    if not on():
        return REAL["select.epoll"](sizehint, flags)
    return SimEpoll(sizehint, flags)


class SimPoll(object):
    def __init__(self):
        self._fds = {}

    def register(self, fd, ev=select.POLLIN | select.POLLPRI | select.POLLOUT):
        self._fds[F(fd)] = int(ev)

    def modify(self, fd, ev):
        if F(fd) not in self._fds:
            raise oserror(errno.ENOENT)
        self._fds[F(fd)] = int(ev)

    def unregister(self, fd):
        del self._fds[F(fd)]

    def poll(self, timeout=None):
        t = None if timeout is None or timeout < 0 else timeout / 1000.0
        return [tuple(x) for x in sc("poll", [(fd, ev) for fd, ev in sorted(self._fds.items())], t)]


def s_poll():
    if not on():
        return REAL["select.poll"]()
    return SimPoll()


def s_select(r, w, x, timeout=None):
    m = {}
    for o in r:
        m[F(o)] = m.get(F(o), 0) | select.POLLIN
    for o in w:
        m[F(o)] = m.get(F(o), 0) | select.POLLOUT
    got = dict(sc("poll", sorted(m.items()), timeout))
    if any(v & select.POLLNVAL for v in got.values()):
        raise oserror(errno.EBADF)
    return ([o for o in r if got.get(F(o), 0) & (select.POLLIN | select.POLLHUP | select.POLLERR)],
            [o for o in w if got.get(F(o), 0) & (select.POLLOUT | select.POLLERR)], [])


class SimSelector(selectors.EpollSelector):
    _selector_cls = SimEpoll


def s_default_selector():
    if not on():
        return REAL["selectors.DefaultSelector"]()
    return SimSelector()


# --------------------------------------------------------------------------------------- signal

def s_signal(sig, handler):
    sig = int(sig)
    old = s_getsignal(sig)
    if handler == signal.SIG_DFL:
        sc("sigaction", sig, None)
        CTX.handlers.pop(sig, None)
    elif handler == signal.SIG_IGN:
        sc("sigaction", sig, "IGN")
        CTX.handlers.pop(sig, None)
    elif callable(handler):
        sc("sigaction", sig, "PY")
        CTX.handlers = dict(CTX.handlers)
        if handler is signal.default_int_handler:
            CTX.handlers.pop(sig, None)
        else:
            CTX.handlers[sig] = handler
    else:
        raise TypeError("signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object")
    return old


def s_getsignal(sig):
    sig = int(sig)
    d = sc("sigdisp", sig)
    if d is None:
        return signal.SIG_DFL
    if d == "IGN":
        return signal.SIG_IGN
    h = CTX.handlers.get(sig, signal.default_int_handler)
    return h


def s_pthread_sigmask(how, mask):
    how = {signal.SIG_BLOCK: 0, signal.SIG_UNBLOCK: 1, signal.SIG_SETMASK: 2}[how]
    old = sc("sigprocmask", how, [int(s) for s in mask])
    return {signal.Signals(s) for s in old}


def s_sigpending():
    return {signal.Signals(s) for s in sc("sigpending")}


def s_set_wakeup_fd(fd, **kw):
    return -1


def s_siginterrupt(sig, flag):
    return None


def s_pthread_kill(tid, sig):
    s_kill(CTX.pid, sig)


def s_raise_signal(sig):
    s_kill(CTX.pid, sig)


def s_signalfd(fd, signals, flags):
    import signalfd
    if not isinstance(fd, int):
        fd = fd.fileno()
    try:
        return sc("signalfd", int(fd), [int(s) for s in signals], bool(flags & signalfd.SFD_CLOEXEC),
                  bool(flags & signalfd.SFD_NONBLOCK))
    except OSError as e:
        if e.errno == errno.EBADF:
            raise ValueError("fd: not a valid file descriptor.")
        if e.errno == errno.EINVAL:
            raise ValueError("fd: not a signalfd.")
        raise


def s_sigprocmask(how, signals):
    return list(sc("sigprocmask", int(how), [int(s) for s in signals]))


# --------------------------------------------------------------------------------------- time

def s_time():
    return CTX.k.now + 1.6e9 if CTX.role == "root" else sc("time") + 1.6e9


def s_monotonic():
    return CTX.k.now if CTX.role == "root" else sc("time")


def s_time_ns():
    return int(s_time() * 1e9)


def s_monotonic_ns():
    return int(s_monotonic() * 1e9)


def s_sleep(t):
    if t < 0:
        raise ValueError("sleep length must be non-negative")
    sc("sleep", float(t))


# --------------------------------------------------------------------------------------- asyncio

class SimEventLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        asyncio.SelectorEventLoop.__init__(self, SimSelector())
        self.set_exception_handler(_loop_exception)

    def _make_self_pipe(self):
        self._ssock = self._csock = None
        self._internal_fds += 1

    def _close_self_pipe(self):
        self._internal_fds -= 1

    def _write_to_self(self):
        pass

    def time(self):
        return s_monotonic()

    def add_signal_handler(self, sig, callback, *args):
        self._check_signal(sig)
        self._check_closed()
        h = asyncio.events.Handle(callback, args, self, None)
        self._signal_handlers[sig] = h
        CTX.handlers = dict(CTX.handlers)
        CTX.handlers[int(sig)] = (self, h)
        sc("sigaction", int(sig), "PY")

    def remove_signal_handler(self, sig):
        self._check_signal(sig)
        if sig not in self._signal_handlers:
            return False
        del self._signal_handlers[sig]
        CTX.handlers = dict(CTX.handlers)
        CTX.handlers.pop(int(sig), None)
        sc("sigaction", int(sig), "PY" if sig == signal.SIGINT else None)
        return True

    def run_in_executor(self, *a, **kw):
        unsupported("run_in_executor")


def _loop_exception(loop, context):
    w = CTX.world
    if w is not None:
        e = context.get("exception")
        w.loop_errors.append("%s: %r" % (context.get("message"), e))


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    def _loop_factory(self):
        if not on():
            return asyncio.SelectorEventLoop()
        return SimEventLoop()


# --------------------------------------------------------------------------------------- temporary names

class TempNames(object):
    def __iter__(self):
        return self

    def __next__(self):
        CTX.temp_n += 1
        return "t%s_%d" % (CTX.pid, CTX.temp_n)


TEMP_NAMES = TempNames()


# --------------------------------------------------------------------------------------- installation

def _wrap(mod, name, sim):
    key = "%s.%s" % (mod.__name__, name)
    orig = getattr(mod, name, None)
    if orig is None:
        return
    REAL[key] = orig

    def wrapper(*a, **kw):
        if CTX.role == "off":
            return orig(*a, **kw)
        return sim(*a, **kw)
    wrapper.__name__ = name
    wrapper.__doc__ = getattr(orig, "__doc__", None)
    setattr(mod, name, wrapper)


def _unsup(mod, name):
    key = "%s.%s" % (mod.__name__, name)
    orig = getattr(mod, name, None)
    if orig is None:
        return
    REAL[key] = orig

    def wrapper(*a, **kw):
        if CTX.role == "off":
            return orig(*a, **kw)
        unsupported(key)
    setattr(mod, name, wrapper)


class Stdio(object):
    """sys.stdout and friends: the real ones while no simulation is on."""

    def __init__(self, which, orig):
        self._which = which
        self._orig = orig

    def _cur(self):
        if CTX.role == "off" or CTX.stdio is None:
            return self._orig
        return CTX.stdio[self._which]

    def __getattr__(self, name):
        return getattr(self._cur(), name)

    def __iter__(self):
        return iter(self._cur())


def make_stdio():
    out = []
    for fd in (0, 1, 2):
        raw = SimRawIO(fd, "r" if fd == 0 else "w", False, ("<stdin>", "<stdout>", "<stderr>")[fd])
        if fd == 0:
            out.append(io.TextIOWrapper(io.BufferedReader(raw), "utf-8"))
        else:
            out.append(io.TextIOWrapper(io.BufferedWriter(raw), "utf-8",
                                        "backslashreplace" if fd == 2 else "strict",
                                        line_buffering=True))
    return out


def install():
    if REAL:
        return
    g = globals()
    PASS.extend(sorted({p.rstrip("/") for p in sys.path + [sys.prefix, os.path.dirname(os.__file__)]
                        if p.startswith("/") and p.count("/") and p.rstrip("/") not in ("", "/usr", "/tmp", "/verif")}))
    for name in list(g):
        if name.startswith("s_") and hasattr(os, name[2:]) and name[2:] in OSNAMES:
            _wrap(os, name[2:], g[name])
    _wrap(os, "_exit", s__exit)
    os.remove = os.unlink
    os.replace = os.rename
    for n in UNSUP_OS:
        _unsup(os, n)
    REAL["io.open"] = io.open
    builtins.open = s_io_open
    io.open = s_io_open
    _wrap(fcntl, "fcntl", s_fcntl)
    _wrap(fcntl, "ioctl", s_ioctl)
    REAL["select.epoll"] = select.epoll
    REAL["select.poll"] = select.poll
    select.epoll = s_epoll
    select.poll = s_poll
    _wrap(select, "select", s_select)
    REAL["selectors.DefaultSelector"] = selectors.DefaultSelector
    selectors.DefaultSelector = s_default_selector
    for n in ("signal", "getsignal", "pthread_sigmask", "sigpending", "set_wakeup_fd", "siginterrupt", "pthread_kill",
              "raise_signal"):
        _wrap(signal, n, g["s_" + n])
    for n in ("sigwait", "sigwaitinfo", "sigtimedwait", "pause", "alarm", "setitimer"):
        _unsup(signal, n)
    for n in ("time", "monotonic", "time_ns", "monotonic_ns", "sleep"):
        _wrap(time, n, g["s_" + n])
    _wrap(time, "perf_counter", s_monotonic)
    REAL["resource.getrlimit"] = resource.getrlimit

    def s_getrlimit(what):
        if CTX.role != "off" and what == resource.RLIMIT_NOFILE:
            return (CTX.nofile, CTX.nofile)
        return REAL["resource.getrlimit"](what)
    resource.getrlimit = s_getrlimit
    tempfile._get_default_tempdir = lambda: "/tmp"
    orig_tempdir = tempfile.gettempdir
    tempfile.gettempdir = lambda: "/tmp" if on() else orig_tempdir()
    tempfile._get_candidate_names = lambda: TEMP_NAMES
    _unsup(threading.Thread, "start")
    orig_popen = subprocess.Popen.__init__

    def popen_init(self, *a, **kw):
        if CTX.role != "off":
            unsupported("subprocess.Popen")
        return orig_popen(self, *a, **kw)
    subprocess.Popen.__init__ = popen_init
    sys.stdin = Stdio(0, sys.stdin)
    sys.stdout = Stdio(1, sys.stdout)
    sys.stderr = Stdio(2, sys.stderr)
    asyncio.set_event_loop_policy(SimPolicy())
    try:
        import psutil
    except ImportError:
        psutil = None
    if psutil is not None:
        orig_init = psutil.Process.__init__

        def pinit(self, pid=None):
            if CTX.role != "off":
                # a process object without details (the tree of processes is not simulated)
                self._pid = CTX.pid if pid is None else pid
                self._name = self._exe = self._create_time = self._hash = None
                self._gone = self._pid_reused = False
                self._ident = (self._pid, 0.0)
                self._proc = None
                return
            orig_init(self, pid)
        psutil.Process.__init__ = pinit


OSNAMES = {n[2:] for n in list(globals()) if n.startswith("s_") and hasattr(os, n[2:])} - {"_exit"}


def install_signalfd():
    import signalfd
    _wrap(signalfd, "signalfd", s_signalfd)
    _wrap(signalfd, "sigprocmask", s_sigprocmask)

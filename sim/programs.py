"""External programs of the simulated world, and the same programs as pure functions (the reference model).

A program is a list of operations (see OPS in the model below):

  ["out", data, chunk, delay]    write data to standard output in pieces of chunk bytes ("l": one line per write)
  ["err", data]                  write data to standard error
  ["cat", chunk, delay, map]     copy standard input to standard output until end of file
  ["slurp", chunk, delay, map]   read all of standard input, then write it
  ["head", n, chunk]             read n bytes at most, write them
  ["headl", n, chunk]            read n lines at most, write them
  ["drain", chunk, delay]        read all of standard input
  ["sum"]                        write a line with the count and checksum of all that was read
  ["yes", line]                  write the line until the pipe breaks
  ["argin", i, chunk]            open the file named by argument i (an --x=value option: its value), copy it out
  ["arghead", i, n]              open it, copy out n bytes at most
  ["argdrop", i]                 open it, close it
  ["argout", i, data, chunk]     open that file for writing, write data
  ["tofile", path, data]         write a file
  ["sleep", t] ["kill", sig] ["stop"] ["closein"] ["daemon", t] ["sleepw", t]
"""
import binascii
import posixpath
import shlex

from .kernel import KErr, O_RDONLY, O_WRONLY, O_CREAT, O_TRUNC, Instance

PAD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
PADS = "\u2028\u0085\x0b\r\x0c\x1c\u2029\x1d\x1e\r\r"
PADU = "\u00e4\u00f6\u00fc\u20ac\u6f22\u5b57\U0001f600\u03bb"


def gen_data(spec):
    """bytes of a data specification."""
    if "lit" in spec:
        return spec["lit"].encode("latin1")
    out = []
    tag = spec.get("tag", "x")
    enc = spec.get("enc", "ascii")
    lines = spec["lines"]
    for i, n in enumerate(lines):
        head = ("%s%d:" % (tag, i)).encode("utf-8")
        if n < len(head):
            body = head[:n]
        elif enc == "ascii":
            m = n - len(head)
            s = (PAD * (m // len(PAD) + 1))[i % 7:]
            s = (s + PAD)[:m]
            body = head + s.encode("ascii")
        elif enc in ("utf8", "sep"):
            pad = PADU if enc == "utf8" else PADS
            body = head
            j = i
            while True:
                c = pad[j % len(pad)].encode("utf-8")
                if len(body) + len(c) > n:
                    break
                body += c
                j += 1
            body += b"." * (n - len(body))
        elif enc in ("ws", "crlf", "bom"):
            # blanks at both ends, carriage returns at the end, byte order marks at the beginning
            pre, post = {"ws": ((b" ", b"\t", b"  ", b"")[i % 4], (b" ", b"\t ", b"", b"\x0b")[i % 4]),
                         "crlf": (b"", b"\r" * (i % 3)), "bom": (b"\xef\xbb\xbf", b"")}[enc]
            m = max(0, n - len(pre) - len(post))
            body = pre + (head + (PAD * (m // len(PAD) + 1)).encode("ascii"))[:m] + post
        elif enc == "ctl":
            body = head + bytes((j * 7 + i) % 128 if (j * 7 + i) % 128 != 10 else 13 for j in range(n - len(head)))
        else:  # arbitrary bytes but newline
            body = head + bytes((j * 37 + i * 11 + 128) % 256 if (j * 37 + i * 11 + 128) % 256 != 10 else 255
                                for j in range(n - len(head)))
        out.append(body)
    for x in spec.get("words", ()):
        # lines given as they are
        out.append(x.encode("utf-8"))
    data = b"\n".join(out)
    if out and spec.get("nl", True):
        data += b"\n"
    return data


def apply_map(m, data):
    if not m:
        return data
    if m == "swap":
        return data.swapcase()
    return data


def argpath(argv, i):
    a = argv[i]
    if a.startswith(b"--") and b"=" in a:
        a = a.split(b"=", 1)[1]
    return a.decode("utf-8", "surrogateescape")


def pieces(data, chunk):
    if chunk == "l":
        return data.splitlines(True) if b"\r" not in data else [x + b"\n" for x in data.split(b"\n")[:-1]] + (
            [data.split(b"\n")[-1]] if data.split(b"\n")[-1] else [])
    if not chunk or chunk <= 0:
        return [data] if data else []
    return [data[i:i + chunk] for i in range(0, len(data), chunk)]


def wr(fd, data):
    while data:
        n = yield ("write", (fd, data))
        data = data[n:]


def copy_fd(fd, chunk, delay, m, out=True):
    got = bytearray()
    while True:
        data = yield ("read", (fd, chunk or 65536))
        if not data:
            return bytes(got)
        got += data
        if delay:
            yield ("sleep", (delay,))
        if out:
            yield from wr(1, apply_map(m, data))


def main(k, proc, inst, spec, argv):
    seen = bytearray()
    for op in spec.get("do", ()):
        o = op[0]
        if o == "out":
            for part in pieces(gen_data(op[1]), op[2]):
                if op[3]:
                    yield ("sleep", (op[3],))
                yield from wr(1, part)
        elif o == "err":
            for part in pieces(gen_data(op[1]), op[2] if len(op) > 2 else 0):
                yield from wr(2, part)
        elif o == "outfd":
            yield from wr(op[1], gen_data(op[2]))
        elif o == "infd":
            yield from copy_fd(op[1], op[2], op[3], None, False)
        elif o == "cat":
            seen += yield from copy_fd(0, op[1], op[2], op[3])
        elif o == "slurp":
            d = yield from copy_fd(0, op[1], op[2], None, False)
            seen += d
            yield from wr(1, apply_map(op[3], d))
        elif o == "drain":
            seen += yield from copy_fd(0, op[1], op[2], None, False)
        elif o == "head":
            left = op[1]
            while left > 0:
                d = yield ("read", (0, min(left, op[2])))
                if not d:
                    break
                left -= len(d)
                seen += d
                yield from wr(1, d)
        elif o == "headl":
            buf = b""
            while buf.count(b"\n") < op[1]:
                d = yield ("read", (0, op[2]))
                if not d:
                    break
                seen += d
                buf += d
            ls = buf.split(b"\n")
            yield from wr(1, b"".join(x + b"\n" for x in ls[:-1][:op[1]]) + (ls[-1] if len(ls) - 1 < op[1] else b""))
        elif o == "sum":
            yield from wr(1, b"%d %08x\n" % (len(seen), binascii.crc32(bytes(seen))))
        elif o == "yes":
            line = gen_data(op[1])
            while True:
                yield from wr(1, line)
        elif o == "argin":
            fd = yield ("open", (argpath(argv, op[1]), O_RDONLY))
            while True:
                d = yield ("read", (fd, op[2] or 65536))
                if not d:
                    break
                yield from wr(1, d)
            yield ("close", (fd,))
        elif o == "arghead":
            fd = yield ("open", (argpath(argv, op[1]), O_RDONLY))
            left = op[2]
            while left > 0:
                d = yield ("read", (fd, min(left, 1000)))
                if not d:
                    break
                left -= len(d)
                yield from wr(1, d)
            yield ("close", (fd,))
        elif o == "argdrop":
            fd = yield ("open", (argpath(argv, op[1]), O_RDONLY))
            yield ("close", (fd,))
        elif o == "argout":
            fd = yield ("open", (argpath(argv, op[1]), O_WRONLY))
            for part in pieces(gen_data(op[2]), op[3]):
                yield from wr(fd, part)
            yield ("close", (fd,))
        elif o == "argall":
            # reads several argument files alternately, writes them in order
            fds = []
            for i in op[1]:
                fds.append((yield ("open", (argpath(argv, i), O_RDONLY))))
            bufs = {fd: b"" for fd in fds}
            left = list(fds)
            while left:
                for fd in list(left):
                    d = yield ("read", (fd, op[2] or 4096))
                    if not d:
                        left.remove(fd)
                    bufs[fd] += d
            for fd in fds:
                yield from wr(1, bufs[fd])
        elif o == "tofile":
            fd = yield ("open", (op[1], O_WRONLY | O_CREAT | O_TRUNC, 0o666))
            yield from wr(fd, gen_data(op[2]))
            yield ("close", (fd,))
        elif o == "sleep":
            yield ("sleep", (op[1],))
        elif o == "kill":
            if op[1] in (13, 25):
                # (ignored in what Python starts)
                yield ("sigaction", (op[1], None))
            yield ("kill", (proc.pid, op[1]))
            yield ("sleep", (1000.0,))
        elif o == "stop":
            yield ("kill", (proc.pid, 19))
            yield ("getpid", ())
        elif o == "sigign":
            yield ("sigaction", (op[1], "IGN"))
        elif o == "ownpg":
            yield ("setpgid", (0, 0))
        elif o == "closein":
            yield ("close", (0,))
        elif o == "closeout":
            yield ("close", (1,))
        elif o == "daemon":
            def gen(t):
                yield ("sleep", (t,))
                return 0
            k.spawn_stub(proc, gen(op[1]), "daemon of %s" % inst.label)
        elif o == "bash":
            yield from bash(k, proc, inst, op, argv)
        elif o == "pwd":
            d = yield ("getcwd", ())
            yield from wr(1, d.encode("utf-8") + b"\n")
        elif o == "env":
            for key in op[1]:
                yield from wr(1, inst.env.get(key.encode(), b"<unset>") + b"\n")
        elif o == "argv":
            for a in argv[1:]:
                yield from wr(1, a + b"\0")
    return spec.get("exit", 0)


def sourced(proc, argv):
    """The scripts bash is told to source, None if that cannot be told, "error" if it is no valid command line."""
    if b"-c" not in argv[:-1]:
        return None
    lex = shlex.shlex(argv[argv.index(b"-c") + 1].decode("utf-8", "surrogateescape"), posix=True,
                      punctuation_chars=";{}>&|")
    lex.whitespace_split = True
    lex.commenters = ""
    try:
        words = list(lex)
    except ValueError:
        return "error"
    out = []
    for a, b in zip(words, words[1:]):
        if a in ("source", "."):
            if b.startswith("$"):
                return None
            out.append(posixpath.normpath(posixpath.join(proc.cwd, b)))
    return out


def bash(k, proc, inst, op, argv):
    """bash -l -i -c '...; { declare -x; declare -f; } > $0' FILE: reports to the file given as $0."""
    path = argv[-1].decode()
    report = gen_data(op[1])
    inst.sourced = sourced(proc, argv)
    if inst.sourced == "error":
        return 2
    if len(op) > 4:
        report = report[:op[4]]
    for part in op[3] if len(op) > 3 else ():
        yield ("sleep", (part,))
    fd = yield ("open", (path, O_WRONLY | O_CREAT | O_TRUNC, 0o666))
    for part in pieces(report, op[2]):
        yield from wr(fd, part)
    if len(op) > 5:
        yield ("kill", (proc.pid, op[5]))
        yield ("sleep", (1000.0,))
    yield ("close", (fd,))


def exec_stub(k, proc, prog, argv, env):
    """An external program starts in proc."""
    label = prog
    if prog == "prog":
        label = argv[1].decode("utf-8", "replace") if len(argv) > 1 else "?"
    proc.label = label
    inst = Instance(label, proc, argv, env)
    inst.step = k.step
    proc.inst = inst
    k.insts.append(inst)
    spec = k.programs.get(label)
    if spec is None:
        spec = {"do": [], "exit": 127}
    proc.gen = main(k, proc, inst, spec, argv)
    proc.op = None
    k.note(proc.serial, "exec", (label, list(argv)))
    k.stub_next(proc, None, None)


# ------------------------------------------------------------------------------------------ reference model

def model(spec, stdin, args=None):
    """(stdout, stderr, consumed, full) of a program given all of its standard input and its argument files.
    full: it reads its input to the end."""
    out, err, seen = bytearray(), bytearray(), bytearray()
    pos = 0
    full = False
    for op in spec.get("do", ()):
        o = op[0]
        if o == "out":
            out += gen_data(op[1])
        elif o == "err":
            err += gen_data(op[1])
        elif o in ("cat", "slurp", "drain"):
            d = stdin[pos:]
            pos = len(stdin)
            full = True
            seen += d
            if o != "drain":
                out += apply_map(op[3], d)
        elif o == "head":
            d = stdin[pos:pos + op[1]]
            pos += len(d)
            seen += d
            out += d
        elif o == "headl":
            ls = stdin[pos:].split(b"\n")
            d = b"".join(x + b"\n" for x in ls[:-1][:op[1]]) + (ls[-1] if len(ls) - 1 < op[1] else b"")
            out += d
            seen += d
            pos += len(d)
        elif o == "sum":
            out += b"%d %08x\n" % (len(seen), binascii.crc32(bytes(seen)))
        elif o == "argin":
            out += args[op[1]]
        elif o == "arghead":
            out += args[op[1]][:op[2]]
        elif o == "argall":
            for i in op[1]:
                out += args[i]
        elif o == "kill":
            break
    return bytes(out), bytes(err), pos, full

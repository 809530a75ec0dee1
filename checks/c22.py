"""C22 - would-block and failing system calls of raw streams."""
import errno

from symx.engine import And, If, Implies, Min, Not, Or, SymBuf, SymBytes, SymView, add, eq, ex, ge, gt, le, lt, ne, sub, sym_len, wrap
from checks.reffile import RefFile, same_data, same_file

PROPERTY = "C22"
ENCODED = [
    "RSFileIOAbstract.read/readinto/readall/write/seek/tell/size/truncate/times/unique_id/close", "rsfileio_unix.RSFileIO._inner_* and "
    "_unix_error_converter", "RSThreadSafeWrapper proxies",
]
BOUNDS = {
    "quick": "regular files, fifos and character devices of symbolic content; 2 operations among read, readinto, readall (up to 3 chunks), write, seek, tell, size, "
             "truncate, times, then a successful operation and close; EAGAIN at every transfer; one failing system call with any errno "
             "1..132 (a symbolic number, plus each errno that has its own exception class); each system call of the opening of a raw stream failing",
    "thorough": "3 operations, two failures",
}
OUTSIDE = "EINTR (retried by CPython itself: os.read/os.write never report it); errors of the buffered and text layers (C12, C15)"
REQUIRED = [
    "none-read", "none-readinto", "none-readall", "none-write", "raised", "epipe-read", "epipe-write", "recovered", "closed", "partial-readall",
    "close-failed", "open-failed", "pipe", "reg",
]
CLASSES = [errno.EACCES, errno.EPERM, errno.ENOENT, errno.EEXIST, errno.ECONNRESET, errno.ETIMEDOUT, errno.EPIPE, errno.ENOTDIR, errno.ECHILD,
           errno.EBADF, errno.ESPIPE]
BUF = 20000
READS = ["read", "readinto", "readall"]
OPS = ["write", "seek", "tell", "size", "truncate", "truncate_none", "times"]


def cases(tier):
    out = []
    full = tier != "quick"
    for kind in ("reg", "fifo", "chr"):
        for op in READS + ["write"] + (OPS[1:] if kind == "reg" else []):
            out.append(dict(name="%s-%s" % (kind, op), samples=1, range_limit=6, params=dict(kind=kind, first=op, depth=3 if full else 2, full=full)))
    out.append(dict(name="classes", harness="classes", samples=1))
    out.append(dict(name="close", harness="closing", samples=1))
    out.append(dict(name="open", harness="opening", samples=1))
    return out


class FakePipe(object):
    """what must come out of (or go into) a fifo or a device"""

    def __init__(self, base, size):
        self.base, self.size, self.pos, self.out = base, size, 0, []


def make(eng, w, kind, op, ts):
    k = w.kernel
    old = eng.func("old")
    size = eng.int("size", 0, 20000 if op in READS else 2 ** 40)
    node = k.inode("f", size=size, base=old, kind=kind)
    if kind == "reg":
        mode = "RWB"
        f = w.rsfile.rsopen("f", mode, buffering=0, locking=False, thread_safe=ts)
    else:
        node.content.base = old
        mode = "RB" if op in READS else "WB"
        fd = k.install(node, 0 if op in READS else 1)
        f = w.rsfile.rsopen(mode=mode, fileno=fd, buffering=0, locking=False, thread_safe=ts)
    return k, node, old, size, f


def harness(eng, w, kind, first, depth, full):
    k, node, old, size, f = make(eng, w, kind, first, eng.bool("ts"))
    ref = RefFile(old, size) if kind == "reg" else None
    eng.reach("reg" if kind == "reg" else "pipe")
    k.eagain = True
    k.partial_reads = k.partial_writes = True
    k.partial_budget = k.pipe_budget = 2 if full else 1
    st = dict(rpos=0, out=[])
    for d in range(depth):
        if d == 0:
            op = first
        else:
            op = eng.choose("op%d" % d, (READS if first in READS else ["write"]) if kind != "reg" else ["read", "write"])
        k.fault_budget = (2 if full else 1) if d == 0 else 0
        k.fault_calls = ("read", "write", "lseek", "ftruncate", "fstat")
        k.fault_errnos = (errno.EPIPE, errno.EAGAIN, "sym") if op in READS or op == "write" else ("sym",)
        step(eng, k, f, node, kind, ref, old, size, op, d, st)
        k.fault_budget = 0
        if kind == "reg":
            eng.check(eq(f.tell(), ref.pos), "position after " + op)
            same_file(eng, node, ref, "file after " + op, "x%d" % d)
        else:
            eng.check(eq(getattr(node, "rpos", 0), st["rpos"]), "data was lost")
            eng.check(len(getattr(node, "out", [])) == len(st["out"]), "data was written in spite of the error")
            for (n, b), (n2, fn2) in zip(getattr(node, "out", []), st["out"]):
                eng.check(eq(n, n2), "wrong count")
        if k.faults:
            eng.reach("recovered")
    f.close()
    eng.check(f.closed and not k.table(), "the stream wasn't closed")
    eng.reach("closed")


def outcome(eng, k, fn):
    """runs fn: returns (result, failing call)"""
    n0 = len(k.log)
    nf = len(k.faults)
    try:
        r = fn()
    except OSError as e:
        e.__traceback__ = None
        eng.check(len(k.faults) > nf, "unexpected error", repr(e))
        eng.check(eq(e.errno, k.faults[-1][2]), "the errno of the system was lost", repr(e))
        eng.check(eq(e.args[0], k.faults[-1][2]), "the errno of the system was lost", repr(e))
        eng.reach("raised")
        return None, e, k.log[n0:], k.faults[nf:]
    return r, None, k.log[n0:], k.faults[nf:]


def got_bytes(log):
    return [l[2][1] for l in log if l[0] == "read" and l[2][0] == "ok"]


def errnos(log, name):
    return [l[2][1] for l in log if l[0] == name and l[2][0] == "err"]


def is_(v, no):
    return type(v) is int and v == no


def step(eng, k, f, node, kind, ref, old, size, op, d, st):
    def advance(n):
        if kind == "reg":
            return ref.read(n)
        p = ex(st["rpos"])
        st["rpos"] = wrap(add(p, n))
        return n, lambda i: old(add(p, ex(i)))

    if op in READS:
        n = eng.int("n%d" % d, 1, BUF)
        buf = None
        if op == "readinto":
            was = eng.data("buf%d" % d, n)
            buf = SymBuf(bytearray(was) if type(was) is bytes else was)
            target = buf if type(was) is not bytes else buf.d
            fn = lambda: f.readinto(target)
        elif op == "readall":
            if d:
                k.partial_budget = k.pipe_budget = 0
            fn = lambda: f.readall()
        else:
            fn = lambda: f.read(n)
        r, err, log, faults = outcome(eng, k, fn)
        parts = got_bytes(log)
        last = errnos(log, "read")[-1:]
        if err is not None:
            eng.check(not is_(last[0], errno.EAGAIN) and not is_(last[0], errno.EPIPE), "error raised instead of None or end of file")
            for p in parts:  # (readall() which fails in the middle)
                advance(sym_len(p))
            return
        total = 0
        for p in parts:
            total = add(total, sym_len(p))
        if last:
            eng.check(is_(last[0], errno.EAGAIN) or is_(last[0], errno.EPIPE), "a system error was swallowed", repr(last))
        nothing = eng.truth(eq(total, 0))
        if last and is_(last[0], errno.EAGAIN) and nothing:
            eng.check(r is None, "would block but the result isn't None", repr(r))
            eng.reach("none-" + op)
            if buf is not None:
                y = eng.int("y%d" % d, 0)
                eng.check(Implies(lt(y, n), eq(SymBytes.of(target).fn(y), SymBytes.of(was).fn(y))), "the buffer was modified")
            return
        if last and is_(last[0], errno.EPIPE):
            eng.reach("epipe-read")
        eng.check(r is not None, "None returned although it would not block")
        ln, fn = advance(total)
        if op == "readinto":
            eng.check(eq(r, total), "wrong count")
            y = eng.int("y%d" % d, 0)
            eng.check(Implies(lt(y, r), eq(SymBytes.of(target).fn(y), fn(y))), "wrong bytes")
        else:
            same_data(eng, r, total, fn, op, "y%d" % d)
            if op == "readall" and last and not nothing:
                eng.reach("partial-readall")
    elif op == "write":
        n = eng.int("n%d" % d, 1, BUF)
        data = eng.data("data%d" % d, n)
        arg = data
        if eng.bool("view%d" % d):
            arg = memoryview(data) if type(data) is bytes else SymView(data)
        r, err, log, faults = outcome(eng, k, lambda: f.write(arg))
        last = errnos(log, "write")
        done = [l[2][1] for l in log if l[0] == "write" and l[2][0] == "ok"]
        if last:
            if is_(last[0], errno.EAGAIN):
                eng.check(err is None and r is None, "would block but the result isn't None", repr(r))
                eng.reach("none-write")
            else:
                eng.check(err is not None, "a system error was swallowed")
                if is_(last[0], errno.EPIPE):
                    eng.reach("epipe-write")
            eng.check(not done, "the write was tried again")
            return
        eng.check(len(done) == 1 and r is not None and eng.truth(eq(r, done[0])), "wrong count", repr(r))
        if kind == "reg":
            ref.write(SymBytes.of(data)[:r])
        else:
            st["out"].append((r, None))
            y = eng.int("y%d" % d, 0)
            b = node.out[-1][1]
            eng.check(Implies(lt(y, r), eq(b.fn(y), SymBytes.of(data).fn(y))), "wrong bytes")
    else:
        m = eng.int("m%d" % d, 0, 2 ** 40)
        fn = {
            "seek": lambda: f.seek(m), "tell": f.tell, "size": f.size, "truncate": lambda: f.truncate(m), "truncate_none": lambda: f.truncate(),
            "times": f.times,
        }[op]
        r, err, log, faults = outcome(eng, k, fn)
        failed = [l for l in log if l[2][0] == "err"]
        eng.check(not failed or err is not None, "a system error was swallowed")
        cut = [l for l in log if l[0] == "ftruncate" and l[2][0] == "ok"]
        if cut:
            ref.truncate(cut[0][1][1])
        if err is not None:
            return
        if op == "seek":
            ref.seek(m)
            eng.check(eq(r, ref.pos), "seek()")
        elif op == "tell":
            eng.check(eq(r, ref.pos), "tell()")
        elif op == "size":
            eng.check(eq(r, ref.size), "size()")
        elif op.startswith("truncate"):
            want = m if op == "truncate" else ref.pos
            eng.check(eq(ref.size, want), "truncate()")
            eng.check(eq(r, want), "truncate(): wrong result")


def classes(eng, w):
    """the errnos which have an exception class of their own"""
    op = eng.choose("op", ["read", "readinto", "readall", "write", "seek", "tell", "size", "truncate", "times", "unique_id"])
    k, node, old, size, f = make(eng, w, "reg", op, False)
    raw = f
    if op == "unique_id":
        raw._unique_id = None if hasattr(raw, "_unique_id") else None
    no = eng.choose("no", CLASSES)
    k.fault_budget = 1
    k.fault_calls = {"read": ("read",), "readinto": ("read",), "readall": ("read",), "write": ("write",), "seek": ("lseek",), "tell": ("lseek",),
                     "size": ("fstat",), "truncate": ("ftruncate",), "times": ("fstat",), "unique_id": ("fstat",)}[op]
    k.fault_errnos = (no,)
    fn = {
        "read": lambda: f.read(4), "readinto": lambda: f.readinto(bytearray(4)), "readall": f.readall, "write": lambda: f.write(b"abc"),
        "seek": lambda: f.seek(3), "tell": f.tell, "size": f.size, "truncate": lambda: f.truncate(wrap(add(size, 1))), "times": f.times,
        "unique_id": f.unique_id,
    }[op]
    if op == "readinto":
        k.symbolic_data = False
        node.set_bytes(b"ab")
    try:
        r = fn()
    except OSError as e:
        e.__traceback__ = None
        eng.check(bool(k.faults), "unexpected error")
        eng.check(e.errno == no and type(e) is type(OSError(no, "x")), "wrong exception", repr(e))
        eng.check(not (no == errno.EPIPE and op in READS), "broken pipe raised on reading")
    else:
        if k.faults:
            eng.check(no == errno.EPIPE and op in READS, "a system error was swallowed", repr(no))
    k.fault_budget = 0
    f.close()
    eng.check(not k.table(), "the stream wasn't closed")


def closing(eng, w):
    """close() which fails reports it, and the stream is closed all the same"""
    kind = eng.choose("kind", ["reg", "fifo"])
    k, node, old, size, f = make(eng, w, kind, "write", eng.bool("ts"))
    if kind == "reg" and eng.bool("lock"):
        f.lock_file(timeout=0)
    k.fault_budget = 1
    k.fault_calls = ("close",)
    k.fault_errnos = ("sym", errno.EINTR)
    try:
        f.close()
    except OSError as e:
        e.__traceback__ = None
        eng.check(bool(k.faults) and eng.truth(eq(e.errno, k.faults[0][2])), "wrong error", repr(e))
        eng.reach("close-failed")
    else:
        eng.check(not k.faults, "the failure of close() was swallowed")
    k.fault_budget = 0
    eng.check(f.closed and not k.table(), "the stream wasn't closed")
    f.close()
    eng.check(not k.bad_closes, "double close")


def opening(eng, w):
    """whatever fails when a raw stream is opened is reported, but the impossibility to seek"""
    k = w.kernel
    kind = eng.choose("kind", ["reg", "fifo"])
    mode = eng.choose("mode", [dict(read=True), dict(write=True), dict(append=True), dict(write=True, must_create=True)])
    how = eng.choose("how", ["path", "fileno"])
    if kind == "fifo" or how == "fileno" or eng.bool("exists"):
        node = k.inode("f", size=eng.int("size", 0, 2 ** 40) if kind == "reg" else 0, base=eng.func("old"), kind=kind)
        if how == "path" and mode.get("must_create"):
            eng.end("refused")
    kw = dict(path="f")
    if how == "fileno":
        kw = dict(fileno=k.install(node, 2), closefd=eng.bool("closefd"))
    before = dict(k.table())
    k.fault_budget = 1
    k.fault_errnos = ("sym",) + (tuple(CLASSES) if eng.bool("class") else ())
    f = None
    try:
        f = w.rsfile.RSFileIO(**kw, **mode)
    except OSError as e:
        e.__traceback__ = None
        eng.check(bool(k.faults), "unexpected error", repr(e))
        eng.check(eq(e.errno, k.faults[0][2]), "wrong errno", repr(e))
        eng.reach("open-failed")
    else:
        if k.faults:
            eng.check(k.faults[0][0] == "lseek" and eq(k.faults[0][2], errno.ESPIPE), "a failure of the opening was swallowed", repr(k.faults))
    k.fault_budget = 0
    if f is not None:
        f.close()
    f = None
    w.collect()
    eng.check(not k.bad_closes, "double close")
    eng.check(how == "fileno" or not k.table(), "a descriptor is leaked")

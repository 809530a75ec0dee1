"""C20 - Windows streams obey the same file contract."""
import errno

from symx.engine import And, If, Iff, Implies, Max, Min, Not, Or, SymBuf, SymBytes, add, eq, ge, gt, is_sym, le, lt, ne, sub, sym_len, wrap
from symx.nt import GENERIC_READ, GENERIC_WRITE
from checks.reffile import RefFile, same_data, same_file

PROPERTY = "C20"
ENCODED = [
    "rsfileio_windows.RSFileIO (every method)", "rsbackend/windows_ctypes.py", "rsbackend/raw_win32_ctypes.py", "rsbackend/windows_pywin32.py",
    "RSFileIOAbstract.__init__/close/read/readinto/readall/write/seek/tell/truncate/size/fileno/handle",
]
BOUNDS = {
    "quick": "raw streams over both native backends, with and without os.set_blocking(); every combination of opening flags, existing/missing/read-only file; "
             "histories of 2 operations (read, readinto, write, seek, truncate) from any position and size 0..2^62, transfers of any size up to 2^33, "
             "extensions up to 3 blocks of 8 KiB and any position; wrapped handles and descriptors, blocking and non-blocking pipes",
    "thorough": "histories of 3 operations, extensions up to 6 blocks",
}
OUTSIDE = "file systems which leave the gap of a write past the end unspecified (NTFS reads zeros); sharing with openers which don't share; real Windows (the model of kernel32, " \
          "msvcrt and pywin32 follows their documentation); interleavings of the native calls with other processes"
REQUIRED = ["opened", "created", "missing", "exists", "readonly", "read", "eof", "wrote", "appended", "seeked", "reduced", "extended", "extended-nofill", "gap",
            "wrapped", "pipe-none", "pipe-full", "pipe-eof", "kept", "bad-seek"]
BACKENDS = ("ctypes", "pywin32", "ctypes-old")


def cases(tier):
    out = []
    full = tier != "quick"

    def case(name, harness, backend, weight=1, **params):
        out.append(dict(name="%s-%s" % (name, backend), harness=harness, platform="windows", backend=backend, weight=weight, samples=0, params=params))

    for b in BACKENDS:
        for kind in ("file", "missing", "readonly", "dir"):
            case("open-" + kind, "opening", b, kind=kind)
        case("modes", "modes", b)
        case("wrap", "wrapping", b)
        case("pipe", "pipes", b)
        for mode in ("r+", "a+", "r", "w"):
            for first in OPS:
                if b != "ctypes" and first in ("readall", "nofill") or b == "ctypes-old" and (mode, first) not in (("r+", "write"), ("a+", "write"), ("r+", "read"), ("w", "truncate")):
                    continue
                case("%s-%s" % (mode, first), "history", b, 3, mode=mode, first=first, n=3 if full else 2, blocks=6 if full else 3)
    return out


OPS = ("read", "readinto", "readall", "write", "seek", "truncate", "nofill")


def start(eng, w, size=None, junk=True):
    k = w.kernel
    k.junk = junk
    size = eng.int("size", 0, 2 ** 62) if size is None else size
    base = eng.func("base")
    node = k.inode("f", size=size, base=base)
    return k, node, size, base


def crt_state(k):
    return dict(k.crt), set(k.handles)


def all_closed(eng, k, before, what=""):
    crt, handles = before
    eng.check(set(k.handles) == handles, "a handle is leaked" + what)
    eng.check(dict(k.crt) == crt, "a C descriptor is leaked" + what)
    eng.check(not k.bad_closes and not k.bad_handles, "something is closed twice, or used after it was closed" + what, repr((k.bad_closes, k.bad_handles)))


def opening(eng, w, kind):
    k = w.kernel
    node = None
    size = 0
    if kind != "missing":
        k, node, size, base = start(eng, w)
        if kind == "readonly":
            node.attrs = 1
        if kind == "dir":
            node.kind = "dir"
    before = crt_state(k)
    flag = eng.bool
    read, write, append = flag("read"), flag("write"), flag("append")
    if not (read or write or append):
        return
    create = eng.choose("create", ["open", "new", "old"])
    sync, inherit, ro = flag("synchronized"), flag("inheritable"), flag("ro_permissions")
    path = eng.choose("path", ["f", b"f"])
    kw = dict(must_create=create == "new", must_not_create=create == "old", synchronized=sync, inheritable=inherit, permissions=0o444 if ro else 0o644)
    try:
        f = w.rsfile.RSFileIO(path, read=read, write=write, append=append, **kw)
    except OSError as e:
        e.__traceback__ = None
        wr = write or append
        if kind == "missing":
            eng.check(create == "old" and e.errno == errno.ENOENT, "a missing file could not be created", repr(e.errno))
            eng.check(not k.fs, "a failed opening created something")
            eng.reach("missing")
        elif create == "new":
            eng.check(e.errno == errno.EEXIST, "wrong error for an existing file", repr(e.errno))
            eng.reach("exists")
        elif kind == "dir":
            eng.check(e.errno in (errno.EACCES, errno.EISDIR), "wrong error for a directory", repr(e.errno))
        else:
            eng.check(kind == "readonly" and wr and e.errno == errno.EACCES, "the file could not be opened", repr(e.errno))
            eng.reach("readonly")
        all_closed(eng, k, before, " by a failed opening")
        return
    eng.check(kind != "dir", "a directory was opened")
    eng.check(not (kind == "missing" and create == "old"), "a missing file was created although it had to exist")
    eng.check(not (kind != "missing" and create == "new"), "an existing file was opened although it had to be created")
    eng.check(len(k.opened) == 1, "not exactly one handle was opened")
    h, n, d, _m, created = k.opened[0]
    want = (GENERIC_READ if read else 0) | (GENERIC_WRITE if write or append else 0)
    eng.check(d["access"] == want, "wrong access rights", repr(d))
    eng.check(d["share"] == 7, "the file isn't entirely shared", repr(d))
    eng.check(bool(d["inherit"]) == inherit, "the handle is inheritable when it shouldn't, or the converse")
    eng.check(bool(d["flags"] & 0x80000000) == sync, "write-through isn't what was asked for")
    eng.check(not d["flags"] & ~0x80000081, "unexpected flags", repr(d))
    if created:
        eng.check(n.attrs == (1 if ro else 128), "wrong attributes of the new file")
        eng.reach("created")
    eng.check(eq(n.size, size), "opening changed the size of the file")
    eng.check(f.handle() == h, "wrong handle()")
    eng.check(eq(f.tell(), size if append else 0), "wrong initial position")
    eng.check(f.readable() == read and f.writable() == (write or append) and f.seekable(), "wrong capabilities")
    if flag("fileno"):
        fd = f.fileno()
        eng.check(k.crt.get(fd) == h, "fileno() is no descriptor of the handle")
        eng.check(f.fileno() == fd, "fileno() isn't constant")
    if read and kind == "file":
        x = f.read(3)
        same_data(eng, x, 0 if append else wrap(Min(3, size)), base, "read after opening")
    f.close()
    f.close()
    f = None
    all_closed(eng, k, before)
    eng.reach("opened")


def modes(eng, w):
    """mode strings, through rsopen(): erasure"""
    k, node, size, base = start(eng, w)
    before = crt_state(k)
    mode = eng.choose("mode", ["rb", "r+b", "wb", "w+b", "ab", "a+b", "xb", "RB", "RWB", "WEB", "RAB", "WNB", "WCB", "RIB"])
    locking = eng.bool("locking")
    opts = w.modules["rsfile"]
    buffering = eng.choose("buffering", [0, None])
    try:
        f = w.rsfile.rsopen("f", mode, buffering=buffering, locking=locking, timeout=0, thread_safe=False)
    except OSError as e:
        e.__traceback__ = None
        eng.check(mode in ("xb", "WCB") and e.errno == errno.EEXIST or mode == "WNB" and False, "could not open", repr((mode, e.errno)))
        eng.check(eq(node.size, size), "a failed opening changed the file")
        all_closed(eng, k, before, " by a failed opening")
        return
    eng.check(mode not in ("xb", "WCB"), "an existing file was opened although it had to be created")
    eng.check(bool(k.handles[f.handle()].inherit) == ("I" in mode), "wrong inheritability")
    erased = "w" in mode or "E" in mode
    eng.check(eq(node.size, 0 if erased else size), "wrong size after opening")
    if locking:
        eng.check(len(node.locks) == 1, "the file isn't locked")
        _o, kind, s, e = node.locks[0]
        eng.check(And(eq(s, 0), ge(e, 2 ** 63)), "the file isn't entirely locked")
        eng.check(kind == (1 if mode in ("rb", "RB", "RIB") else 2), "wrong kind of lock")
    else:
        eng.check(not node.locks, "the file is locked")
    if mode in ("wb", "w+b", "ab", "a+b", "r+b"):
        f.write(b"xyz")
    f.close()
    eng.check(not node.locks, "the file is still locked")
    if mode in ("wb", "w+b"):
        eng.check(eq(node.size, 3), "wrong size after writing")
    if mode in ("ab", "a+b"):
        eng.check(eq(node.size, add(size, 3)), "wrong size after appending")
        eng.check(eq(node.content.get(add(size, 1)), 121), "wrong bytes appended")
    if mode == "r+b":
        eng.check(eq(node.size, Max(3, size)), "wrong size after writing")
    f = None
    all_closed(eng, k, before)


def history(eng, w, mode, first, n, blocks):
    k, node, size, base = start(eng, w)
    append = mode.startswith("a")
    kw = {"r+": dict(read=True, write=True), "a+": dict(read=True, append=True), "r": dict(read=True), "w": dict(write=True)}[mode]
    before = crt_state(k)
    f = w.rsfile.RSFileIO("f", **kw)
    ref = RefFile(base, size, append)
    h = f.handle()
    p = eng.int("pos", 0, 2 ** 62)
    eng.check(eq(f.seek(p), p), "seek() doesn't return the position")
    ref.seek(p)
    known = True
    for j in range(n):
        op = first if j == 0 else eng.choose("op%d" % j, [o for o in OPS[1:] if o != "readall"])
        if op in ("read", "readinto"):
            m = eng.int("n%d" % j, 0, 2 ** 33)
            if op == "readinto":
                eng.assume(le(m, 40))
            if "r" not in mode and "+" not in mode:
                try:
                    f.read(m)
                except OSError as e:
                    e.__traceback__ = None
                else:
                    eng.fail("read() on a write-only stream")
                continue
            if op == "read":
                x = f.read(m)
                got = sym_len(x)
            else:
                was = eng.data("buf%d" % j, m)
                buf = SymBuf(bytearray(was) if type(was) is bytes else was)
                got = f.readinto(buf)
                x = buf.tobytes()
            eng.check(Implies(And(gt(m, 0), gt(ref.avail(), 0)), gt(got, 0)), op + "() reports the end of the file before it is reached")
            eng.check(le(got, Min(m, ref.avail())), op + "() reads too many bytes")
            eng.check(Or(eq(got, Min(m, ref.avail())), ge(m, 2 ** 32)), op + "() reads too few bytes")
            ln, fn = ref.read(got)
            if op == "read":
                same_data(eng, x, got, fn, "read()")
            else:
                y = eng.int("y%d" % j, 0)
                eng.check(eq(sym_len(x), m), "readinto() changed the size of the buffer")
                eng.check(Implies(lt(y, got), eq(SymBytes.of(x).fn(y), fn(y))), "readinto(): wrong bytes")
                eng.check(Implies(And(ge(y, got), lt(y, m)), eq(SymBytes.of(x).fn(y), SymBytes.of(was).fn(y))), "readinto(): bytes modified after those read")
            eng.reach("read" if eng.truth(gt(got, 0)) else "eof")
        elif op == "readall":
            eng.assume(le(ref.avail(), 2 * 8192 + 100))
            if "r" not in mode and "+" not in mode:
                return
            x = f.read()
            ln, fn = ref.read()
            same_data(eng, x, ln, fn, "readall()")
        elif op == "write":
            m = eng.int("n%d" % j, 0, 2 ** 33)
            eng.assume(lt(add(ref.size if append else ref.pos, m), 2 ** 63))
            data = SymBytes(m, eng.func("data%d" % j))
            if mode == "r":
                try:
                    f.write(data)
                except OSError as e:
                    e.__traceback__ = None
                else:
                    eng.fail("write() on a read-only stream")
                continue
            if eng.truth(gt(ref.pos, ref.size)):
                eng.reach("gap")
            if j == 0 and eng.bool("bytearray"):
                r = f.write(SymBuf(data) if eng.concrete is None else bytearray(bytes(data.fn(i) for i in range(m))))
            else:
                r = f.write(data)
            if r is None:
                eng.check(eq(m, 0), "write() pretends that it would block")
                r = 0
            eng.check(le(r, m), "write() returns too much")
            eng.check(Or(eq(r, m), ge(m, 2 ** 32)), "write() returns too little")
            eng.check(Implies(gt(m, 0), gt(r, 0)), "write() wrote nothing")
            if eng.truth(eq(r, 0)):
                # an empty write may move the position to the end when appending
                if append:
                    ref.seek(0, 2)
            else:
                ref.write(data[:r])
                eng.reach("appended" if append else "wrote")
        elif op == "seek":
            wh = eng.choose("whence%d" % j, [0, 1, 2])
            off = eng.int("off%d" % j, -(2 ** 62), 2 ** 62)
            want = wrap(add((0, ref.pos, ref.size)[wh], off))
            eng.assume(lt(want, 2 ** 63))
            try:
                r = f.seek(off, wh)
            except OSError as e:
                e.__traceback__ = None
                eng.check(And(lt(want, 0), e.errno == errno.EINVAL), "seek() to a valid position failed")
                eng.reach("bad-seek")
            else:
                eng.check(ge(want, 0), "seek() to a negative position succeeded")
                eng.check(eq(r, want), "seek() returns a wrong position")
                ref.seek(off, wh)
                eng.reach("seeked")
        elif op in ("truncate", "nofill"):
            here = eng.bool("here%d" % j)
            t = ref.pos if here else eng.int("t%d" % j, 0, 2 ** 62)
            if mode == "r":
                try:
                    f.truncate(t)
                except OSError as e:
                    e.__traceback__ = None
                else:
                    eng.fail("truncate() on a read-only stream")
                continue
            if op == "truncate":
                eng.assume(lt(t, add(ref.size, 8192 * (blocks + 1))))
            kw = {} if op == "truncate" else dict(zero_fill=False)
            r = f.truncate(**kw) if here else f.truncate(t, **kw)
            eng.check(eq(r, t), "truncate() doesn't return the new size")
            if eng.truth(lt(t, ref.size)):
                eng.reach("reduced")
            elif eng.truth(gt(t, ref.size)):
                eng.reach("extended" if op == "truncate" else "extended-nofill")
                if op == "nofill":
                    known = False
            old = ref.size
            ref.truncate(t)
            if op == "nofill":
                # the bytes added are unspecified
                snap = node.content.snapshot()
                ref.content.patch(Min(old, t), t, lambda i, old=old: snap.get(add(i, Min(old, t))))
        eng.check(eq(f.tell(), ref.pos), "wrong position after " + op)
        eng.check(eq(f.size(), ref.size), "wrong size after " + op)
        same_file(eng, node, ref, "after " + op, "x%d" % j)
    eng.check(f.handle() == h, "the handle changed")
    f.close()
    f = None
    all_closed(eng, k, before)


def wrapping(eng, w):
    """streams over an existing handle or descriptor"""
    k, node, size, base = start(eng, w)
    what = eng.choose("what", ["handle", "fileno"])
    acc = eng.choose("access", ["r", "w", "r+", "a"])
    kw = {"r": dict(read=True), "w": dict(write=True), "r+": dict(read=True, write=True), "a": dict(append=True)}[acc]
    closefd = eng.bool("closefd")
    if what == "handle":
        ident = h = k.wopen(node)
        fd = None
    else:
        n = eng.choose("number", [0, 2, 3, 7])
        if n in k.crt:
            del k.crt[n]
        ident = fd = k.install(node, fd=n)
        h = k.crt[fd]
    before = crt_state(k)
    p0 = eng.int("pos", 0, 2 ** 62)
    k.handles[h].pos = p0
    f = w.rsfile.RSFileIO(closefd=closefd, **{what: ident}, **kw)
    eng.check(f.handle() == h, "handle() isn't the wrapped one")
    pos = size if acc == "a" else p0
    eng.check(eq(f.tell(), pos), "wrapping moved the position")
    if eng.bool("fileno"):
        d = f.fileno()
        eng.check(fd is None and k.crt.get(d) == h or d == fd, "fileno() isn't the wrapped descriptor")
    if acc in ("r", "r+"):
        m = eng.int("n", 0, 10)
        x = f.read(m)
        same_data(eng, x, wrap(Min(m, Max(0, sub(size, p0)))), lambda i: base(add(p0, i)), "read")
    else:
        eng.assume(le(p0, size))
        r = f.write(b"abc")
        eng.check(eq(r, 3), "short write")
        eng.check(eq(node.content.get(add(pos, 1)), 98), "written at a wrong place")
    f.close()
    eng.reach("wrapped")
    if closefd:
        eng.check(h not in k.handles, "the wrapped handle isn't closed")
        eng.check(fd is None or fd not in k.crt, "the wrapped descriptor isn't closed")
        eng.check(all(x != h for x in k.crt.values()), "a C descriptor of the closed handle is leaked")
    else:
        eng.reach("kept")
        eng.check(h in k.handles, "the wrapped handle is closed although closefd is false")
        eng.check(fd is None or k.crt.get(fd) == h, "the wrapped descriptor is closed although closefd is false")
        eng.check(fd is None or dict(k.crt) == before[0], "a C descriptor is leaked")
    eng.check(not k.bad_closes and not k.bad_handles, "something is closed twice")
    f = None


def pipes(eng, w):
    k = w.kernel
    avail = eng.int("avail", 0, 100)
    base = eng.func("base")
    node = k.inode("p", size=avail, base=base)
    node.kind = "fifo"
    node.eof = eng.bool("closed")
    k.eagain = node.nonblocking = eng.bool("nonblocking")
    k.pipe_budget = 1
    rd = eng.bool("reader")
    what = eng.choose("what", ["handle", "fileno"])
    if what == "fileno":
        ident = k.install(node)
        h = k.crt[ident]
    else:
        ident = h = k.wopen(node)
    f = w.rsfile.RSFileIO(read=rd, write=not rd, **{what: ident})
    n = eng.int("n", 0, 20)
    if rd:
        if not node.eof and not k.eagain:
            eng.assume(gt(avail, 0))
        x = f.read(n)
        if x is None:
            eng.check(k.eagain, "a blocking read would block")
            eng.reach("pipe-none")
        else:
            got = sym_len(x)
            eng.check(le(got, Min(n, avail)), "too many bytes read")
            eng.check(Implies(And(gt(n, 0), gt(avail, 0)), gt(got, 0)), "a pipe with data looks closed")
            same_data(eng, x, got, base, "read from a pipe")
            if eng.truth(eq(got, 0)):
                eng.reach("pipe-eof")
    else:
        data = SymBytes(n, eng.func("data"))
        try:
            r = f.write(data)
        except OSError as e:
            e.__traceback__ = None
            eng.check(node.eof and e.errno in (errno.EPIPE, errno.EINVAL), "wrong error when writing to a pipe")
            f.close()
            return
        eng.check(not node.eof, "writing to a closed pipe succeeded")
        out = getattr(node, "out", [])
        if r is None:
            eng.check(Or(eq(n, 0), k.eagain), "a blocking write would block")
            eng.check(all(eq(c, 0) is True or not eng.truth(gt(c, 0)) for c, _d in out), "write() returned None but wrote")
            eng.reach("pipe-full")
        else:
            if eng.truth(eq(r, 0)):
                eng.check(eq(n, 0), "write() wrote nothing")
            else:
                eng.check(len(out) == 1 and eng.truth(eq(out[0][0], r)), "write() returns a wrong number")
                same_data(eng, out[0][1], r, data.fn, "written to a pipe")
    f.close()
    eng.check(h not in k.handles, "the pipe isn't closed")
    eng.check(all(x != h for x in k.crt.values()), "a C descriptor is leaked")
    eng.check(not k.bad_closes and not k.bad_handles, "something is closed twice")
    f = None

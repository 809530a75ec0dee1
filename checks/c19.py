"""C19 - the Windows backend passes exact 64-bit numbers to the system, and reports its errors."""
import errno

from symx.engine import And, If, Implies, Max, Min, Not, Or, SymBuf, SymBytes, add, eq, ge, gt, is_sym, le, lt, ne, sub, sym_len, wrap
from symx.nt import errno_of, symbolic_tables, timestamp

PROPERTY = "C19"
ENCODED = [
    "rsfileio_windows.RSFileIO (every method)", "rsbackend/_utilities.py", "rsbackend/windows_ctypes.py", "rsbackend/raw_win32_ctypes.py",
    "rsbackend/windows_pywin32.py", "RSFileIOAbstract.lock_file/unlock_file/seek/tell/size/truncate/times/unique_id/close", "IntraProcessLockRegistry",
]
BOUNDS = {
    "quick": "both native backends; one or two locks of any offset and length (63 bits, or unbounded) relative to the start, to any position or to any end, "
             "against any range locked by another process; every position, size, volume number (32 bits), file identifier (64 bits) and FILETIME (57 bits); "
             "each native call of each operation failing with any code from 1 to 2^31-1",
    "thorough": "the same, with three locks",
}
OUTSIDE = "rounding of floating-point timestamps (real numbers here, compared up to 4 us around 1970 and 40 us later); times before 1970 and after 2057; file identifiers of 128 bits (ReFS); real Windows (the model of kernel32, msvcrt " \
          "and pywin32 follows their documentation)"
REQUIRED = ["locked", "unbounded", "high-offset", "high-length", "conflict", "released-unlock", "released-with", "released-close", "wrong-unlock", "second", "refused",
            "seek", "high-size", "ids", "no-id", "times", "blocked in the system", "fault", "fault-none", "fault-eof", "fault-lock", "fault-close"]
BACKENDS = ("ctypes", "pywin32")
TOP = 2 ** 63


def cases(tier):
    out = []

    def case(name, harness, backend, weight=1, **params):
        out.append(dict(name="%s-%s" % (name, backend), harness=harness, platform="windows", backend=backend, weight=weight, samples=0, params=params))

    for b in BACKENDS:
        for whence in (0, 1, 2):
            case("lock-%d" % whence, "locking", b, 3, whence=whence)
        case("conflict", "conflict", b, 3)
        case("blocking", "blocking", b)
        for wrong in (False, True):
            for fifo in (False, True):
                case("sequence-%d%d" % (wrong, fifo), "sequence", b, 9 if wrong and b == "pywin32" else 5, n=2 if tier == "quick" or b == "pywin32" else 3, wrong=wrong, fifo=fifo)
        case("two-streams", "two_streams", b)
        case("numbers", "numbers", b)
        case("ident", "ident", b)
        case("times", "times", b)
        for op in OPS:
            case("fault-" + op, "failing", b, op=op)
    return out


def start(eng, w, size=None, mode=None):
    k = w.kernel
    size = eng.int("size", 0, TOP - 1) if size is None else size
    node = k.inode("f", size=size, base=eng.func("base"))
    f = w.rsfile.RSFileIO("f", **(mode or dict(read=True, write=True)))
    return k, node, f


def span(eng, tag):
    """length and offset of a lock: the arguments, and the bytes meant"""
    unb = eng.choose("unbounded" + tag, ["no", None, 0])
    if unb == "no":
        return eng.int("length" + tag, 1, TOP - 1)
    return unb


def ours(k, node, f):
    o = k.handles[f.handle()]
    return [l for l in node.locks if l[0] is o]


def check_lock(eng, locks, start, length, shared, what="the lock"):
    eng.check(len(locks) == 1, what + ": not exactly one range is locked", repr(len(locks)))
    _o, kind, s, e = locks[0]
    eng.check(eq(s, start), what + " doesn't start where it should")
    if not is_sym(length) and not length:
        eng.check(ge(e, TOP), what + " doesn't extend to the end of all files")
        eng.reach("unbounded")
    else:
        eng.check(eq(e, add(start, length)), what + " doesn't end where it should")
        if eng.truth(ge(length, 2 ** 32)):
            eng.reach("high-length")
    eng.check(kind == (1 if shared else 2), what + " isn't of the kind asked for")
    if eng.truth(ge(start, 2 ** 32)):
        eng.reach("high-offset")


def locking(eng, w, whence):
    k, node, f = start(eng, w)
    pos = eng.int("pos", 0, TOP - 1)
    f.seek(pos)
    length = span(eng, "")
    give = eng.bool("offset_given")
    off = eng.int("offset", -TOP, TOP - 1) if give else None
    base = (0, pos, node.size)[whence]
    at = wrap(add(base, off if give else 0))
    eng.assume(lt(at, TOP))
    shared, timeout = eng.choose("how", [(None, None), (True, 0), (False, 2.5)])
    try:
        ctx = f.lock_file(timeout=timeout, length=length, offset=off, whence=whence, shared=shared)
    except OSError as e:
        e.__traceback__ = None
        eng.check(And(lt(at, 0), e.errno == errno.EINVAL), "a free range could not be locked", repr(e))
        eng.check(not node.locks, "a refused lock is held")
        eng.reach("refused")
        return
    eng.check(ge(at, 0), "a range which starts before the file was locked")
    mine = ours(k, node, f)
    check_lock(eng, mine, at, length, bool(shared))
    flags = [a[1] for n, a, _r in k.log if n == "LockFileEx"]
    eng.check(all(bool(x & 1) == (timeout is not None) for x in flags), "locking blocks when it shouldn't, or the converse", repr(flags))
    eng.check(eq(f.tell(), pos), "locking moved the position")
    eng.reach("locked")
    way = eng.choose("release", ["unlock", "with", "close", "whence"])
    if way == "unlock":
        f.unlock_file(length=length, offset=at)
        eng.reach("released-unlock")
    elif way == "whence":
        w2 = eng.choose("whence2", [1, 2])
        d = wrap(sub(at, (0, pos, node.size)[w2]))
        eng.assume(ge(d, 0))
        f.unlock_file(length=length, offset=d, whence=w2)
    elif way == "with":
        with ctx:
            p2 = eng.int("pos2", 0, TOP - 1)
            f.seek(p2)
        eng.reach("released-with")
    else:
        f.close()
        eng.reach("released-close")
    eng.check(not node.locks, "the lock is still held")


def conflict(eng, w):
    """any range is locked by another process"""
    k, node, f = start(eng, w, size=0)
    s = eng.int("s", 0, TOP - 1)
    n = eng.int("n", 1, TOP - 1)
    kind = eng.choose("kind", [1, 2])
    other = [None, kind, s, wrap(add(s, n))]
    node.locks.append(other)
    length = span(eng, "")
    off = eng.int("offset", 0, TOP - 1)
    shared = eng.bool("shared")
    end = If(TOP == 0, 0, add(off, length)) if is_sym(length) or length else 2 ** 64 - 1
    overlap = And(lt(off, other[3]), lt(s, end))
    compatible = kind == 1 and shared
    try:
        f.lock_file(timeout=0, length=length, offset=off, shared=shared)
    except w.rsfile.LockingException as e:
        e.__traceback__ = None
        eng.check(And(overlap, not compatible), "a free range could not be locked")
        eng.check(isinstance(e, OSError) and e.errno == errno.EACCES, "wrong error", repr(e.errno))
        eng.check(len(node.locks) == 1, "a refused lock is held")
        eng.reach("conflict")
    else:
        eng.check(Not(And(overlap, not compatible)), "a range locked by another process was locked")
        check_lock(eng, ours(k, node, f), off, length, shared)
        f.unlock_file(length=length, offset=off)
    eng.check(len(node.locks) == 1 and node.locks[0] is other, "the lock of another process was touched")
    f.close()


def blocking(eng, w):
    """without timeout, the system does the waiting"""
    k, node, f = start(eng, w, size=0)
    node.locks.append([None, 2, 10, 20])
    off = eng.int("offset", 0, TOP - 1)
    f.lock_file(length=5, offset=off)  # ends here when blocked
    eng.check(Or(le(add(off, 5), 10), ge(off, 20)), "a range locked by another process was locked")


def sequence(eng, w, n, wrong, fifo):
    """several locks of the same stream, which don't overlap; a wrong unlock changes nothing"""
    k, node, f = start(eng, w, size=0)
    held = []
    for j in range(n):
        length = span(eng, str(j)) if j == n - 1 else eng.int("length%d" % j, 1, TOP - 1)
        off = eng.int("offset%d" % j, 0, TOP - 1)
        end = add(off, length) if is_sym(length) or length else 2 ** 64
        for o2, l2, _s in held:
            eng.assume(Or(le(end, o2), le(add(o2, l2), off)))
        shared = eng.bool("shared%d" % j)
        f.lock_file(timeout=0, length=length, offset=off, shared=shared)
        held.append((off, length, shared))
        eng.check(len(node.locks) == len(held), "wrong number of locks")
        check_lock(eng, node.locks[-1:], off, length, shared)
        if j:
            eng.reach("second")
    if wrong:
        bad_off, bad_len = eng.int("bad_offset", 0, TOP - 1), eng.int("bad_length", 1, TOP - 1)
        for o2, l2, _s in held:
            eng.assume(Or(ne(bad_off, o2), ne(bad_len, l2) if is_sym(l2) or l2 else True))
        try:
            f.unlock_file(length=bad_len, offset=bad_off)
        except (OSError, RuntimeError) as e:
            e.__traceback__ = None
            eng.reach("wrong-unlock")
        else:
            eng.fail("a range which isn't locked was unlocked")
        eng.check(len(node.locks) == len(held), "unlocking another range released a lock")
    order = held if fifo else held[::-1]
    for i, (o2, l2, _s) in enumerate(order):
        f.unlock_file(length=l2, offset=o2)
        left = order[i + 1:]
        eng.check(len(node.locks) == len(left), "unlocking released something else, or nothing")
        for o3, l3, s3 in left:
            eng.check(Or(*[And(eq(l[2], o3), ge(l[3], TOP) if not is_sym(l3) and not l3 else eq(l[3], add(o3, l3))) for l in node.locks]), "a wrong lock was released")
    f.close()


def two_streams(eng, w):
    """locks belong to handles: another stream on the file neither steals nor releases them"""
    k, node, f = start(eng, w, size=0)
    length, off = eng.int("length", 1, TOP - 1), eng.int("offset", 0, TOP - 1)
    shared = eng.bool("shared")
    f.lock_file(timeout=0, length=length, offset=off, shared=shared)
    g = w.rsfile.RSFileIO("f", read=True, write=True)
    l2, o2, s2 = eng.int("length2", 1, TOP - 1), eng.int("offset2", 0, TOP - 1), eng.bool("shared2")
    overlap = And(lt(off, add(o2, l2)), lt(o2, add(off, length)))
    free = Or(Not(overlap), shared and s2)
    try:
        g.lock_file(timeout=0, length=l2, offset=o2, shared=s2)
    except w.rsfile.LockingException as e:
        e.__traceback__ = None
        eng.check(Not(free), "a free range could not be locked")
    else:
        eng.check(free, "a range locked by another stream was locked")
        check_lock(eng, ours(k, node, g), o2, l2, s2)
        if eng.bool("unlock"):
            g.unlock_file(length=l2, offset=o2)
            eng.check(not ours(k, node, g), "the lock is still held")
    g.close()
    check_lock(eng, node.locks, off, length, shared, "the lock of the other stream")
    f.close()
    eng.check(not node.locks, "the lock is still held")


def numbers(eng, w):
    """positions and sizes: 64 bits, both ways"""
    k, node, f = start(eng, w)
    o = k.handles[f.handle()]
    if eng.truth(ge(node.size, 2 ** 32)):
        eng.reach("high-size")
    eng.check(eq(f.size(), node.size), "wrong size()")
    p = eng.int("pos", 0, TOP - 1)
    eng.check(eq(f.seek(p), p), "wrong result of seek()")
    eng.check(eq(o.pos, p), "seek() doesn't go where it should")
    eng.check(eq(f.tell(), p), "wrong tell()")
    wh = eng.choose("whence", [0, 1, 2])
    off = eng.int("off", -TOP, TOP - 1)
    want = wrap(add((0, p, node.size)[wh], off))
    eng.assume(And(ge(want, 0), lt(want, TOP)))
    eng.check(eq(f.seek(off, wh), want), "wrong result of seek()")
    eng.check(eq(o.pos, want), "seek() doesn't go where it should")
    eng.reach("seek")
    t = eng.int("t", 0, TOP - 1)
    old = node.size
    r = f.truncate(t, zero_fill=False)
    eng.check(eq(r, t), "wrong result of truncate()")
    eng.check(eq(node.size, t), "truncate() sets a wrong size")
    eng.check(eq(o.pos, want), "truncate() moved the position")
    eng.check(eq(f.size(), t), "wrong size() after truncate()")
    f.close()


def ident(eng, w):
    k, node, f = start(eng, w, size=0)
    v, i = eng.int("volume", 0, 2 ** 32 - 1), eng.int("file_id", 0, 2 ** 64 - 1)
    node.volume, node.file_id = v, i
    before = dict(k.crt)
    try:
        u = f.unique_id()
    except OSError as e:
        e.__traceback__ = None
        eng.check(Or(eq(v, 0), eq(i, 0)), "no identifier although the file has one", repr(e))
        eng.reach("no-id")
    else:
        eng.check(And(ne(v, 0), ne(i, 0)), "an identifier without volume or file number")
        eng.check(len(u) == 2 and And(eq(u[0], v), eq(u[1], i)), "wrong identifier")
        # what the portable layer promises: two files have the same identifier only if they are the same one
        g = w.rsfile.RSFileIO("g", read=True, write=True)
        n2 = k.fs[b"g"]
        n2.volume, n2.file_id = eng.int("volume2", 1, 2 ** 32 - 1), eng.int("file_id2", 1, 2 ** 64 - 1)
        u2 = g.unique_id()
        same = And(eq(u[0], u2[0]), eq(u[1], u2[1]))
        eng.check(Or(And(same, eq(v, n2.volume), eq(i, n2.file_id)), And(Not(same), Or(ne(v, n2.volume), ne(i, n2.file_id)))), "identifiers are ambiguous")
        g.close()
        eng.reach("ids")
    eng.check({fd: h for fd, h in k.crt.items() if h == f.handle()} == {fd: h for fd, h in before.items() if h == f.handle()}, "a C descriptor is leaked")
    f.close()
    eng.check(not k.bad_closes and not k.bad_handles and not k.handles, "handles are leaked or closed twice")


def near(a, b, eps):
    """up to the rounding of floating-point numbers (which are real numbers here)"""
    return And(le(a - b, eps), le(b - a, eps))


def times(eng, w):
    k, node, f = start(eng, w, size=0, mode=eng.choose("mode", [dict(read=True), dict(read=True, write=True)]))
    ts = [eng.int(n, 0, 2 ** 63 - 1) for n in ("creation", "access", "modification")]
    # around 1970, floating-point numbers are more precise than later
    top, eps = eng.choose("range", [(2 ** 45, 4e-6), (2 ** 57, 4e-5)])
    eng.assume(And(*[And(ge(t, 116444736000000000), le(t, 116444736000000000 + top)) for t in ts]))
    node.ftimes = ts
    crt = dict(k.crt)
    r = f.times()
    eng.check(near(r.access_time, timestamp(ts[1]), eps), "wrong access time")
    eng.check(near(r.modification_time, timestamp(ts[2]), eps), "wrong modification time")
    eng.check(dict(k.crt) == crt, "a C descriptor is leaked")
    eng.reach("times")
    f.close()
    eng.check(not k.bad_closes and not k.bad_handles and not k.handles, "handles are leaked or closed twice")


# ------------------------------------------------------------------ errors of the system

OPS = ("open", "open-new", "read", "readinto", "readall", "write", "append", "seek", "tell", "size", "reduce", "extend", "nofill", "sync", "lock", "lock-wait", "unlock",
       "unique_id", "times", "close", "close-fd", "fileno")


def given(k):
    """number of bytes delivered by the reads which succeeded"""
    total = 0
    for n, a, r in k.log:
        if n == "ReadFile" and r[0] == "ok":
            total = add(total, a[3].value)
    return wrap(total)


def failing(eng, w, op):
    symbolic_tables(w)
    k = w.kernel
    node = None if op == "open-new" else k.inode("f", size=1000, base=eng.func("base"))
    code = eng.int("code", 1, 2 ** 31 - 1)
    # neither errors nor possible here: data pending, or more of them (of a message), on a file
    if op in ("read", "readinto", "readall"):
        eng.assume(ne(code, 234))
    if op in ("read", "readinto", "readall", "write", "append", "extend"):
        eng.assume(ne(code, 997))
    mode = dict(append=True, read=True) if op == "append" else dict(read=True) if op == "close" else dict(read=True, write=True)

    def arm():
        k.win_faults, k.win_code, k.fault_budget = {"*"}, code, 1

    f = None
    res = err = None
    if op not in ("open", "open-new"):
        f = w.rsfile.RSFileIO("f", **mode)
        h = f.handle()
        f.seek(10)
        if op == "unlock":
            f.lock_file(timeout=0, length=7, offset=3)
        if op == "close-fd":
            f.fileno()
    handles, crt = set(k.handles), dict(k.crt)
    arm()
    try:
        if op in ("open", "open-new"):
            f = w.rsfile.RSFileIO("f", **mode)
        elif op == "read":
            res = f.read(100)
        elif op == "readinto":
            res = f.readinto(SymBuf(SymBytes(100, lambda i: 0)) if eng.concrete is None else bytearray(100))
        elif op == "readall":
            res = f.readall()
        elif op in ("write", "append"):
            res = f.write(b"hello")
        elif op == "seek":
            res = f.seek(5, eng.choose("whence", [0, 1, 2]))
        elif op in ("tell", "size", "times", "unique_id", "fileno"):
            res = getattr(f, op)()
        elif op == "reduce":
            res = f.truncate(500)
        elif op == "extend":
            res = f.truncate(1000 + 9000)
        elif op == "nofill":
            res = f.truncate(2000, zero_fill=False)
        elif op == "sync":
            res = f.sync(full_flush=eng.bool("full"), metadata=eng.bool("metadata"))
        elif op == "lock":
            res = f.lock_file(timeout=0, length=7, offset=3)
        elif op == "lock-wait":
            res = f.lock_file(length=7, offset=3)
        elif op == "unlock":
            res = f.unlock_file(length=7, offset=3)
        elif op in ("close", "close-fd"):
            res = f.close()
    except OSError as e:
        e.__traceback__ = None
        err = e
    hit = [x[0] for x in k.faults]
    k.win_faults, k.fault_budget = None, 0
    if not hit:
        eng.check(err is None, "an operation failed without any error of the system", repr(err))
    else:
        eng.reach("fault")
        want = errno_of(code)
        if hit == ["LockFileEx"] and op == "lock-wait":
            eng.check(err is None, "waiting for a lock failed")
        elif hit == ["ReadFile"] and err is None and eng.truth(eq(code, 232)):
            eng.check(res is None or op == "readall" and given(k), "no data yet, but the result isn't None", repr(res)[:50])
            eng.reach("fault-none")
        elif hit == ["ReadFile"] and err is None and eng.truth(eq(want, errno.EPIPE)):
            eng.check(eq(res, 0) if op == "readinto" else eq(sym_len(res), given(k)), "a broken pipe isn't the end of the file")
            eng.reach("fault-eof")
        elif hit == ["get_blocking"]:
            eng.check(err is None, "looking for a pipe failed")  # done for any kind of file
        else:
            eng.check(err is not None, "an error of the system was swallowed", repr((hit, res)))
            if hit[0][0].isupper():
                eng.check(eq(err.errno, want), "the error has a wrong errno", repr((hit, err.errno)))
            if op == "lock":
                eng.check(isinstance(err, w.rsfile.LockingException), "not a LockingException", repr(err))
                eng.reach("fault-lock")
            if op == "close":
                eng.reach("fault-close")
    if op in ("open", "open-new") and err is not None:
        eng.check(set(k.handles) == handles and dict(k.crt) == crt, "a failed opening leaks a handle")
    if f is not None and not f.closed:
        if op not in ("open", "open-new"):
            eng.check(f.handle() == h and h in k.handles, "the stream lost its handle")
        if op == "lock" and err is not None:
            eng.check(not node.locks, "a failed lock is held")
        if op == "lock-wait":
            check_lock(eng, node.locks, 3, 7, False)
        f.close()
    else:
        if f is not None:
            f.close()
    f = None
    eng.check(not k.handles, "a handle is leaked")
    eng.check({fd for fd in k.crt if fd > 2} == set(), "a C descriptor is leaked")
    eng.check(not k.bad_closes and not k.bad_handles, "something is closed twice, or used after it was closed", repr((k.bad_closes, k.bad_handles)))

"""C05 - close() always completes: once, releasing everything, even when parts fail."""
import errno

from symx.engine import And, If, Implies, Not, Or, add, eq, ge, le, lt, ne, wrap
from symx.posix import INF

PROPERTY = "C05"
ENCODED = [
    "RSFileIOAbstract.close/lock_file/unlock_file", "rsfileio_unix.RSFileIO._inner_close_streams/_inner_file_unlock/"
    "_purge_pending_related_file_descriptors", "IntraProcessLockRegistryClass.*", "RSBuffered*/RSTextIOWrapper/RSThreadSafeWrapper close paths "
    "(_pyio close/flush)",
]
BOUNDS = {
    "quick": "12 stream stacks (raw/buffered/text/thread-safe, all access modes) x pending buffered data x 0..2 locks with symbolic disjoint or "
             "shared ranges up to 2^61 x another stream of the process with a shared lock on a symbolic range, or none x two other closings deferred or not x close(), 'with' or "
             "deletion x at most one failing system call (symbolic errno) anywhere during close; witness byte over the whole file; one-way stacks on a fifo",
    "thorough": "3 locks, two failing system calls",
}
OUTSIDE = "asynchronous exceptions (signals) inside close(), exceptions raised by the mutex of the user"
REQUIRED = ["ok", "fault", "locked", "deferred", "dirty"]

STACKS = [
    ("RWB", dict(buffering=0)), ("RB", dict(buffering=0)), ("WB", dict(buffering=0)), ("AB", dict(buffering=0)),
    ("RWB", dict(buffering=8)), ("RB", dict(buffering=8)), ("WB", dict(buffering=8)), ("RAB", dict(buffering=8)),
    ("RW", {}), ("R", {}), ("W", {}), ("A", {}),
]
TOP = 2 ** 61


def cases(tier):
    out = []
    for n, (m, kw) in enumerate(STACKS):
        for nl in range(3 if tier == "quick" else 4):
            out.append(dict(name="close-%s-%d-%d" % (m, n, nl), samples=1, weight=1 + nl,
                            params=dict(mode=m, kw=kw, nlocks=nl, faults=1 if tier == "quick" else 2)))
    for n, (m, kw) in enumerate(STACKS):
        if "R" not in m or "W" not in m and "A" not in m:
            out.append(dict(name="fifo-%s-%d" % (m, n), samples=1, params=dict(mode=m, kw=kw, nlocks=0, faults=1, kind="fifo")))
    return out


def harness(eng, w, mode, kw, nlocks, faults, kind="reg"):
    k = w.kernel
    k.symbolic_data = False
    if kind != "reg":
        k.pipe_budget = 1 if mode == "WB" else 0
    node = k.inode("f", kind=kind)
    node.set_bytes(b"0123456789abcdef")
    other = None
    rd, wr = "R" in mode, "W" in mode or "A" in mode
    text = "B" not in mode
    ts = eng.bool("thread_safe")
    f = w.rsfile.rsopen("f", mode, locking=False, thread_safe=ts, **kw)
    fd = f.fileno()
    ofd = k.table()[fd]
    ranges = []
    shared = [not wr or rd and eng.bool("shared%d" % j) for j in range(nlocks)]
    last = 0
    for j in range(nlocks):
        start = eng.int("start%d" % j, 0, TOP)
        eng.assume(ge(start, last))
        length = eng.int("len%d" % j, 1, TOP) if j < nlocks - 1 else eng.int("len%d" % j, 0, TOP)
        f.lock_file(timeout=0, length=length, offset=start, shared=shared[j])
        end = wrap(If(eq(length, 0), INF, add(start, length)))
        ranges.append((start, end))
        last = end
    if nlocks and all(shared) and eng.bool("other"):
        # another stream of the process, with an overlapping (shared) or independent lock on the same file
        other = w.rsfile.rsopen("f", "RB", buffering=0, locking=False, thread_safe=False)
        o0 = eng.int("o0", 0, TOP)
        ol = eng.int("ol", 0, TOP)
        other.lock_file(timeout=0, length=ol, offset=o0, shared=True)
        o1 = wrap(If(eq(ol, 0), INF, add(o0, ol)))
    pending = None
    if nlocks == 1 and other is None and eng.bool("pending"):
        # the closing of previous streams is deferred until the locks of this one are released
        prev = [w.rsfile.rsopen("f", "RB", buffering=0, locking=False, thread_safe=False) for _ in range(2)]
        pending = [k.table()[g.fileno()] for g in prev]
        for g in prev:
            g.close()
        prev = g = None
    if ranges:
        eng.reach("locked")
    dirty = False
    if eng.bool("io"):
        if wr:
            f.write("pending" if text else b"pending")
            dirty = kw.get("buffering") != 0
            if dirty:
                eng.reach("dirty")
        else:
            f.read(3)
    k.fault_budget = faults
    k.fault_errnos = ("sym",)
    how = eng.choose("how", ["close", "with", "exc"])
    n0 = len(k.log)
    err = None
    body = KeyError("body")
    try:
        if how == "close":
            f.close()
        else:
            with f:
                if how == "exc":
                    raise body
    except OSError as e:
        e.__traceback__ = None
        err = e
    except KeyError as e:
        e.__traceback__ = None
        eng.check(how == "exc" and e is body, "unexpected KeyError")
    k.fault_budget = 0
    faulty = len(k.faults)
    eng.reach("fault" if faulty else "ok")
    if faulty:
        eng.check(err is not None, "an error of the system during close() was swallowed", repr(k.faults))
        eng.check(Or(*[eq(err.errno, x[2]) for x in k.faults]), "another error was reported")
    else:
        eng.check(err is None, "close() raised without any failure", str(err))
        if dirty:
            eng.check(b"pending" in (node.get_bytes() if kind == "reg" else b"".join(bytes(x[1]) for x in node.out)),
                      "close() lost buffered data")
    b = eng.int("byte", 0, INF - 1)
    closed = f.closed
    eng.check(closed is True, "close() did not mark the stream as closed")
    # descriptor and locks
    gone = sum(1 for c in k.closed if c[2] is ofd)
    eng.check(gone <= 1, "the descriptor was closed twice")
    # a kernel lock only remains when its very release failed, and not once the descriptor is closed
    stuck = False
    for name, args, _no in k.faults:
        if name == "lockf" and not gone:
            start, length = args[3], args[2]
            end = If(eq(length, 0), INF, add(start, length))
            stuck = Or(stuck, And(le(start, b), lt(b, end)))
    mine = False if other is None else And(le(o0, b), lt(b, o1))
    eng.check(Implies(Not(Or(mine, stuck)), eq(node.held(k.pid, b), 0)), "a byte remains locked in the kernel after close()")
    eng.check(Implies(mine, eq(node.held(k.pid, b), 1)), "close() dropped the lock of another stream")
    if other is not None:
        eng.check(gone == 0, "the descriptor was closed while another stream has locks")
        eng.reach("deferred")
    else:
        eng.check(gone == 1, "the descriptor was not closed")
        if pending is not None:
            for p in pending:
                eng.check(sum(1 for c in k.closed if c[2] is p) == 1, "the descriptor of a previous stream was not closed")
    n1 = len(k.log)
    # later operations
    after(eng, w, f, text, k)
    # idempotence
    f.close()
    with_ok = False
    try:
        with f:
            pass
    except ValueError as e:
        e.__traceback__ = None
    f.close()
    eng.check(f.closed and len(k.log) == n1, "close() is not idempotent", repr(k.log[n1:]))
    if "R" in mode:
        try:
            f.read(1)
        except ValueError as e:
            e.__traceback__ = None
        else:
            eng.fail("reading a closed stream did not raise ValueError")
    eng.check(len(k.log) == n1, "an operation on a closed stream reached the system", repr(k.log[n1:]))
    # the locks are free again for the rest of the process
    if other is not None:
        other.close()
        other = None
        eng.check(sum(1 for c in k.closed if c[2] is ofd) == 1, "the deferred descriptor was not closed")
        eng.check(eq(node.held(k.pid, b), 0), "a byte remains locked in the kernel after the last close()")
    f = None
    w.collect()
    eng.check(not k.bad_closes, "a descriptor was closed twice")
    eng.check(not k.table(), "a descriptor is leaked")
    if kind == "reg":
        g = w.rsfile.rsopen("f", "RWB", buffering=0, locking=True, timeout=0, thread_safe=False)
        g.close()
    for l in w.all_locks:
        eng.check(not l.locked(), "a mutex is still held after close()")


def after(eng, w, f, text, k):
    data = "x" if text else b"x"
    ops = [
        ("read", lambda: f.read(1)), ("readall", lambda: f.read()), ("readline", lambda: f.readline()),
        ("write", lambda: f.write(data)), ("seek", lambda: f.seek(0)), ("seek_end", lambda: f.seek(0, 2)), ("tell", lambda: f.tell()),
        ("flush", lambda: f.flush()), ("truncate", lambda: f.truncate()), ("truncate0", lambda: f.truncate(0)),
        ("size", lambda: f.size()), ("sync", lambda: f.sync()), ("lock_file", lambda: f.lock_file(timeout=0)),
        ("lock_part", lambda: f.lock_file(0, 5, 1000)),
        ("unlock_file", lambda: f.unlock_file()), ("fileno", lambda: f.fileno()), ("handle", lambda: f.handle()),
        ("unique_id", lambda: f.unique_id()), ("times", lambda: f.times()), ("isatty", lambda: f.isatty()),
        ("readlines", lambda: f.readlines()), ("writelines", lambda: f.writelines([data])), ("iter", lambda: list(f)),
    ]
    if not text:
        ops.append(("readinto", lambda: f.readinto(bytearray(2))))
    for name, op in ops:
        try:
            op()
        except ValueError as e:
            e.__traceback__ = None
            e.__context__ = None
        except OSError as e:  # UnsupportedOperation for the wrong access mode is a ValueError too
            e.__traceback__ = None
            eng.fail("operation on a closed stream raised OSError", name)
        else:
            eng.fail("operation on a closed stream did not raise ValueError", name)

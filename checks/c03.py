"""C03 - an open that fails leaks no descriptor and no lock."""
import errno

from symx.engine import And, If, Implies, Not, Or, eq, ge, le, lt, ne, wrap, add
from symx.posix import INF, EnvLock

PROPERTY = "C03"
ENCODED = [
    "rsfile_factories.rsopen", "RSFileIOAbstract.__init__/lock_file/truncate/close", "rsfileio_unix.RSFileIO._inner_create_streams/"
    "_inner_close_streams", "RSBuffered*/RSTextIOWrapper/RSThreadSafeWrapper constructors", "_pyio finalizers",
]
BOUNDS = {
    "quick": "11 modes x path/opener/wrapped descriptor x regular file, directory, fifo or missing file x raw/buffered/text x plain/thread-safe, "
             "with at most one system call failing or interrupted (KeyboardInterrupt) anywhere, with a whole-file lock of another process or stream, and with each kind of "
             "invalid argument; file size 0..2^62",
    "thorough": "two failing system calls",
}
OUTSIDE = "failures of memory allocation, asynchronous exceptions elsewhere than in system calls and sleeps"
REQUIRED = ["ok", "failed", "fault", "conflict", "badarg", "dir", "opener", "wrapped"]

MODES = ["r", "wb", "w+", "ab", "x", "r+b", "RWB", "RAE", "WEB", "WC", "RNB"]
ARGS = [
    dict(encoding="no-such-encoding"), dict(errors=3), dict(newline="bad"), dict(newline=3), dict(encoding=3), dict(buffering=0),
    dict(buffering="x"), dict(timeout=-1), dict(timeout="x"), dict(closefd=False), dict(mutex=object(), thread_safe=False),
    dict(buffering=True), dict(permissions="x"), dict(encoding="utf-8", errors="strict", newline=""),
]
# an opener that itself opens or refuses
OPENERS = ["none", "fd", "raises", "negative"]


def cases(tier):
    out = []
    n = 1 if tier == "quick" else 2
    for m in MODES:
        for kind in ("reg", "dir", "fifo", "missing"):
            out.append(dict(name="path-%s-%s" % (m, kind), samples=1, params=dict(mode=m, kind=kind, how="path", faults=n)))
        for kind in ("reg", "dir", "fifo"):
            out.append(dict(name="opener-%s-%s" % (m, kind), samples=1, params=dict(mode=m, kind=kind, how="opener", faults=n)))
            out.append(dict(name="wrap-%s-%s" % (m, kind), samples=1, params=dict(mode=m, kind=kind, how="wrap", faults=n)))
        out.append(dict(name="args-%s" % m, samples=1, params=dict(mode=m, kind="reg", how="any", faults=0, args=True)))
        out.append(dict(name="conflict-%s" % m, samples=1, params=dict(mode=m, kind="reg", how="any", faults=0, conflict=True)))
    out.append(dict(name="helpers", harness="helpers", params=dict(faults=n)))
    return out


def harness(eng, w, mode, kind, how, faults, args=False, conflict=False):
    k = w.kernel
    node = None
    if kind != "missing":
        node = k.inode("f", kind=kind, size=eng.int("size", 0, 2 ** 62) if kind == "reg" else 0)
    k.inode("other", size=0)
    how = eng.choose("how", ["path", "opener", "wrap"]) if how == "any" else how
    holder = hofd = ofd = None
    kw = {}
    if conflict:
        if not args and eng.bool("interrupted"):  # while it is waiting for the lock
            faults = 1
            kw["timeout"] = 2
        if eng.choose("by", ["process", "stream"]) == "process":
            node.env.append(EnvLock(2, 0, INF))
        else:
            holder = w.rsfile.rsopen("f", "RWB", buffering=0, locking=True, timeout=0, thread_safe=False)
    if args:
        kw = dict(eng.choose("arg", ARGS))
        eng.reach("badarg")
    else:
        if "b" in mode.lower() and eng.bool("raw"):
            kw["buffering"] = 0
        kw["thread_safe"] = eng.bool("thread_safe")
    kw.setdefault("timeout", 0)
    base = dict(k.table())
    got = []
    fd = None
    if how == "opener":
        style = eng.choose("opener", OPENERS[1:]) if faults == 0 else "fd"

        def opener(name, m):
            if style == "raises":
                raise KeyError("opener")
            if style == "negative":
                return -1
            n = k.install(node)
            got.append((n, k.table()[n]))
            return n

        kw["opener"] = opener
        eng.reach("opener")
    elif how == "wrap":
        fd = k.install(node)
        ofd = k.table()[fd]
        kw.setdefault("closefd", eng.bool("closefd"))
        kw["fileno" if eng.bool("as_fileno") else "handle"] = fd
        eng.reach("wrapped")
    k.fault_budget = faults
    k.fault_errnos = (errno.EIO, "kbd")
    n0, c0 = len(k.opened), len(k.closed)
    failed = False
    f = None
    try:
        f = w.rsfile.rsopen(None if how == "wrap" else "f", mode, **kw)
    except (Exception, KeyboardInterrupt) as e:
        e.__traceback__ = None
        e.__context__ = None
        failed = True
    k.fault_budget = 0
    if not failed:
        eng.reach("ok")
        f.close()
        f = None
        return
    w.collect()
    eng.reach("failed")
    if k.faults:
        eng.reach("fault")
    if conflict:
        eng.reach("conflict")
    if kind == "dir":
        eng.reach("dir")
    if holder is not None:
        # closing is deferred as long as another stream of the process has locks on the file (see C08)
        hofd = base.pop(holder.fileno())
        holder.close()
        holder = None
    # descriptors
    skip = [hofd, ofd]
    mine = got + [(x[0], None) for x in k.opened[n0:]]
    now = dict(k.table())
    for n, o in now.items():
        if n == fd:
            continue
        eng.check(base.get(n) is o, "a failed open leaks a descriptor", "fd %d" % n)
    for n, o in base.items():
        eng.check(now.get(n) is o, "a failed open closed somebody else's descriptor", "fd %d" % n)
    eng.check(len([c for c in k.closed[c0:] if c[2] not in skip]) == len(mine), "a descriptor was closed more than once or never",
              [repr(mine), repr(k.closed[c0:])])
    if fd is not None:
        eng.check(len([c for c in k.closed[c0:] if c[2] is ofd]) <= 1, "the wrapped descriptor was closed twice")
        if not kw["closefd"]:
            eng.check(now.get(fd) is ofd, "a failed open closed a descriptor wrapped with closefd=False")
    eng.check(not k.bad_closes, "close() of a descriptor that is not open", repr(k.bad_closes))
    # locks
    if node is not None:
        b = eng.int("byte", 0, INF - 1)
        eng.check(eq(node.held(k.pid, b), 0), "a lock of a failed open remains in the kernel")
    if node is not None and kind == "reg":
        node.env = []
        try:
            g = w.rsfile.rsopen("f", "RWB", buffering=0, locking=True, timeout=0, thread_safe=False)
        except OSError as e:
            e.__traceback__ = None
            eng.fail("the file can't be opened and locked again after a failed open", str(e))
        else:
            g.close()
    for l in w.all_locks:
        eng.check(not l.locked(), "a mutex is still held after a failed open")


def helpers(eng, w, faults):
    """the whole-file helpers leave nothing open either, whether they succeed or fail"""
    k = w.kernel
    exists = eng.bool("exists")
    if exists:
        k.inode("f").set_bytes(b"content")
        if eng.bool("locked"):
            k.fs[b"f"].env.append(EnvLock(2, 0, INF))
    what = eng.choose("what", ["read", "write", "append", "readbad"])
    k.fault_budget = faults
    k.fault_errnos = (errno.EIO,)
    sync = eng.bool("sync")
    k.symbolic_data = False
    try:
        if what == "read":
            w.rsfile.read_from_file("f", binary=True, timeout=0)
        elif what == "readbad":
            w.rsfile.read_from_file("f", encoding="no-such", timeout=0)
        elif what == "write":
            w.rsfile.write_to_file("f", b"x", sync=sync, timeout=0)
        else:
            w.rsfile.append_to_file("f", b"x", sync=sync, timeout=0)
    except Exception as e:
        e.__traceback__ = None
        e.__context__ = None
    k.fault_budget = 0
    w.collect()
    eng.check(not k.table(), "a helper leaks a descriptor")
    eng.check(len(k.closed) == len(k.opened), "a descriptor was closed more than once or never")
    eng.check(not k.bad_closes, "close() of a descriptor that is not open")
    if b"f" in k.fs:
        eng.check(eq(k.fs[b"f"].held(k.pid, eng.int("byte", 0, INF - 1)), 0), "a helper leaves a lock in the kernel")

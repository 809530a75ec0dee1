"""C16 - sync() pushes everything or raises."""
import errno

from symx.engine import And, If, Implies, Max, Not, Or, SymBytes, add, eq, ex, ge, le, lt, sub, sym_len, wrap
from checks.reffile import RefFile, same_file

PROPERTY = "C16"
ENCODED = [
    "RSFileIOAbstract.sync", "rsfileio_unix.RSFileIO._inner_sync", "sync() and flush() of RSBuffered*/RSTextIOWrapper/RSThreadSafeWrapper and of "
    "_pyio", "write_to_file/append_to_file (sync=True)",
]
BOUNDS = {
    "quick": "file of symbolic size and content; every layer; write, sync, optional second write (or seek and write) and sync; symbolic data of 0..24 "
             "bytes; metadata and full_flush every way they can be passed; F_FULLFSYNC available or not, fdatasync missing or not; any subset of the "
             "primitives failing with any errno; one partial or failing write",
    "thorough": "three writes with a sync after each, two partial writes",
}
OUTSIDE = "what the kernel and the devices do after a successful primitive; text writes use fixed strings"
REQUIRED = ["synced", "raised", "fullfsync", "fdatasync", "fsync", "write-fault", "pipe", "closed", "helper", "readonly", "fallback"]
TOP = 2 ** 40
KINDS = ("fullfsync", "fdatasync", "fsync")

LAYERS = {
    "raw": ("RWB", dict(buffering=0)), "rawA": ("AB", dict(buffering=0)), "buf": ("RWB", dict(buffering=16)), "bufW": ("WB", dict(buffering=16)),
    "bufA": ("RAB", dict(buffering=16)), "text": ("RW", {}), "textW": ("W", dict(buffering=1)), "ts": ("WB", dict(thread_safe=True)),
    "tstext": ("RA", dict(thread_safe=True)),
}


def cases(tier):
    out = []
    full = tier != "quick"
    for lay in LAYERS:
        for n in range(len(STYLES)):
            if full or lay in ("raw", "buf", "text") or n < 3:
                out.append(dict(name="faults-%s-%d" % (lay, n), samples=1, params=dict(lay=lay, style=n, what="faults", depth=2, full=full)))
        for n in (0, 2) if full or lay in ("buf", "bufW") else (0,):
            out.append(dict(name="data-%s-%d" % (lay, n), samples=1, weight=2, params=dict(lay=lay, style=n, what="data", depth=3 if full else 2, full=full)))
    out.append(dict(name="readonly", harness="readonly", samples=1))
    out.append(dict(name="pipe", harness="pipe", samples=1))
    for how in ("write", "append"):
        out.append(dict(name="helper-" + how, harness="helper", samples=1, params=dict(how=how)))
    # a system without fdatasync()
    for c in list(out):
        if not c["name"].startswith("data-"):
            out.append(dict(c, name=c["name"] + "-nofdatasync", backend="nofdatasync"))
    return out


# how the arguments are given: (call, metadata, full_flush)
STYLES = [
    (lambda f: f.sync(), True, True),
    (lambda f: f.sync(True, False), True, False),
    (lambda f: f.sync(metadata=False, full_flush=False), False, False),
    (lambda f: f.sync(False), False, True),
    (lambda f: f.sync(full_flush=False), True, False),
    (lambda f: f.sync(metadata=0, full_flush=0), False, False),
]


def setup(eng, w):
    k = w.kernel
    k.has_fullfsync = eng.bool("has_fullfsync")
    return k


def is_sync(name, args):
    return name in ("fsync", "fdatasync") or name == "fcntl" and len(args) > 1 and args[1] == 51


def called(k, since):
    return [(n, res[0]) for n, a, res in k.log[since:] if is_sync(n, a)]


def verify(eng, k, node, since, metadata, nfaults):
    """sync() returned normally"""
    good = [kind for kind, writes in getattr(node, "synced", []) if writes == node.writes]
    new = getattr(node, "synced", [])[since[1]:]
    eng.check(bool(new), "sync() returned but nothing was synchronised")
    eng.check(bool(good) and any(w == node.writes for _k, w in new), "data was written to the file after the synchronisation")
    suitable = [kd for kd, wr in new if wr == node.writes and (kd in ("fsync", "fullfsync") or not metadata)]
    eng.check(bool(suitable), "sync() with metadata=True only synchronised the data")
    for kd in suitable:
        eng.reach(kd)
    eng.reach("synced")
    if len(k.faults) > nfaults:
        eng.reach("fallback")


def harness(eng, w, lay, style, what, depth, full):
    k = setup(eng, w) if what == "faults" else w.kernel
    mode, kw = LAYERS[lay]
    text = "B" not in mode
    kw = dict(kw)
    kw.setdefault("thread_safe", False)
    old = eng.func("old")
    size = eng.int("size", 0, TOP)
    if text and "R" in mode or text and "A" in mode:
        size = 3
    node = k.inode("f", size=size, base=old)
    call, metadata, full_flush = STYLES[style]
    f = w.rsfile.rsopen("f", mode, locking=False, **kw)
    ref = RefFile(old, size, "A" in mode)
    if what == "data" and not lay.startswith("raw"):
        k.partial_writes = True
        k.partial_budget = 2 if full else 1
    for d in range(depth):
        if d and "B" in mode and "A" not in mode and what == "data" and eng.bool("seek%d" % d):
            p = eng.int("pos%d" % d, 0, TOP)
            f.seek(p)
            ref.seek(p)
        if text:
            data = ("abc\n" * 3, "x", "")[d]
            f.write(data)
            ref.write(data.encode())
        else:
            n = eng.int("n%d" % d, 0, 24) if what == "data" else 3
            data = eng.data("data%d" % d, n)
            f.write(data)
            ref.write(data)
        last = d == depth - 1
        if not last and not eng.bool("sync%d" % d):
            continue
        which = "sync"
        if what == "data":
            which = eng.choose("faulty%d" % d, ["none", "write"] if last and not lay.startswith("raw") else ["none"])
        k.fault_budget = dict(sync=3, none=0, write=1)[which]
        k.fault_calls = is_sync if which == "sync" else (lambda n, a: n == "write")
        k.fault_errnos = ("sym",) if which == "write" else (errno.EIO, errno.EINVAL)
        nfaults = len(k.faults)
        since = (len(k.log), len(getattr(node, "synced", [])))
        try:
            call(f)
        except OSError as e:
            e.__traceback__ = None
            k.fault_budget = 0
            eng.check(len(k.faults) > nfaults, "sync() failed although nothing did", str(e))
            if which == "sync":
                eng.check(any(x[0] == "fsync" for x in k.faults[nfaults:]), "sync() failed although a primitive was left to be tried", str(e))
                eng.check(Or(*[eq(e.errno, x[2]) for x in k.faults[nfaults:]]), "the error is not the one of the system", str(e))
                eng.reach("raised")
                # nothing is lost: a later sync() succeeds
                since = (len(k.log), len(getattr(node, "synced", [])))
                call(f)
                verify(eng, k, node, since, metadata, len(k.faults))
                same_file(eng, node, ref, "file after sync()", "x%d" % d)
            else:
                eng.reach("write-fault")
                break
        else:
            k.fault_budget = 0
            eng.check(which != "write" or len(k.faults) == nfaults, "sync() returned although writing the data failed")
            verify(eng, k, node, since, metadata, nfaults)
            same_file(eng, node, ref, "file after sync()", "x%d" % d)
    k.partial_writes = False
    f.close()
    try:
        call(f)
    except ValueError as e:
        e.__traceback__ = None
        eng.reach("closed")
    else:
        eng.fail("sync() of a closed stream succeeded")
    f = None


def readonly(eng, w):
    k = setup(eng, w)
    node = k.inode("f", size=eng.int("size", 0, TOP))
    f = w.rsfile.rsopen("f", eng.choose("mode", ["RB", "R"]), locking=False, thread_safe=eng.bool("ts"))
    call, metadata, full_flush = eng.choose("style", STYLES)
    if "b" in f.mode.lower() and eng.bool("read"):
        f.read(4)
    k.fault_budget = 3
    k.fault_calls = is_sync
    since = (len(k.log), 0)
    try:
        call(f)
    except OSError as e:
        e.__traceback__ = None
        eng.check(any(x[0] == "fsync" for x in k.faults), "sync() failed although a primitive was left to be tried", str(e))
    else:
        verify(eng, k, node, since, metadata, 0)
        eng.reach("readonly")
    k.fault_budget = 0
    f.close()
    f = None


def pipe(eng, w):
    """streams which can't be synchronised say so"""
    k = setup(eng, w)
    node = k.inode("f", kind="fifo")
    fd = k.install(node, 1)
    f = w.rsfile.rsopen(mode=eng.choose("mode", ["WB", "W"]), fileno=fd, locking=False, buffering=None, thread_safe=False)
    call, metadata, full_flush = eng.choose("style", STYLES)
    try:
        call(f)
    except OSError as e:
        e.__traceback__ = None
        eng.reach("pipe")
    else:
        eng.fail("sync() of a pipe succeeded")
    f.close()
    f = None


def helper(eng, w, how):
    k = setup(eng, w)
    old = eng.func("old")
    size = eng.int("size", 0, TOP)
    exists = eng.bool("exists")
    node = None
    if exists:
        node = k.inode("f", size=size, base=old)
    else:
        size = 0
    ref = RefFile(old, size, how == "append")
    if how == "write":
        ref.truncate(0)
    data = eng.data("data", eng.int("n", 0, 24))
    buffering = eng.choose("buffering", [0, 8, None])
    k.partial_writes = True
    k.partial_budget = 2
    k.fault_budget = 3
    k.fault_calls = is_sync
    fn = w.rsfile.write_to_file if how == "write" else w.rsfile.append_to_file
    try:
        fn("f", data, sync=True, buffering=buffering)
    except OSError as e:
        e.__traceback__ = None
        eng.check(any(x[0] == "fsync" for x in k.faults), "the helper failed although a primitive was left to be tried", str(e))
        return
    node = k.fs[b"f"]
    ref.write(data)
    same_file(eng, node, ref, "file")
    verify(eng, k, node, (0, 0), True, 0)
    eng.reach("helper")

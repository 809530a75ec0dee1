"""C25 - streams report what they are: name, origin, closefd, mode, capabilities, descriptors, times, identity."""
import errno
import os

from symx.engine import And, If, Iff, Implies, Not, Or, SymStr, add, eq, ge, gt, le, lt, ne, sub, wrap

PROPERTY = "C25"
ENCODED = [
    "RSFileIOAbstract.__init__/mode/name/origin/closefd/seekable/readable/writable/isatty/fileno/handle/unique_id/times/size/lock_file",
    "rsfileio_unix.RSFileIO._inner_unique_id/_inner_times/_inner_size/_inner_fileno/_inner_handle", "rsfileio_windows.RSFileIO (the same methods)",
    "rsfile_streams forwarders, RSThreadSafeWrapper.__getattr__", "IntraProcessLockRegistryClass (identity of files)", "FileTimes",
]
BOUNDS = {
    "quick": "24 modes x raw, buffered, text, thread-safe layers x path (str, bytes, path-like), fileno, integer name, handle, opener; regular files, fifos, "
             "terminals and devices; symbolic device and inode numbers (64 bits) of two files, times, sizes, descriptor numbers; identity and "
             "locks of the files compared for every pair of numbers; Windows: both backends",
    "thorough": "the same",
}
OUTSIDE = "the text of repr() and of error messages"
REQUIRED = ["reported", "tty", "not-seekable", "same-file", "other-file", "same-inode-other-device", "win", "times", "replaced", "replaced-while-opening"]
MODES = ["rb", "r+b", "wb", "w+b", "ab", "a+b", "xb", "x+b", "RB", "RWB", "WB", "AB", "RAB", "WCB", "RWCB", "RNB", "RWNB", "RWIB", "RWSB", "WEIB", "RWESB", "RAISB", "RISB", "WCSIB"]


class PathLike(object):
    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return self.path


def cases(tier):
    out = []
    for m in MODES:
        for how in ("path", "fileno", "name", "handle", "opener"):
            if how == "name" and m.upper() == m:
                continue
            out.append(dict(name="%s-%s" % (m, how), samples=1, params=dict(mode=m, how=how)))
    for kind in ("fifo", "chr", "tty"):
        for m in ("rb", "wb"):
            out.append(dict(name="%s-%s" % (m, kind), samples=1, params=dict(mode=m, how="path", kind=kind)))
    for layer in ("raw", "buffered", "text", "safe"):
        out.append(dict(name="identity-%s" % layer, harness="identity", samples=1, params=dict(layer=layer)))
        out.append(dict(name="times-%s" % layer, harness="times", samples=1, params=dict(layer=layer)))
    out.append(dict(name="registry", harness="registry", samples=1))
    out.append(dict(name="filetimes", harness="filetimes", samples=1))
    for b in ("ctypes", "pywin32"):
        for how in ("path", "fileno", "handle"):
            out.append(dict(name="win-%s-%s" % (how, b), harness="windows", platform="windows", backend=b, samples=0, params=dict(how=how)))
    return out


def wanted(mode):
    """(mode attribute of binary streams, readable, writable) of a documented mode"""
    r = "r" in mode.lower() or "+" in mode
    w = any(c in mode for c in "waxWA+")
    x = "x" in mode or "C" in mode
    if x:
        m = "xb"
    elif "a" in mode.lower():
        m = "ab"
    elif r:
        m = "rb"
    else:
        m = "wb"
    return m + ("+" if r and w else ""), r, w


def report(eng, w, f, mode, text, name, origin, closefd, seekable, tty, how):
    m, r, wr = wanted(mode)
    if text is None:
        eng.check(f.mode == m, "wrong mode", [f.mode, m])
    else:
        eng.check(f.mode == text, "the mode of a text stream is not the one which was given", [f.mode, text])
    if isinstance(name, (str, bytes)):
        eng.check(type(f.name) is type(name) and f.name == name, "wrong name", repr(f.name))
    else:
        eng.check(eq(f.name, name), "wrong name", repr(f.name))
    eng.check(f.origin == origin, "wrong origin", f.origin)
    eng.check(f.closefd == closefd, "wrong closefd")
    eng.check(f.readable() == r and f.writable() == wr, "wrong capabilities")
    if seekable is not None:
        eng.check(f.seekable() == seekable, "wrong seekable()")
    if tty is not None:
        eng.check(f.isatty() == tty, "wrong isatty()")
    eng.check(not f.closed, "reported as closed")


def harness(eng, w, mode, how, kind="reg"):
    k = w.kernel
    tty = kind == "tty"
    new = how == "path" and kind == "reg" and ("x" in mode or "C" in mode)
    size = eng.int("size", 0, 2 ** 62) if kind == "reg" else 0
    node = None
    if not new:
        node = k.inode("f", kind="chr" if tty else kind, size=size, dev=eng.int("dev", 0, 2 ** 64 - 1), ino=eng.int("ino", 0, 2 ** 64 - 1))
        node.tty = tty
        node.atime, node.mtime = eng.real("atime", -(2 ** 40), 2 ** 40), eng.real("mtime", -(2 ** 40), 2 ** 40)
    kw = {}
    name = None
    closefd = True
    first = name = want = None
    if how == "path":
        want = eng.choose("path", ["f", b"f"])
        first = PathLike(want) if eng.bool("pathlike") else want
        origin = "path"
    elif how == "opener":
        fd = eng.int("fd", 0, 2 ** 31 - 1)
        first, want, origin = "whatever", fd, "fileno"
        given = []

        def opener(n, m):
            given.append((n, m))
            k.install(node, os.O_RDWR, fd)
            return fd

        kw["opener"] = opener
    else:
        fd = eng.int("fd", 0, 2 ** 31 - 1)
        k.install(node, os.O_RDWR, fd)
        closefd = eng.bool("closefd")
        want, origin = fd, "handle" if how == "handle" else "fileno"
        if how == "name":
            first = fd
        else:
            kw[how] = fd
    layer = eng.choose("layer", ["raw", "buffered", "text"] if kind == "reg" or wanted(mode)[1] != wanted(mode)[2] else ["raw"])
    safe = eng.bool("safe")
    m = mode
    if layer == "text":
        m = mode.replace("b", eng.choose("t", ["", "t"])).replace("B", "T" if eng.bool("T") else "")
    f = w.rsfile.rsopen(first, m, buffering=0 if layer == "raw" else None, closefd=closefd, locking=eng.bool("locking"), timeout=0, thread_safe=safe, **kw)
    if how == "opener":
        eng.check(len(given) == 1 and given[0][0] == "whatever" and given[0][1] == m, "the opener is not called once with the name and the mode", repr(given))
    node = node or k.fs[b"f"]
    seekable = kind == "reg"
    report(eng, w, f, mode, m if layer == "text" else None, want, origin, closefd, seekable, tty, how)
    eng.reach("reported")
    if tty:
        eng.reach("tty")
    if not seekable:
        eng.reach("not-seekable")
    fds = list(k.table().items()) + list(k.symfds.get(k.pid, ()))
    if how == "path":
        real = [d for d, o in fds if o.inode is node]
        eng.check(len(real) == 1 and eq(f.fileno(), real[0]), "fileno() is not the descriptor of the file")
    else:
        eng.check(eq(f.fileno(), fd), "fileno() is not the wrapped descriptor")
    eng.check(eq(f.handle(), f.fileno()), "handle() is not fileno()")
    u = f.unique_id()
    eng.check(len(u) == 2 and And(eq(u[0], node.dev), eq(u[1], node.ino)), "unique_id() is not (device, inode)")
    t = f.times()
    eng.check(And(eq(t.access_time, node.atime), eq(t.modification_time, node.mtime)), "wrong times()")
    if layer != "raw" or safe:
        inner = f
        for _ in range(4):
            nxt = inner.__dict__.get("wrapped_stream") or inner.__dict__.get("_buffer") or inner.__dict__.get("_raw")
            if nxt is None:
                break
            inner = nxt
        report(eng, w, inner, mode, None, want, origin, closefd, seekable, tty, how)
    f.close()
    eng.check(f.closed, "not reported as closed")


def open_layer(eng, w, layer, path, n=""):
    text = layer == "text"
    mode = eng.choose("mode" + n, ["r", "w+", "a", "RW", "RAE"])
    if not text:
        mode += "b" if mode.lower() == mode else "B"
    return w.rsfile.rsopen(path, mode, buffering=0 if layer == "raw" else None, locking=False, thread_safe=layer == "safe")


def identity(eng, w, layer):
    """two files have the same identifier iff they are the same file, whatever the numbers the system gives to them"""
    k = w.kernel
    top = 2 ** 64 - 1
    d1, i1, d2, i2 = [eng.int(n, 0, top) for n in ("dev1", "ino1", "dev2", "ino2")]
    a = k.inode("f", size=0, dev=d1, ino=i1)
    linked = eng.bool("link")
    if linked:
        k.fs[b"g"] = a
    else:
        eng.assume(Or(ne(d1, d2), ne(i1, i2)))
        k.inode("g", size=0, dev=d2, ino=i2)
    other = k.inode("h", size=0, dev=d2, ino=add(i2, 1))
    moment = eng.choose("replaced", [None, "during", "after"])

    def passing(name, args):
        # the path may lead to another file as soon as this one is open: the stream is still on the first one
        if k.opened and k.fs[b"f"] is a and eng.bool("now"):
            k.fs[b"f"] = other
            eng.reach("replaced-while-opening")

    if moment == "during":
        k.pause_hook = passing
    f = open_layer(eng, w, layer, "f")
    k.pause_hook = None
    if moment == "after":
        k.fs[b"f"] = other
        eng.reach("replaced")
    g = open_layer(eng, w, layer, "g", "2")
    u, v = f.unique_id(), g.unique_id()
    eng.check(And(eq(u[0], d1), eq(u[1], i1)), "wrong identifier")
    eng.check((u == v) == linked, "identifiers do not tell files apart")
    if linked:
        eng.reach("same-file")
    else:
        eng.reach("other-file")
        if eng.truth(eq(i1, i2)):
            eng.reach("same-inode-other-device")
    again = f.unique_id()
    eng.check(And(eq(u[0], again[0]), eq(u[1], again[1])), "the identifier is not constant")
    f.close()
    g.close()


def registry(eng, w):
    """locks of the process distinguish files by device and inode, too"""
    k = w.kernel
    top = 2 ** 64 - 1
    d1, i1, d2, i2 = [eng.int(n, 0, top) for n in ("dev1", "ino1", "dev2", "ino2")]
    k.inode("f", size=0, dev=d1, ino=i1)
    eng.assume(Or(ne(d1, d2), ne(i1, i2)))
    k.inode("g", size=0, dev=d2, ino=i2)
    f = w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False)
    g = w.rsfile.rsopen("g", "RWB", buffering=0, locking=False, thread_safe=False)
    h = w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False)
    f.lock_file(timeout=0)
    try:
        g.lock_file(timeout=0)
    except OSError as e:
        eng.fail("the lock of another file conflicts", repr(e))
    try:
        h.lock_file(timeout=0)
    except OSError as e:
        e.__traceback__ = None
    else:
        eng.fail("the same file is locked twice")
    fg = k._ofd(g.fileno())
    g.close()
    eng.check(all(o is not fg for o in k.table().values()), "closing is deferred by the locks of another file")
    f.close()
    h.close()
    eng.check(not k.bad_closes and not k.table(), "descriptors left")


def times(eng, w, layer):
    k = w.kernel
    node = k.inode("f", size=0)
    f = open_layer(eng, w, layer, "f")
    for j in range(2):
        a, m = eng.real("a%d" % j, -(2 ** 40), 2 ** 40), eng.real("m%d" % j, -(2 ** 40), 2 ** 40)
        node.atime, node.mtime, node.ctime = a, m, eng.real("c%d" % j, -(2 ** 40), 2 ** 40)
        t = f.times()
        eng.check(And(eq(t.access_time, a), eq(t.modification_time, m)), "times() are not those of the file at the time of the call")
    eng.reach("times")
    f.close()


def filetimes(eng, w):
    F = w.modules["rsfile.rsfile_definitions"].FileTimes
    a, b, c, d = [eng.real(n, -(2 ** 40), 2 ** 40) for n in "abcd"]
    same = F(a, b) == F(c, d)
    eng.check(Iff(same, And(eq(a, c), eq(b, d))), "FileTimes compares wrongly")


def windows(eng, w, how):
    k = w.kernel
    size = eng.int("size", 0, 2 ** 62)
    mode = eng.choose("mode", ["rb", "r+b", "wb", "ab", "a+b", "RWB", "WB", "AB"])
    node = k.inode("f", size=size)
    kw = {}
    closefd = True
    first = None
    if how == "path":
        first = want = eng.choose("path", ["f", b"f"])
        origin = "path"
    else:
        closefd = eng.bool("closefd")
        if how == "fileno":
            want = kw["fileno"] = k.install(node)
            hd = k.crt[want]
        else:
            want = kw["handle"] = hd = k.wopen(node)
        origin = how
    layer = eng.choose("layer", ["raw", "buffered", "text"])
    m = mode.replace("b", "").replace("B", "") if layer == "text" else mode
    f = w.rsfile.rsopen(first, m, buffering=0 if layer == "raw" else None, closefd=closefd, locking=False, thread_safe=eng.bool("safe"), **kw)
    report(eng, w, f, mode, m if layer == "text" else None, want, origin, closefd, True, None, how)
    if how == "path":
        eng.check(len(k.opened) == 1, "not one handle was opened")
        hd = k.opened[0][0]
    eng.check(f.handle() == hd, "wrong handle()")
    fd = f.fileno()
    eng.check(k.crt.get(fd) == hd, "fileno() is no descriptor of the handle")
    eng.check(how != "fileno" or fd == want, "fileno() is not the wrapped descriptor")
    eng.check(f.fileno() == fd and f.handle() == hd, "descriptors are not constant")
    u = f.unique_id()
    eng.check(u[0] == node.volume and u[1] == node.file_id, "wrong identifier")
    eng.reach("win")
    f.close()
    eng.check(f.closed, "not reported as closed")

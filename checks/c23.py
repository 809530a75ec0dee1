"""C23 - the replacements of the open() builtin and of io.FileIO."""
import errno
import os
import types

from symx.engine import And, If, Iff, Implies, Not, Or, SymBytes, SymStr, add, eq, ex, ge, le, lt, ne, sym_len, wrap
from symx.posix import EnvLock, INF
from checks.c01 import oneof, spec
from checks.reffile import RefFile, same_data, same_file

PROPERTY = "C23"
ENCODED = [
    "rsfile_utilities.BUILTIN_OPEN_FUNC_REPLACEMENT/RSFileIOWrapper/monkey_patch_io_module/monkey_patch_open_builtin", "rsfile_factories.rsopen/"
    "parse_standard_args", "RSFileIOAbstract.__init__/truncate/close", "rsfileio_unix.RSFileIO._inner_create_streams", "oracle: _pyio.FileIO",
]
BOUNDS = {
    "quick": "open(): 21 standard modes x missing/existing file of symbolic size (or a descriptor of symbolic number) x buffering absent/-1/0/1/any 2..70000 x 6 sets of text arguments x "
             "closefd x opener x every number of positional arguments, every lock of another process; mode strings of 1-2 symbolic characters; raw class: mode strings of 1-4 "
             "distinct symbolic characters, files of size 0..2**62, closefd, path or descriptor, and 14 valid modes against _pyio.FileIO with a "
             "symbolic write; fifos and devices in one-way modes",
    "thorough": "mode strings of 1-3 (open) and 1-5 (raw class) symbolic characters",
}
OUTSIDE = "the opener argument and repeated letters in modes of the raw class; opener callables receive the mode string instead of flags, as with rsopen()"
REQUIRED = ["opened", "refused", "same-error", "locked-by-other", "positional", "opener", "fd", "erased", "created", "raw-rejected", "raw-opened",
            "raw-missing", "raw-exists", "special", "oracle", "patched", "builtin", "method"]
TOP = 2 ** 62

MODES = ["r", "rt", "rb", "r+", "r+b", "rb+", "w", "wt", "wb", "w+", "w+b", "a", "at", "ab", "a+", "ab+", "x", "xb", "x+", "x+b", "br"]
RAW = ["r", "rb", "r+", "rb+", "w", "wb", "w+", "wb+", "a", "ab", "a+", "ab+", "x", "x+b"]
TEXT = [{}, dict(encoding="utf-16", errors="replace", newline="\r\n"), dict(newline=""), dict(errors="ignore"), dict(encoding="latin-1", newline="\n"), dict(encoding="nope")]
NAMES = ("file", "mode", "buffering", "encoding", "errors", "newline", "closefd", "opener")


def cases(tier):
    out = []
    full = tier != "quick"
    for m in MODES:
        out.append(dict(name="open-%s" % m, samples=1, params=dict(mode=m)))
    for n in range(1, 4 if full else 3):
        out.append(dict(name="strings-%d" % n, harness="strings", samples=1, params=dict(n=n)))
    for n in range(0, 6 if full else 5):
        if n >= 3:
            for c in "xrwab+t":
                out.append(dict(name="raw-%d%s" % (n, c), harness="raw", samples=1, weight=n, params=dict(n=n, fix=c)))
        else:
            out.append(dict(name="raw-%d" % n, harness="raw", samples=1, params=dict(n=n)))
    for m in RAW:
        out.append(dict(name="oracle-%s" % m, harness="oracle", samples=1, params=dict(mode=m)))
    for m in ("r", "rb", "w", "wb", "a", "ab"):
        out.append(dict(name="fifo-%s" % m, harness="special", samples=1, params=dict(mode=m)))
    out.append(dict(name="patch", harness="patch", samples=1))
    return out


def norm(v, path, fd):
    if v == path and type(v) is bytes:
        return "PATH"
    return v


def same_log(eng, a, b, fa, fb):
    """two lists of system calls are the same, up to the path and descriptor"""
    eng.check([x[0] for x in a] == [x[0] for x in b], "other system calls are made", repr([x[0] for x in a])[:300] + repr([x[0] for x in b])[:300])
    for x, y in zip(a, b):
        eng.check(len(x[1]) == len(y[1]) and x[2][0] == y[2][0], "other system calls are made", x[0])
        for u, v in zip(x[1][1:], y[1][1:]):
            eng.check(type(u) is type(v) and eq(u, v) if isinstance(u, int) and isinstance(v, int) else u == v or type(u) is SymBytes,
                      "a system call has other arguments", x[0])


def describe(f):
    out = []
    while f is not None:
        out.append(type(f).__name__)
        if "TextIO" in out[-1]:
            out.append((f.encoding, f.errors, f.newlines, f.line_buffering, getattr(f, "_readtranslate", None), getattr(f, "_writenl", None), f.mode))
        if "Buffered" in out[-1]:
            out.append(("size", f.__dict__.get("buffer_size", f.__dict__.get("_buffer_size"))))
            if "Random" in out[-1]:
                out.append(("size", f.__dict__.get("buffer_size")))
        if out[-1] == "RSFileIO":
            out.append((f.mode, f.closefd, f.origin, f.readable(), f.writable()))
            break
        f = getattr(f, "buffer", None) if "TextIO" in type(f).__name__ else getattr(f, "raw", None)
    return out


def same_desc(eng, a, b):
    eng.check(len(a) == len(b), "another kind of stream is returned", repr((a, b)))
    for x, y in zip(a, b):
        if type(x) is tuple and x and x[0] == "size":
            eng.check(x[1] is y[1] or eq(x[1], y[1]), "another buffer size", repr((x, y)))
        else:
            eng.check(x == y, "another kind of stream is returned", repr((x, y)))


def harness(eng, w, mode):
    k = w.kernel
    u = w.modules["rsfile.rsfile_utilities"]
    old = eng.func("old")
    size = eng.int("size", 0, TOP)
    target = eng.choose("target", ["path", "fd", "opener"])
    exists = target != "path" or eng.bool("exists")
    foreign = exists and eng.bool("foreign")
    closefd = eng.bool("closefd") if target == "fd" else eng.choose("cfd", [True, False]) if mode == "r" else True
    buffering = eng.choose("buffering", ["absent", -1, 0, 1, "any"])
    if buffering == "any":
        buffering = eng.int("bufsize", 2, 70000)
    text = {} if "b" in mode and mode != "rb" else eng.choose("text", TEXT)
    npos = eng.choose("npos", [0, 1, 2, 3, 6, 7, 8] if buffering == 0 or buffering == -1 else [1, 8] if buffering != "absent" else [0, 2])
    nodes = []
    for p in ("f", "g"):
        if exists:
            n = k.inode(p, size=size, base=old)
            if foreign:
                n.env.append(EnvLock(2, 0, INF))
                eng.reach("locked-by-other")
            nodes.append(n)
    nlocks = []
    res = []
    opened = []

    def opener(p, fl):
        fd = k.install(k.fs[p.encode()], 2)
        opened.append((fd, k.table()[fd]))
        return fd

    now = w.sched.now
    ofds = []
    for i, p in enumerate(("f", "g")):
        arg = p
        if target == "fd":
            arg = k.install(nodes[i], 2)
            ofds.append(k.table()[arg])
        args = dict(file=arg, mode=mode, closefd=closefd, **text)
        if buffering != "absent":
            args["buffering"] = buffering
        if target == "opener":
            args["opener"] = opener
            eng.reach("opener")
        l0, a0 = len(k.log), len(w.all_locks)
        try:
            if i == 0:
                defaults = dict(file=arg, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None)
                pos = [args.get(n, defaults[n]) for n in NAMES[:npos]]
                kw = {n: v for n, v in args.items() if n not in NAMES[:npos]}
                f = u.BUILTIN_OPEN_FUNC_REPLACEMENT(*pos, **kw)
                if npos > 6:
                    eng.reach("positional")
            else:
                args["name"] = args.pop("file")
                f = w.rsfile.rsopen(locking=False, thread_safe=False, **args)
            r = ("ok", f)
        except (OSError, ValueError, TypeError, LookupError) as e:
            e.__traceback__ = None
            r = ("err", e)
            f = None
        f = None
        res.append(r)
        nlocks.append(len(w.all_locks) - a0)
        ofds.append(None)
        res[-1] += (k.log[l0:],)
    (s1, r1, log1), (s2, r2, log2) = res
    eng.check(eq(w.sched.now, now), "open() waited")
    eng.check(not [l for l in k.log if l[0] == "lockf" and l[1][1] & 3], "open() takes a lock")
    eng.check(s1 == s2, "one of open() and rsopen() fails", repr((r1, r2)))
    if s1 == "err":
        eng.check(type(r1) is type(r2) and getattr(r1, "errno", None) == getattr(r2, "errno", None), "another exception", repr((r1, r2)))
        eng.reach("refused" if not isinstance(r1, OSError) else "same-error")
    else:
        eng.check(nlocks[0] == nlocks[1], "a mutex was created")
        eng.check(type(r1).__name__ != "RSThreadSafeWrapper" and not hasattr(r1, "mutex"), "the stream has a mutex")
        same_desc(eng, describe(r1), describe(r2))
        eng.reach("opened")
        if target == "fd":
            eng.reach("fd")
    same_log(eng, log1, log2, None, None)
    a, b = k.fs.get(b"f"), k.fs.get(b"g")
    eng.check((a is None) == (b is None), "only one of the files exists")
    if a is not None:
        eng.check(eq(a.size, b.size), "another size")
        eng.check(a.perm == b.perm, "other permissions")
        x = eng.int("x", 0, TOP)
        eng.check(Implies(lt(x, a.size), eq(a.content.get(x), b.content.get(x))), "another content")
        if not exists:
            eng.reach("created")
        elif "w" in mode and target == "path" and s1 == "ok":
            eng.reach("erased")
    n0 = len(k.log)
    if s1 == "ok":
        r1.close()
        n1 = len(k.log)
        r2.close()
        same_log(eng, k.log[n0:n1], k.log[n1:], None, None)
    r1 = r2 = res = None


def strings(eng, w, n):
    """arbitrary mode strings: accepted or rejected by both"""
    k = w.kernel
    u = w.modules["rsfile.rsfile_utilities"]
    codes = [eng.int("c%d" % i, 0, 127) for i in range(n)]
    mode = SymStr.make(codes)
    size = eng.int("size", 0, TOP)
    exists = eng.bool("exists")
    res = []
    for i, p in enumerate(("f", "g")):
        if exists:
            k.inode(p, size=size, base=7)
        try:
            if i == 0:
                f = u.BUILTIN_OPEN_FUNC_REPLACEMENT(p, mode)
            else:
                f = w.rsfile.rsopen(p, mode, locking=False, thread_safe=False)
            res.append(("ok", type(f).__name__, f.readable(), f.writable()))
            f.close()
            f = None
        except (OSError, ValueError, TypeError) as e:
            e.__traceback__ = None
            res.append(("err", type(e), getattr(e, "errno", None)))
    eng.check(res[0] == res[1], "open() and rsopen() differ", repr(res))
    a, b = k.fs.get(b"f"), k.fs.get(b"g")
    eng.check((a is None) == (b is None), "only one of the files exists")
    if a is not None:
        eng.check(eq(a.size, b.size), "another size")
    eng.reach("opened" if res[0][0] == "ok" else "refused")


def raw(eng, w, n, fix=None):
    """mode strings of the raw class"""
    k = w.kernel
    u = w.modules["rsfile.rsfile_utilities"]
    codes = [eng.int("c%d" % i, 0, 127) for i in range(n)]
    if fix:
        eng.assume(eq(codes[0], ord(fix)))
        for c in codes:
            eng.assume(oneof(c, "xrwab+t"))
    eng.assume(And(*[ne(a, b) for i, a in enumerate(codes) for b in codes[:i]]))  # the standard class tolerates repeated b's
    mode = SymStr.make(codes) if n else ""
    std_ok, std, _ao, _af = eng.memo("spec", lambda: spec(codes))
    has_t = Or(*[eq(c, ord("t")) for c in codes])
    ok = And(std_ok, Not(has_t))
    exists = eng.bool("exists")
    size = eng.int("size", 0, TOP)
    old = eng.func("old")
    node = k.inode("f", size=size, base=old) if exists else None
    wrapped = exists and eng.bool("wrapped")
    closefd = eng.bool("closefd")
    name = k.install(node, 2) if wrapped else "f"
    n0 = len(k.log)
    try:
        f = u.RSFileIOWrapper(name, mode, closefd) if eng.bool("positional") else u.RSFileIOWrapper(name, mode=mode, closefd=closefd)
    except (ValueError, TypeError) as e:
        e.__traceback__ = None
        eng.check(Or(Not(ok), And(not closefd, not wrapped)), "a valid mode is rejected")
        eng.check(len(k.log) == n0, "an invalid mode touched the system")
        eng.reach("raw-rejected")
        return
    except OSError as e:
        e.__traceback__ = None
        eng.check(ok, "an invalid mode reached the system")
        eng.check(closefd or wrapped, "closefd=False with a path reached the system")
        if e.errno == errno.EEXIST:
            eng.check(And(std["must_create"], exists, not wrapped), "EEXIST")
            eng.reach("raw-exists")
        elif e.errno == errno.ENOENT:
            eng.check(And(std["must_not_create"], not exists), "ENOENT")
            eng.reach("raw-missing")
        else:
            eng.fail("unexpected error", repr(e))
        if node is not None:
            same_file(eng, node, RefFile(old, size), "file after a refused opening")
        eng.check(not k.table(), "descriptor leaked")
        return
    eng.check(ok, "an invalid mode is accepted")
    eng.check(closefd or wrapped, "closefd=False accepted with a path")
    node = k.fs[b"f"]
    ofd = k._ofd(f.fileno())
    eng.check(Iff(f.readable(), std["read"]), "readable()")
    eng.check(Iff(f.writable(), std["write"]), "writable()")
    if not wrapped:
        eng.check(Not(And(std["must_create"], exists)), "exclusive creation of an existing file")
        eng.check(Not(And(std["must_not_create"], not exists)), "a missing file was created")
        eng.check(Iff(ofd.can_read, std["read"]), "descriptor access (read)")
        eng.check(Iff(ofd.can_write, std["write"]), "descriptor access (write)")
        eng.check(Iff(bool(ofd.flags & os.O_APPEND), std["append"]), "append mode")
        eng.check(k.cloexec[(k.pid, f.fileno())], "the descriptor is inheritable")
        erased = Or(std["erase"], not exists)
    else:
        erased = False
    eng.check(eq(node.size, If(erased, 0, size)), "erasure")
    x = eng.int("x", 0, TOP)
    if exists:
        eng.check(Implies(lt(x, node.size), eq(node.content.get(x), old(ex(x)))), "content")
    eng.check(Implies(std["append"], eq(ofd.pos, node.size)), "append streams start at the end")
    eng.check(Or(std["append"], eq(ofd.pos, 0)), "streams start at offset 0")
    eng.check(not [l for l in k.log if l[0] == "lockf" and l[1][1] & 3], "the raw class takes a lock")
    f.close()
    eng.check(bool(k.table()) == (not closefd), "closefd is not honoured")
    eng.reach("raw-opened")


def special(eng, w, mode):
    """fifos and devices can be neither erased nor positioned, which is no reason not to open them"""
    k = w.kernel
    k.pipe_budget = 0
    u = w.modules["rsfile.rsfile_utilities"]
    kind = eng.choose("kind", ["fifo", "chr"])
    size = eng.int("size", 0, 64)
    old = eng.func("old")
    node = k.inode("f", kind=kind, size=size, base=old)
    raw_ = eng.bool("raw")
    wrapped = eng.bool("wrapped")
    name = k.install(node, 2) if wrapped else "f"
    writing = "r" not in mode
    try:
        if raw_:
            f = u.RSFileIOWrapper(name, mode)
        else:
            f = u.BUILTIN_OPEN_FUNC_REPLACEMENT(name, mode if "b" in mode else mode + "b", 0)
    except OSError as e:
        e.__traceback__ = None
        eng.fail("a fifo or device can't be opened", repr(e))
        return
    fd = f.fileno()
    ofd = k._ofd(fd)
    eng.check(eq(node.size, size) and not getattr(node, "out", []), "opening a fifo changed it")
    eng.check(f.readable() is not writing and f.writable() is writing, "access of the stream")
    if not wrapped:
        eng.check(ofd.can_write is writing and ofd.can_read is not writing, "access of the descriptor")
    if writing:
        data = eng.data("data", eng.int("n", 1, 16))
        r = f.write(data)
        eng.check(eq(r, sym_len(data)), "write to a fifo")
        eng.check(len(node.out) == 1 and eq(node.out[0][0], r), "data written to the fifo")
        i = eng.int("i", 0, 15)
        eng.check(Implies(lt(i, r), eq(node.out[0][1].fn(ex(i)), SymBytes.of(data).fn(ex(i)))), "data written to the fifo")
    else:
        n = eng.int("n", 1, 16)
        d = f.read(n)
        same_data(eng, d, If(lt(size, n), size, n), lambda i: old(ex(i)), "data read from the fifo")
    eng.check(f.seekable() is False, "a fifo is not seekable")
    f.close()
    eng.check(not k.table(), "descriptor leaked")
    eng.reach("special")


def oracle(eng, w, mode):
    """the same history on the raw class and on the one of the standard library"""
    k = w.kernel
    u = w.modules["rsfile.rsfile_utilities"]
    old = eng.func("old")
    size = eng.int("size", 0, TOP)
    exists = eng.bool("exists")
    how = eng.choose("how", ["path", "bytes", "fd"])
    if how == "fd" and not exists:
        eng.end("no descriptor")
    off = eng.int("off", 0, TOP)
    data = eng.data("data", eng.int("n", 0, 16))
    res = []
    for p, cls in (("f", u.RSFileIOWrapper), ("g", w.pyio.FileIO)):
        if exists:
            k.inode(p, size=size, base=old)
        name = p
        if how == "bytes":
            name = p.encode()
        elif how == "fd":
            name = k.install(k.fs[p.encode()], 2)
            k.table()[name].pos = off
        out = []
        try:
            f = cls(name, mode)
        except OSError as e:
            e.__traceback__ = None
            res.append(["err", e.errno])
            continue
        out = ["ok", f.mode, f.readable(), f.writable(), f.seekable(), f.closefd, f.tell(), k.cloexec[(k.pid, f.fileno())], f.name == name]
        if eng.bool("seek") if not res else seek:
            seek = True
            out.append(f.seek(off))
        else:
            seek = False
        for op in ("write", "tell", "read", "truncate", "tell"):
            try:
                if op == "write":
                    r = f.write(data)
                elif op == "read":
                    r = f.read(5)
                elif op == "truncate":
                    r = f.truncate() 
                else:
                    r = f.tell()
            except (OSError, ValueError) as e:
                e.__traceback__ = None
                r = "refused"
            out.append(r)
        f.close()
        f = None
        res.append(out)
    a, b = res
    eng.check(len(a) == len(b), "one of the two classes failed", repr((a, b)))
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, bytes) and isinstance(y, bytes):
            same_data(eng, x, SymBytes.of(y)._len(), SymBytes.of(y).fn, "data read", "y%d" % i)
        elif isinstance(x, int) and isinstance(y, int):
            eng.check(eq(x, y), "the two classes differ", i)
        else:
            eng.check(x == y, "the two classes differ", repr((i, x, y)))
    na, nb = k.fs.get(b"f"), k.fs.get(b"g")
    eng.check((na is None) == (nb is None), "only one of the files exists")
    if na is not None:
        eng.check(eq(na.size, nb.size), "another size")
        x = eng.int("x", 0, TOP)
        eng.check(Implies(lt(x, na.size), eq(na.content.get(x), nb.content.get(x))), "another content")
    eng.check(not k.table(), "descriptor leaked")
    eng.reach("oracle")


def patch(eng, w):
    """the patching functions install these replacements, and nothing else"""
    k = w.kernel
    u = w.modules["rsfile.rsfile_utilities"]
    names = ("FileIO", "BufferedReader", "BufferedWriter", "BufferedRandom", "TextIOWrapper", "open", "BytesIO", "IOBase")
    mod = types.SimpleNamespace(**{n: n for n in names})
    io, bi = w._fakes["io"], w._fakes.get("builtins")
    try:
        how = eng.choose("how", ["module", "default", "builtin"])
        if how == "builtin":
            w._fakes["builtins"] = mod
            u.monkey_patch_open_builtin()
            eng.check(all(getattr(mod, n) == n for n in names if n != "open"), "more than open() was replaced")
            eng.reach("builtin")
        else:
            w._fakes["io"] = mod
            u.monkey_patch_io_module(mod) if how == "module" else u.monkey_patch_io_module()
            eng.check(mod.BytesIO == "BytesIO" and mod.IOBase == "IOBase", "too much was replaced")
    finally:
        w._fakes["io"] = io
        w._fakes.pop("builtins", None) if bi is None else w._fakes.update(builtins=bi)
    size = eng.int("size", 0, TOP)
    mode = eng.choose("mode", ["rb", "r+b", "wb", "ab", "r", "w"])
    n = k.inode("f", size=size, base=3)
    n.env.append(EnvLock(2, 0, INF))
    if eng.bool("method"):
        # like the builtin, it may be stored in a class
        cls = type("C", (), {"open": mod.open})
        f = cls().open("f", mode)
        eng.reach("method")
    else:
        f = mod.open("f", mode)
    eng.check(eq(n.size, 0 if "w" in mode else size), "erasure")
    raw_ = f
    while type(raw_).__name__ != "RSFileIO":
        raw_ = raw_.buffer if hasattr(type(raw_), "buffer") and "Text" in type(raw_).__name__ else raw_.raw
    f.close()
    eng.check(not [l for l in k.log if l[0] == "lockf" and l[1][1] & 3], "open() takes a lock")
    if how != "builtin":
        f = mod.FileIO("f", mode if "b" in mode else "rb")
        buffered = {"rb": "BufferedReader", "wb": "BufferedWriter", "ab": "BufferedWriter", "r+b": "BufferedRandom"}[mode if "b" in mode else "rb"]
        g = getattr(mod, buffered)(f)
        t = mod.TextIOWrapper(g, "utf-8") if "+" not in mode else None
        eng.check(hasattr(g, "lock_file") and hasattr(t or g, "sync"), "the standard class was kept")
        eng.check(eq(t.size() if t is not None else g.size(), n.size), "size()")
        (t or g).close()
        f = g = t = None
    eng.check(not k.table(), "descriptor leaked")
    eng.reach("patched")

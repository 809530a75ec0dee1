"""C26 - rsopen() returns exactly the stack of streams which was asked for."""
import _pyio
import io
import os

from symx.engine import And, If, Not, Or, add, eq, ge, gt, le, lt, ne, wrap
from symx.posix import INF

PROPERTY = "C26"
ENCODED = [
    "rsfile_factories.rsopen/parse_standard_args/parse_advanced_args", "rsfile_streams.RSBufferedReader/RSBufferedWriter/RSBufferedRandom/RSTextIOWrapper/"
    "RSThreadSafeWrapper", "RSFileIOAbstract.__init__/lock_file", "rsfileio_unix.RSFileIO._inner_create_streams", "rsfileio_windows.RSFileIO (buffers)",
    "_pyio.BufferedReader/BufferedWriter/BufferedRandom/TextIOWrapper.__init__",
]
BOUNDS = {
    "quick": "24 modes x regular file, fifo, terminal, device x path, descriptor, handle, opener; buffering absent or any integer, any st_blksize; permissions 0..0o7777 and 6 "
             "umasks; any write of 0..2**40 bytes against the buffer; locks seen by another process on any byte, files of size 0..2**62; own or given mutexes; 8 sets "
             "of text arguments; Windows: both backends",
    "thorough": "the same",
}
OUTSIDE = "buffer sizes reported by failing fstat() calls; encodings other than those of the text cases"
REQUIRED = ["raw", "reader", "writer", "random", "text", "unbuffered-text", "given-size", "block-size", "default-size", "line-buffered", "tty-lines",
            "kept", "flushed", "new-perms", "old-perms", "locked-shared", "locked-exclusive", "unlocked", "not-seekable", "mutex-given", "mutex-own", "mutex-mp", "no-wrapper", "mutex-refused",
            "win"]
MODES = ["rb", "r", "r+b", "r+", "wb", "w", "w+b", "w+", "ab", "a", "a+b", "a+", "xb", "x", "x+b", "RB", "R", "WB", "RWNB", "RWET", "AB", "RA", "WCB", "RWCIB"]


def cases(tier):
    out = []
    for m in MODES:
        out.append(dict(name="stack-%s" % m, harness="stack", samples=1, params=dict(mode=m)))
    for m in ("rb", "r", "wb", "w", "RB", "W"):
        for kind in ("fifo", "tty", "chr"):
            out.append(dict(name="stack-%s-%s" % (m, kind), harness="stack", samples=1, params=dict(mode=m, kind=kind)))
    for m in ("w", "wb", "w+", "w+b", "a", "ab", "RWB", "RW"):
        out.append(dict(name="keep-%s" % m, harness="keep", samples=1, params=dict(mode=m)))
    for m in ("w", "a+b", "xb", "WB", "RWCB", "A", "rb", "RWNB"):
        out.append(dict(name="perms-%s" % m, harness="perms", samples=1, params=dict(mode=m)))
    for m in ("rb", "r", "r+b", "w", "wb", "a", "a+b", "RB", "RWB", "WB", "RAB", "xb", "WCB"):
        out.append(dict(name="locks-%s" % m, harness="locks", samples=1, params=dict(mode=m)))
    for how in ("path", "fileno", "handle", "opener"):
        out.append(dict(name="mutex-%s" % how, harness="mutex", samples=1, params=dict(how=how)))
    out.append(dict(name="text", harness="text", samples=1))
    for b in ("ctypes", "pywin32"):
        out.append(dict(name="win-%s" % b, harness="windows", platform="windows", backend=b, samples=0))
    return out


def access(mode):
    r = "r" in mode.lower() or "+" in mode
    return r, any(c in mode for c in "waxWA+")


def is_text(mode):
    return "b" not in mode.lower()


def prepare(eng, w, mode, kind="reg"):
    k = w.kernel
    tty = kind == "tty"
    if not ("x" in mode or "C" in mode):
        node = k.inode("f", kind="chr" if tty else kind, size=eng.int("size", 0, 2 ** 62) if kind == "reg" else 0)
        node.tty = tty
    return k


def target(eng, k, mode, how):
    """(first argument, other arguments)"""
    if how == "path":
        return "f", {}
    node = k.fs.get(b"f") or k.inode("f", size=eng.int("size", 0, 2 ** 62))
    fd = k.install(node, os.O_RDWR, eng.int("fd", 0, 2 ** 31 - 1))
    if how == "opener":
        return "f", dict(opener=lambda n, m: fd)
    return None, {how: fd}


def layers(f):
    """the chain of streams, outermost first"""
    out = [f]
    for _ in range(5):
        d = out[-1].__dict__
        nxt = d.get("wrapped_stream")
        if nxt is None:
            nxt = d.get("_buffer")
        if nxt is None:
            nxt = d.get("_raw")
        if nxt is None:
            break
        out.append(nxt)
    return out


def stack(eng, w, mode, kind="reg"):
    k = prepare(eng, w, mode, kind)
    k.blksize = eng.int("blksize", 0, 2 ** 31)
    S = w.modules["rsfile.rsfile_streams"]
    given = eng.bool("given")
    buffering = eng.int("buffering", -(2 ** 40), 2 ** 40) if given else None
    how = eng.choose("how", ["path", "fileno", "handle", "opener"]) if kind == "reg" else "path"
    first, kw = target(eng, k, mode, how)
    safe = eng.bool("safe")
    text = is_text(mode)
    if given:
        kw["buffering"] = buffering
    unbuffered = given and eng.truth(eq(buffering, 0))
    n_opened = len(k.opened)
    try:
        f = w.rsfile.rsopen(first, mode, locking=False, thread_safe=safe, **kw)
    except ValueError as e:
        e.__traceback__ = None
        eng.check(unbuffered and text, "refused", repr(e))
        eng.reach("unbuffered-text")
        return
    eng.check(not (unbuffered and text), "unbuffered text is accepted")
    chain = layers(f)
    if safe:
        eng.check(type(f) is S.RSThreadSafeWrapper, "the stream is not protected", repr(type(f)))
        chain = chain[1:]
    else:
        eng.reach("no-wrapper")
    eng.check(not any(type(x) is S.RSThreadSafeWrapper for x in chain), "the stream is protected although this was not asked for, or twice")
    raw = chain[-1]
    eng.check(type(raw) is w.rsfile.RSFileIO and isinstance(raw, w.rsfile.RSFileIOAbstract), "no raw stream at the end of the chain", repr(type(raw)))
    eng.check(raw is getattr(chain[0], "raw", raw) or len(chain) == 3, "wrong raw attribute")
    if unbuffered:
        eng.check(len(chain) == 1, "an unbuffered stream is buffered", repr(chain))
        eng.reach("raw")
        f.close()
        return
    eng.check(len(chain) == (3 if text else 2), "wrong number of layers", repr([type(x).__name__ for x in chain]))
    buf = chain[-2]
    r, wr = access(mode)
    want = S.RSBufferedRandom if r and wr else S.RSBufferedReader if r else S.RSBufferedWriter
    eng.check(type(buf) is want, "wrong kind of buffer", repr(type(buf)))
    eng.reach("random" if r and wr else "reader" if r else "writer")
    line = kind == "tty" if not given else Or(eq(buffering, 1), And(lt(buffering, 0), kind == "tty"))
    default = Or(line, lt(buffering, 0)) if given else True
    # binary streams have no line buffering: 1 is the default size for them, too
    block = gt(k.blksize, 1)
    size = If(default, If(block, k.blksize, 8192), buffering if given else 0)
    eng.check(eq(buf.buffer_size, wrap(size)), "wrong buffer size", repr(buf.buffer_size))
    if not eng.truth(default):
        eng.reach("given-size")
    elif eng.truth(block):
        eng.reach("block-size")
    else:
        eng.reach("default-size")
    if text:
        top = chain[0]
        eng.check(type(top) is S.RSTextIOWrapper, "wrong kind of text stream", repr(type(top)))
        eng.reach("text")
        eng.check(eng.truth(line) == bool(top.line_buffering), "wrong line buffering", repr(top.line_buffering))
        if top.line_buffering:
            eng.reach("tty-lines" if kind == "tty" else "line-buffered")
        eng.check(top.buffer is buf, "wrong buffer attribute")
    f.close()
    eng.check(raw.closed and buf.closed and chain[0].closed, "a layer is left open")


def keep(eng, w, mode):
    """what fits into the buffer stays there, the rest reaches the file; lines reach the file when buffered by line"""
    k = prepare(eng, w, mode)
    node = k.fs[b"f"]
    k.blksize = eng.int("blksize", 2, 2 ** 20)
    buffering = eng.int("buffering", -1, 2 ** 30)
    eng.assume(ne(buffering, 0))
    kw = dict(newline="\n") if is_text(mode) else {}
    f = w.rsfile.rsopen("f", mode, buffering=buffering, locking=False, thread_safe=eng.bool("safe"), **kw)
    line = eq(buffering, 1)
    size = wrap(If(Or(lt(buffering, 0), line), k.blksize, buffering))
    before = node.size
    if is_text(mode):
        data = eng.choose("text", ["x", "x\n", "\n", "x\ny"])
        n = len(data)
        eng.check(f.write(data) == n, "wrong result of write()")
        now = And(line, "\n" in data)
        kept = And(le(n, size), Not(now))
        at = 0 if mode.lower()[:2] in ("rw", "r+") else before
        if eng.truth(now):
            grown = wrap(If(ge(add(at, n), before), add(at, n), before))
            eng.check(eq(node.size, grown), "a line is kept in the buffer", repr(node.size))
            eng.reach("flushed")
        elif eng.truth(kept):
            # small text may stay in the text layer
            eng.check(eq(node.size, before), "data which fits into the buffer is written at once")
            eng.reach("kept")
    else:
        n = eng.int("n", 0, 2 ** 40)
        data = eng.data("d", n)
        eng.check(eq(f.write(data), n), "wrong result of write()")
        at = 0 if mode.lower()[:2] in ("rw", "r+") else before
        if eng.truth(le(n, size)):
            eng.check(eq(node.size, before), "data which fits into the buffer is written at once")
            eng.reach("kept")
        else:
            end = add(at, n)
            eng.check(eq(node.size, wrap(If(ge(end, before), end, before))), "data is left in the buffer although it does not fit")
            eng.reach("flushed")
    f.close()


def perms(eng, w, mode):
    """the permissions are those of new files only, less the umask"""
    k = w.kernel
    k.umask = eng.choose("umask", [0o022, 0, 0o027, 0o077, 0o133, 0o777])
    given = eng.bool("given")
    p = eng.int("perms", 0, 0o7777) if given else 0o777
    existing = eng.bool("existing")
    must_create, must_not_create = "x" in mode or "C" in mode, "r" in mode or "N" in mode
    if existing:
        node = k.inode("f", size=eng.int("size", 0, 2 ** 62))
        old = node.perm
    kw = dict(permissions=p) if given else {}
    text = is_text(mode)
    try:
        f = w.rsfile.rsopen("f", mode, buffering=None if text else 0, locking=eng.bool("locking"), thread_safe=False, **kw)
    except OSError as e:
        e.__traceback__ = None
        eng.check(must_create if existing else must_not_create, "refused", repr(e))
        eng.check(existing or b"f" not in k.fs, "a file is left behind")
        return
    node = k.fs[b"f"]
    if existing:
        eng.check(eq(node.perm, old), "the permissions of an existing file are changed")
        eng.reach("old-perms")
    else:
        eng.check(eq(node.perm, p & ~k.umask), "wrong permissions of the new file", repr(node.perm))
        eng.reach("new-perms")
    f.close()


def locks(eng, w, mode):
    """locking=True locks every byte of the file, shared iff the stream is read-only; locking=False locks nothing; neither for pipes"""
    k = w.kernel
    k.symbolic_data = False
    how = eng.choose("how", ["path", "fileno", "handle", "opener"])
    new = "x" in mode or "C" in mode
    kind = "reg" if new else eng.choose("kind", ["reg", "fifo", "chr"])
    r, wr = access(mode)
    if kind != "reg" and r and wr:
        eng.end("pipes in both directions")
    if not (new and how == "path"):
        node = k.inode("f", kind=kind, size=eng.int("size", 0, 2 ** 62) if kind == "reg" else 0)
    if how == "path":
        first, kw = "f", {}
    else:
        fd = k.install(node, os.O_RDWR)
        first, kw = ("f", dict(opener=lambda n, m: fd)) if how == "opener" else (None, {how: fd, "closefd": eng.bool("closefd")})
    locking = eng.choose("locking", [None, True, False])
    if locking is not None:
        kw["locking"] = locking
    buffering = 0 if not is_text(mode) and eng.bool("raw") else None
    f = w.rsfile.rsopen(first, mode, buffering=buffering, thread_safe=eng.bool("safe"), **kw)
    node = k.fs[b"f"]
    b = eng.int("byte", 0, INF - 1)
    held = node.held(k.pid, b)
    if kind != "reg":
        eng.check(eq(held, 0), "a pipe or device is locked")
        eng.reach("not-seekable")
    elif locking is False:
        eng.check(eq(held, 0), "the file is locked")
        eng.reach("unlocked")
    else:
        eng.check(eq(held, 2 if wr else 1), "not the whole file is locked in the mode of the stream")
        eng.reach("locked-exclusive" if wr else "locked-shared")
        g = eng.bool("unlock")
        if g:
            f.unlock_file()
            eng.check(eq(node.held(k.pid, b), 0), "unlock_file() does not remove the lock of the opening")
    f.close()
    eng.check(eq(node.held(k.pid, b), 0), "a lock is left")


class Mutex(object):
    """a mutex of the user, which only counts"""

    def __init__(self):
        self.depth = self.count = 0

    def acquire(self, *a, **kw):
        self.depth += 1
        self.count += 1
        return True

    def release(self):
        self.depth -= 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class FalseMutex(Mutex):
    """a mutex is a mutex, even if it is false as a condition"""

    def __len__(self):
        return 0


def mutex(eng, w, how):
    k = w.kernel
    mode = eng.choose("mode", ["rb", "r", "w+b", "a", "RB", "RIB", "WI", "RWI"])
    k.inode("f", size=0)
    first, kw = target(eng, k, mode, how)
    given = eng.bool("given")
    safe = eng.choose("safe", [None, True, False])
    m = FalseMutex() if given and safe is not False and eng.bool("false") else Mutex()
    if given:
        kw["mutex"] = m
    if safe is not None:
        kw["thread_safe"] = safe
    if not is_text(mode):
        kw["buffering"] = eng.choose("buffering", [0, 100, -1])
    fds, n = len(k.table()) + len(k.symfds.get(k.pid, ())), len(k.opened)
    made = []
    if "opener" in kw:
        inner = kw["opener"]
        kw["opener"] = lambda *a: made.append(1) or inner(*a)
    size = k.fs[b"f"].size
    try:
        f = w.rsfile.rsopen(first, mode, locking=eng.bool("locking"), **kw)
    except ValueError as e:
        e.__traceback__ = None
        eng.check(given and safe is False, "refused", repr(e))
        eng.check(len(k.opened) == n and not made and len(k.table()) + len(k.symfds.get(k.pid, ())) == fds and k.fs[b"f"].size is size and not m.count,
                  "a refused opening has effects")
        eng.reach("mutex-refused")
        return
    eng.check(not (given and safe is False), "a mutex which would not be used is accepted")
    S = w.modules["rsfile.rsfile_streams"]
    if safe is False:
        eng.check(type(f) is not S.RSThreadSafeWrapper, "protected although this was not asked for")
        f.close()
        return
    eng.check(type(f) is S.RSThreadSafeWrapper, "not protected")
    eng.check(m.depth == 0, "the mutex is left locked")
    if given:
        eng.check(f.mutex is m, "not the given mutex is used")
        eng.reach("mutex-given")
        calls = [lambda: f.tell(), lambda: f.flush(), lambda: f.seek(0), lambda: f.size(), lambda: f.readable(), lambda: f.fileno(), lambda: f.close()]
        j = eng.choose("call", range(len(calls)))
        c = m.count
        calls[j]()
        eng.check(m.count > c, "a call is made without the mutex")
        eng.check(m.depth == 0, "the mutex is left locked")
    else:
        g = w.rsfile.rsopen("f", "rb", locking=False)
        eng.check(g.mutex is not f.mutex, "two streams share a mutex")
        kind = getattr(f.mutex, "kind", None)
        if how == "path":
            eng.check((kind == "mp") == ("I" in mode), "wrong kind of mutex", repr(kind))
            eng.reach("mutex-mp" if "I" in mode else "mutex-own")
        with f.mutex:
            f.tell()  # reentrant
        g.close()
    f.close()


TEXTS = [
    {}, dict(encoding="utf-16"), dict(errors="replace"), dict(newline=""), dict(newline="\r\n"), dict(encoding="latin-1", errors="ignore", newline="\n"),
    dict(encoding="ascii", newline="\r"), dict(encoding="utf-8", errors="surrogateescape"),
]


def text(eng, w):
    """the text arguments are those of the stream: compared with a stream of the standard library over a copy of the file"""
    k = w.kernel
    k.symbolic_data = False
    args = eng.choose("args", TEXTS)
    mode = eng.choose("mode", ["r", "w", "a", "r+", "x", "R", "WE"])
    content = b"a\r\nb\rc\n\xff" if args.get("encoding") not in ("ascii", "utf-16") else "a\r\nb\rc\n".encode(args["encoding"])
    if args.get("encoding") not in ("latin-1",) and args.get("errors") is None:
        content = content.replace(b"\xff", b"") if args.get("encoding") != "utf-16" else content
    if mode != "x":
        k.inode("f").set_bytes(content)
    how = eng.choose("how", ["positional", "keyword"])
    if how == "positional":
        f = w.rsfile.rsopen("f", mode, -1, args.get("encoding"), args.get("errors"), args.get("newline"), locking=False, thread_safe=False)
    else:
        f = w.rsfile.rsopen("f", mode, locking=False, thread_safe=eng.bool("safe"), **args)
    o = _pyio.TextIOWrapper(io.BytesIO(content), **args)
    eng.check(f.encoding.lower().replace("_", "-") == o.encoding.lower().replace("_", "-"), "wrong encoding", f.encoding)
    eng.check(f.errors == o.errors, "wrong error handler", f.errors)
    eng.check(f.mode == mode, "wrong mode", f.mode)
    if mode in ("r", "R", "r+"):
        eng.check(f.readlines() == o.readlines() and (args.get("newline") or f.newlines == o.newlines), "text is decoded otherwise")
    if mode not in ("r", "R"):
        if mode == "r+":
            o.write("p\nq")
        else:
            keep = content if mode == "a" else b""
            o = _pyio.TextIOWrapper(io.BytesIO(keep), **args)
            o.seek(0, 2)
            o.write("p\nq")
        f.write("p\nq")
        o.flush()
        want = o.buffer.getvalue()
        f.close()
        g = w.rsfile.rsopen("f", "rb", locking=False)
        got = g.read()
        eng.check(got == want, "text is encoded otherwise", repr((bytes(got), want)))
        g.close()
    f.close()


def windows(eng, w):
    k = w.kernel
    mode = eng.choose("mode", ["rb", "r", "wb", "w", "r+b", "a+", "RWB", "W"])
    k.inode("f", size=eng.int("size", 0, 2 ** 62))
    given = eng.bool("given")
    buffering = eng.int("buffering", -(2 ** 40), 2 ** 40) if given else None
    text_mode = is_text(mode)
    safe = eng.bool("safe")
    unbuffered = given and eng.truth(eq(buffering, 0))
    try:
        f = w.rsfile.rsopen("f", mode, buffering, locking=False, thread_safe=safe)
    except ValueError as e:
        e.__traceback__ = None
        eng.check(unbuffered and text_mode, "refused", repr(e))
        return
    eng.check(not (unbuffered and text_mode), "unbuffered text is accepted")
    S = w.modules["rsfile.rsfile_streams"]
    chain = layers(f)
    eng.check((type(f) is S.RSThreadSafeWrapper) == safe, "wrong protection")
    if safe:
        chain = chain[1:]
    eng.check(len(chain) == (1 if unbuffered else 3 if text_mode else 2), "wrong number of layers")
    r, wr = access(mode)
    if not unbuffered:
        want = S.RSBufferedRandom if r and wr else S.RSBufferedReader if r else S.RSBufferedWriter
        eng.check(type(chain[-2]) is want, "wrong kind of buffer")
        size = If(Or(lt(buffering, 0), eq(buffering, 1)), 8192, buffering) if given else 8192
        eng.check(eq(chain[-2].buffer_size, wrap(size)), "wrong buffer size")
    eng.reach("win")
    f.close()

"""C13 - raw streams read, write, seek and append like a file."""
import errno
from array import array

from checks.reffile import RefFile, same_data, same_file
from symx.engine import And, If, Implies, Min, Not, Or, SymArray, SymBuf, SymBytes, SymView, add, eq, ge, gt, le, lt, ne, sub, sym_len, wrap
from symx.posix import INF

PROPERTY = "C13"
ENCODED = [
    "RSFileIOAbstract.read/readinto/readall/write/seek/tell/size/truncate", "rsfileio_unix.RSFileIO._inner_read/_inner_write/_inner_seek/"
    "_inner_tell/_inner_size", "rsbackend.unix_stdlib.ltell", "RSThreadSafeWrapper proxies",
]
BOUNDS = {
    "quick": "any file of 0..2^60 bytes with any content; any position up to 2^60 (beyond the end too); histories of 2 operations among read, "
             "readinto, readall (up to 3 chunks), write, seek with every whence, tell, size, with symbolic sizes 0..65536; the kernel may "
             "transfer only a part of each transfer; 5 access modes, plain and thread-safe; "
             "arrays (item sizes 1, 2, 4, 8), memoryviews of them and of parts of them, 0..65536 bytes, on raw and buffered streams",
    "thorough": "histories of 3 operations",
}
OUTSIDE = "files larger than 2^60 bytes; readall of more than 3 chunks"
REQUIRED = ["read", "readinto", "readall", "write", "gap", "append", "seek0", "seek1", "seek2", "seek-refused", "denied", "partial", "eof",
            "empty-write", "items-readinto", "items-write"]
TOP = 2 ** 60
BUF = 65536
OPS = ["read", "readinto", "readall", "write", "seek", "tell", "size"]


def cases(tier):
    out = []
    for m in ("RB", "WB", "AB", "RWB", "RAB"):
        for o in OPS:
            for p in (0, 1):
                out.append(dict(name="ops-%s-%s-%d" % (m, o, p), samples=2, range_limit=6,
                                params=dict(mode=m, first=o, partial=p, depth=2 if tier == "quick" else 3)))
    for op in ("readinto", "write"):
        for p in (0, 1):
            for b in (0, 4096):
                for size in (1, 2, 4, 8):
                    out.append(dict(name="items-%s-%d-%d-%d" % (op, p, b, size), harness="items", samples=2, params=dict(
                        op=op, partial=p, buffering=b, size=size)))
    return out


def items(eng, w, op, partial, buffering, size):
    """buffers whose items are longer than a byte: arrays, memoryviews of arrays and of parts of them"""
    k = w.kernel
    old = eng.func("old")
    node = k.inode("f", size=eng.int("size", 0, TOP), base=old)
    mode = eng.choose("mode", ["RWB", "RB"] if op == "readinto" else ["RWB", "WB", "AB"])
    f = w.rsfile.rsopen("f", mode, buffering=buffering, locking=False, thread_safe=False)
    ref = RefFile(old, node.size, mode == "AB")
    p = eng.int("pos", 0, TOP)
    f.seek(p)
    ref.seek(p)
    if size == 1:
        code = eng.choose("typecode", ["b", "B"])
    else:
        code = {2: "h", 4: "i", 8: "d"}[size]
    m = eng.int("items", 0, BUF // 8)
    n = m * size
    was = eng.data("buf", n)
    tgt = array(code, was) if eng.concrete is not None else SymArray(code, size, SymBuf.data(was))
    form = eng.choose("form", ["array", "view", "part"])
    arg = tgt
    skip = 0
    if form != "array":
        arg = memoryview(tgt) if eng.concrete is not None else SymView(tgt, 0, n, size, code)
    if form == "part":
        arg = arg[1:]
        if eng.truth(ge(m, 1)):
            skip = size
    n = n - skip
    k.partial_reads = k.partial_writes = bool(partial)
    k.partial_budget = 1
    x = eng.int("x", 0)
    o = SymBytes.of(was)
    if op == "readinto":
        before = ref.avail()
        r = f.readinto(arg)
        ln, fn = ref.read(n)
        if partial:
            eng.check(And(le(0, r), le(r, ln), Implies(gt(ln, 0), gt(r, 0))), "readinto() returned a wrong count")
        else:
            eng.check(eq(r, ln), "readinto() returned a wrong count")
        t = SymBytes.of(tgt.tobytes())
        eng.check(Implies(lt(x, r), eq(t.fn(add(skip, x)), fn(x))), "readinto(): wrong bytes")
        eng.check(Implies(And(ge(x, add(skip, r)), lt(x, o.n)), eq(t.fn(x), o.fn(x))), "readinto() touched the buffer after the data")
        eng.check(Implies(lt(x, skip), eq(t.fn(x), o.fn(x))), "readinto() touched the buffer before the view")
        eng.reach("items-readinto")
    else:
        r = f.write(arg)
        if partial and not buffering:
            eng.check(And(le(0, r), le(r, n), Implies(gt(n, 0), gt(r, 0))), "write() returned a wrong count")
        else:
            eng.check(eq(r, n), "write() returned a wrong count")
        f.flush()
        ref.write(o[skip:wrap(add(skip, r))] if eng.truth(gt(r, 0)) else b"")
        same_file(eng, node, ref, "file after write()", "z")
        eng.reach("items-write")
    f.close()


def harness(eng, w, mode, first, partial, depth):
    k = w.kernel
    old = eng.func("old")
    size = eng.int("size", 0, TOP)
    node = k.inode("f", size=size, base=old)
    app = "A" in mode
    f = w.rsfile.rsopen("f", mode, buffering=0, locking=False, thread_safe=eng.bool("thread_safe") if first == "tell" else False)
    ref = RefFile(old, size, app)
    if eng.bool("start"):
        p = eng.int("pos", 0, TOP)
        eng.check(eq(f.seek(p), p), "seek() did not return the new position")
        ref.seek(p)
    ofd = k.table()[f.fileno()]
    k.partial_reads = k.partial_writes = bool(partial)
    wr = "W" in mode or app
    rd = "R" in mode
    for d in range(depth):
        op = first if d == 0 else eng.choose("op%d" % d, OPS)
        step(eng, k, f, node, ref, op, rd, wr, ofd, partial, d)
        eng.check(eq(f.tell(), ref.pos), "tell() after " + op)
        eng.check(eq(f.size(), ref.size), "size() after " + op)
        same_file(eng, node, ref, "file content after " + op, "x%d" % d)
    f.close()


def denied(eng, k, f, fn, what):
    n = len([l for l in k.log if l[0] in ("read", "write", "ftruncate")])
    try:
        fn()
    except (OSError, ValueError) as e:
        e.__traceback__ = None
    else:
        eng.fail("operation not allowed by the access mode succeeded", what)
    eng.check(len([l for l in k.log if l[0] in ("read", "write", "ftruncate")]) == n, "a refused operation reached the kernel", what)
    eng.reach("denied")


def transferred(k, name, n0):
    return [l[2][1] for l in k.log[n0:] if l[0] == name and l[2][0] == "ok"]


def step(eng, k, f, node, ref, op, rd, wr, ofd, partial, d):
    n0 = len(k.log)
    if op == "read":
        n = eng.int("n%d" % d, 0, BUF)
        if not rd:
            return denied(eng, k, f, lambda: f.read(n), op)
        before = ref.avail()
        got = f.read(n)
        lens = [sym_len(x) for x in transferred(k, "read", n0)]
        eng.check(len(lens) == 1, "read() did not make exactly one system call")
        if partial:
            eng.check(Implies(eq(lens[0], 0), Or(eq(n, 0), eq(before, 0))), "empty read before the end of file")
            if eng.truth(lt(lens[0], Min(n, before))):
                eng.reach("partial")
        else:
            eng.check(eq(lens[0], Min(n, before)), "read() asked for another size")
        if eng.truth(eq(lens[0], 0)):
            eng.reach("eof")
        ln, fn = ref.read(lens[0])
        same_data(eng, got, ln, fn, "read()", "y%d" % d)
        eng.reach("read")
    elif op == "readinto":
        n = eng.int("n%d" % d, 0, BUF)
        was = eng.data("buf%d" % d, n)
        buf = SymBuf(bytearray(was) if type(was) is bytes else was)
        target = buf if type(was) is not bytes else buf.d
        if not rd:
            return denied(eng, k, f, lambda: f.readinto(target), op)
        before = ref.avail()
        r = f.readinto(target)
        lens = [sym_len(x) for x in transferred(k, "read", n0)]
        eng.check(len(lens) == 1, "readinto() did not make exactly one system call")
        if not partial:
            eng.check(eq(lens[0], Min(n, before)), "readinto() asked for another size")
        ln, fn = ref.read(lens[0])
        eng.check(eq(r, ln), "readinto() returned a wrong count")
        eng.check(eq(sym_len(target), n), "readinto() resized the buffer")
        y = eng.int("y%d" % d, 0)
        t, o = SymBytes.of(target), SymBytes.of(was)
        eng.check(Implies(lt(y, ln), eq(t.fn(y), fn(y))), "readinto(): wrong bytes")
        eng.check(Implies(And(le(ln, y), lt(y, n)), eq(t.fn(y), o.fn(y))), "readinto() touched the buffer after the data")
        eng.reach("readinto")
    elif op == "readall":
        eng.assume(le(ref.avail(), 2 * 8192 + 100))
        if partial:
            k.partial_budget = 1
        if not rd:
            return denied(eng, k, f, lambda: f.read(), op)
        how = eng.choose("how%d" % d, ["read", "read-1", "readall"])
        got = f.readall() if how == "readall" else f.read() if how == "read" else f.read(-1)
        ln, fn = ref.read(None)
        same_data(eng, got, ln, fn, "readall()", "y%d" % d)
        if partial:
            k.partial_budget = None
        eng.reach("readall")
    elif op == "write":
        n = eng.int("n%d" % d, 0, BUF)
        data = eng.data("data%d" % d, n)
        kind = eng.choose("buf%d" % d, ["bytes", "bytearray", "memoryview"]) if d == 0 else "bytes"
        if kind == "bytearray":
            arg = bytearray(data) if type(data) is bytes else SymBuf(data)
        elif kind == "memoryview" and type(data) is bytes:
            arg = memoryview(data)
        elif kind == "memoryview":
            from symx.engine import SymView

            arg = SymView(data)
        else:
            arg = data
        if not wr:
            return denied(eng, k, f, lambda: f.write(arg), op)
        if eng.truth(gt(ref.pos, ref.size)) and not ref.append:
            eng.reach("gap")
        r = f.write(arg)
        done = transferred(k, "write", n0)
        eng.check(len(done) <= 1, "write() made several system calls")
        cnt = done[0] if done else 0
        eng.check(eq(r, cnt), "write() returned a wrong count")
        if not partial:
            eng.check(eq(r, n), "write() wrote a part only")
        elif eng.truth(lt(r, n)):
            eng.reach("partial")
        if eng.truth(eq(n, 0)):
            eng.reach("empty-write")
            ref.write(b"")
        else:
            ref.write(SymBytes.of(data)[:r])
        eng.reach("append" if ref.append else "write")
    elif op == "seek":
        wh = eng.choose("whence%d" % d, [None, 0, 1, 2])
        off = eng.int("off%d" % d, -TOP, TOP)
        base = {None: 0, 0: 0, 1: ref.pos, 2: ref.size}[wh]
        try:
            r = f.seek(off) if wh is None else f.seek(off, wh)
        except OSError as e:
            e.__traceback__ = None
            eng.check(lt(add(base, off), 0), "seek() refused a valid position", str(e))
            eng.reach("seek-refused")
        else:
            eng.check(ge(add(base, off), 0), "seek() accepted a negative position")
            ref.seek(off, wh or 0)
            eng.check(eq(r, ref.pos), "seek() returned a wrong position")
            eng.reach("seek%d" % (wh or 0))
    elif op == "tell":
        eng.check(eq(f.tell(), ref.pos), "tell()")
    elif op == "size":
        eng.check(eq(f.size(), ref.size), "size()")

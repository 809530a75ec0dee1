"""C14 - truncate() sets the exact size, keeps the rest, and does not move the position."""
import errno

from checks.reffile import RefFile, same_data, same_file
from symx.engine import And, If, Implies, Min, Not, Or, SymBytes, add, eq, ge, gt, le, lt, ne, sub, sym_len, wrap
from symx.posix import INF

PROPERTY = "C14"
ENCODED = [
    "RSFileIOAbstract.truncate/size/tell", "rsfileio_unix.RSFileIO._inner_reduce/_inner_extend/_inner_size/_inner_tell",
    "RSBuffered*/RSTextIOWrapper/RSThreadSafeWrapper.truncate (_pyio)",
]
BOUNDS = {
    "quick": "any file of 0..2^60 bytes with any content, any position, any new size 0..2^60 or None or negative, zero_fill given or not, raw and "
             "buffered streams (buffer 2..65536) with pending writes or read-ahead of symbolic sizes, text streams with concrete pending text, "
             "5 access modes, plain and thread-safe; then one more truncate",
    "thorough": "three truncates in a row",
}
OUTSIDE = "files larger than 2^60 bytes; failures of ftruncate (see C22)"
REQUIRED = ["shrink", "grow", "same", "none", "negative", "denied", "pending", "readahead", "text"]
TOP = 2 ** 60


def cases(tier):
    out = []
    n = 2 if tier == "quick" else 3
    for m in ("RB", "WB", "AB", "RWB", "RAB"):
        for b in ("raw", "buffered"):
            for ts in (0, 1):
                if ts and m not in ("RWB",):
                    continue
                out.append(dict(name="truncate-%s-%s-%d" % (m, b, ts), params=dict(mode=m, layer=b, ts=ts, depth=n)))
    for m in ("R", "W", "A", "RW", "RA"):
        out.append(dict(name="text-%s" % m, harness="text", params=dict(mode=m)))
    return out


def harness(eng, w, mode, layer, ts, depth):
    k = w.kernel
    old = eng.func("old")
    size = eng.int("size", 0, TOP)
    node = k.inode("f", size=size, base=old)
    wr = "W" in mode or "A" in mode
    kw = dict(buffering=0)
    if layer == "buffered":
        kw = dict(buffering=eng.int("bufsize", 2, 65536))
    f = w.rsfile.rsopen("f", mode, locking=False, thread_safe=bool(ts), **kw)
    ref = RefFile(old, size, "A" in mode)
    if eng.bool("start"):
        p = eng.int("pos", 0, TOP)
        f.seek(p)
        ref.seek(p)
    if layer == "buffered":
        io = eng.choose("io", ["no", "write", "read"])
        if io == "write" and wr:
            n = eng.int("n", 1, 65536)
            data = eng.data("data", n)
            f.write(data)
            ref.write(data)
            eng.reach("pending")
        elif io == "read" and "R" in mode:
            n = eng.int("n", 1, 65536)
            got = f.read(n)
            ln, fn = ref.read(n)
            same_data(eng, got, ln, fn, "read()")
            eng.reach("readahead")
    for d in range(depth):
        kind = eng.choose("kind%d" % d, ["int", "none", "neg"])
        arg = None
        new = ref.pos
        if kind == "int":
            arg = new = eng.int("new%d" % d, 0, TOP)
        elif kind == "neg":
            arg = eng.int("new%d" % d, -TOP, -1)
        kw = {}
        if layer == "raw" and d == 0 and eng.bool("zf"):
            kw["zero_fill"] = eng.bool("zero_fill")
        n0 = node.writes
        try:
            r = f.truncate(**kw) if kind == "none" and eng.bool("noarg") else f.truncate(arg, **kw)
        except (OSError, ValueError) as e:
            e.__traceback__ = None
            eng.check(kind == "neg" or not wr, "truncate() failed", repr(e))
            if wr and layer == "buffered":
                f.flush()
            else:
                eng.check(node.writes == n0, "a refused truncate() modified the file")
            eng.reach("negative" if wr else "denied")
        else:
            eng.check(wr, "truncate() works on a stream that is not writable")
            eng.check(kind != "neg", "truncate() accepted a negative size")
            if eng.truth(lt(new, ref.size)):
                eng.reach("shrink")
            else:
                eng.reach("grow" if eng.truth(lt(ref.size, new)) else "same")
            if kind == "none":
                eng.reach("none")
            eng.check(eq(r, new), "truncate() did not return the new size")
            ref.truncate(new)
        same_file(eng, node, ref, "file after truncate()", "x%d" % d)
        eng.check(eq(f.size(), ref.size), "size() after truncate()")
        eng.check(eq(f.tell(), ref.pos), "truncate() moved the position")
    # what follows sees the new size and the old position
    if "R" in mode:
        got = f.read(1)
        ln, fn = ref.read(1)
        same_data(eng, got, ln, fn, "read() after truncate()", "z")
    elif wr:
        f.write(b"!")
        ref.write(b"!")
    f.close()
    same_file(eng, node, ref, "file after close()", "x")


def text(eng, w, mode):
    k = w.kernel
    k.symbolic_data = False
    content = b"line1\nline2\nline3\n"
    node = k.inode("f")
    node.set_bytes(content)
    wr = "W" in mode or "A" in mode
    f = w.rsfile.rsopen("f", mode, locking=False, thread_safe=eng.bool("ts"))
    exp = bytearray(content)
    pos = len(content) if "A" in mode else 0
    io = eng.choose("io", ["no", "write", "readline"])
    if io == "write" and wr:
        f.write("text")
        exp[pos:pos + 4] = b"text"
        pos += 4
    elif io == "readline" and "R" in mode:
        f.readline()
        pos = pos if "A" in mode else 6
    kind = eng.choose("kind", ["int", "none", "neg"])
    new = eng.int("new", 0, 30) if kind == "int" else None if kind == "none" else eng.int("new", -TOP, -1)
    try:
        r = f.truncate(new)
    except (OSError, ValueError) as e:
        e.__traceback__ = None
        eng.check(kind == "neg" or not wr, "truncate() failed", repr(e))
        if wr:
            f.flush()
        eng.check(node.get_bytes() == bytes(exp), "a refused truncate() modified the file")
        f.close()
        return
    eng.check(wr and kind != "neg", "truncate() should have failed")
    eng.reach("text")
    n = pos if new is None else new
    eng.check(eq(r, n), "truncate() did not return the new size")
    eng.check(eq(node.size, n), "wrong size after truncate()")
    x = eng.int("x", 0, 40)
    want = If(lt(x, len(exp)), SymBytes.of(bytes(exp)).fn(x), 0)
    eng.check(Implies(lt(x, n), eq(node.content.get(x), want)), "wrong bytes after truncate()")
    eng.check(eq(f.tell(), pos), "truncate() moved the position")
    f.close()
    eng.check(eq(node.size, n), "wrong size after close()")

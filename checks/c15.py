"""C15 - buffered and text streams stay coherent with the file under partial transfers."""
import errno
import io

from checks.reffile import RefFile, same_data, same_file
from symx.engine import And, If, Implies, Min, Not, Or, SymBuf, SymBytes, add, eq, ge, gt, le, lt, ne, sub, sym_len, wrap
from symx.posix import INF

PROPERTY = "C15"
ENCODED = [
    "RSBufferedReader/RSBufferedWriter/RSBufferedRandom/RSTextIOWrapper over the _pyio classes (symbolic bytearray, bytes and memoryview)",
    "RSFileIOAbstract.read/readinto/readall/write/truncate", "rsfile_factories.rsopen (choice of the layers and buffer sizes)",
]
BOUNDS = {
    "quick": "binary: any file of 0..2^40 bytes with any content, any position, buffer size 2..65536, histories of 2 operations (and 5 families of 3) among read(n), "
             "read1, peek, readinto, read(), write, seek (every whence), tell, truncate, flush, size with symbolic sizes 0..70000, one system call "
             "transferring a symbolic part only; text: 5 newline modes x UTF-8 and UTF-16 x histories of 2 writes/reads/seeks of concrete strings with "
             "every split of one transfer",
    "thorough": "binary: histories of 3 operations; text: 3 encodings, two splits",
}
OUTSIDE = "readall of more than 2 chunks of the raw stream; other encodings"
REQUIRED = ["read", "write", "readall", "seek", "flush", "partial-read", "partial-write", "truncate", "closed", "text-write", "text-read", "size"]
TOP = 2 ** 40
BUF = 70000

ROPS = ["read", "readall", "readinto", "read1", "peek"]
WOPS = ["write", "flush", "truncate"]
SOPS = ["seek", "size"]


def cases(tier):
    out = []
    depth = 2 if tier == "quick" else 3
    for m in ("RB", "WB", "AB", "RWB", "RAB"):
        ops = list(SOPS)
        if "R" in m:
            ops += ROPS
        if m != "RB":
            ops += WOPS
        for a in ops:
            if m != "RWB":
                out.append(dict(name="bin-%s-%s" % (m, a), range_limit=6, samples=1, weight=2,
                                params=dict(mode=m, first=[a], depth=depth if m in ("WB", "RB") else depth)))
            else:
                for b in ops:
                    out.append(dict(name="bin-%s-%s-%s" % (m, a, b), range_limit=6, samples=1, weight=3, params=dict(mode=m, first=[a, b], depth=depth)))
    if tier == "quick":
        for t in ("read-write-read", "write-seek-read", "read-seek-write", "write-write-flush", "peek-write-size"):
            out.append(dict(name="bin3-%s" % t, range_limit=6, samples=1, weight=4, params=dict(mode="RWB", first=t.split("-"), depth=3)))
    for m in ("R", "W", "A", "RW", "RA"):
        for nl in (None, "", "\n", "\r\n", "\r"):
            out.append(dict(name="text-%s-%r" % (m, nl), harness="text", samples=1,
                            params=dict(
                    mode=m, newline=nl, depth=2, splits=1 if tier == "quick" else 2,
                    encs=["utf-8", "utf-16-le", "latin-1"] if tier != "quick" else {None: ["utf-8", "utf-16-le"]}.get(nl, ["utf-8"]))))
    return out


def harness(eng, w, mode, first, depth):
    k = w.kernel
    old = eng.func("old")
    size = eng.int("size", 0, TOP)
    node = k.inode("f", size=size, base=old)
    k.partial_reads = k.partial_writes = True
    k.partial_budget = 1
    bs = eng.int("bufsize", 2, 65536)
    f = w.rsfile.rsopen("f", mode, buffering=bs, locking=False, thread_safe=False)
    ref = RefFile(old, size, "A" in mode)
    if eng.bool("start"):
        p = eng.int("pos", 0, TOP)
        f.seek(p)
        ref.seek(p)
    ops = list(SOPS)
    if "R" in mode:
        ops += ROPS
    if mode != "RB":
        ops += WOPS
    pending = False  # append mode: the position is only known once flushed
    for d in range(depth):
        op = first[d] if d < len(first) else eng.choose("op%d" % d, ops)
        step(eng, k, f, node, ref, op, d, mode)
        if op == "write":
            pending = ref.append
        elif op in ("flush", "truncate", "seek", "size", "read", "readall", "readinto", "read1", "peek"):
            pending = False
        if not pending:
            eng.check(eq(f.tell(), ref.pos), "tell() after " + op)
        if op in ("flush", "truncate", "size") and d == depth - 1:
            same_file(eng, node, ref, "file after " + op, "x")
    if k.partial_budget == 0:
        eng.reach("partial-write" if mode in ("WB", "AB") else "partial-read")
    f.close()
    same_file(eng, node, ref, "file after close()", "xc")
    eng.reach("closed")


def step(eng, k, f, node, ref, op, d, mode):
    if op in ("read", "read1", "peek", "readinto"):
        n = eng.int("n%d" % d, 0, BUF)
        if op == "read":
            got = f.read(n)
            ln, fn = ref.read(n)
            same_data(eng, got, ln, fn, "read()", "y%d" % d)
        elif op == "readinto":
            was = eng.data("buf%d" % d, n)
            buf = bytearray(was) if type(was) is bytes else SymBuf(was)
            r = f.readinto(buf)
            ln, fn = ref.read(n)
            eng.check(eq(r, ln), "readinto() returned a wrong count")
            eng.check(eq(sym_len(buf), n), "readinto() resized the buffer")
            y = eng.int("y%d" % d, 0)
            t, o = SymBytes.of(buf), SymBytes.of(was)
            eng.check(Implies(lt(y, ln), eq(t.fn(y), fn(y))), "readinto(): wrong bytes")
            eng.check(Implies(And(le(ln, y), lt(y, n)), eq(t.fn(y), o.fn(y))), "readinto() touched the buffer after the data")
        else:
            before = ref.pos
            avail = wrap(ref.avail())
            got = f.read1(n) if op == "read1" else f.peek(n)
            g = sym_len(got)
            eng.check(Implies(And(gt(avail, 0), gt(n, 0)), gt(g, 0)), op + "() returned nothing before the end of file")
            eng.check(le(g, n) if op == "read1" else True, "read1() returned too much")
            ln, fn = ref.read(g)
            same_data(eng, got, ln, fn, op + "()", "y%d" % d)
            if op == "peek":
                ref.pos = before
        eng.reach("read")
    elif op == "readall":
        eng.assume(le(ref.avail(), 8192 + 100))
        got = f.read()
        ln, fn = ref.read(None)
        same_data(eng, got, ln, fn, "read()", "y%d" % d)
        eng.reach("readall")
    elif op == "write":
        n = eng.int("n%d" % d, 0, BUF)
        data = eng.data("data%d" % d, n)
        r = f.write(data)
        eng.check(eq(r, n), "write() returned a wrong count")
        if eng.truth(eq(n, 0)):
            return
        ref.write(data)
        eng.reach("write")
    elif op == "seek":
        wh = eng.choose("whence%d" % d, [0, 1, 2])
        off = eng.int("off%d" % d, -TOP, TOP)
        base = (0, ref.pos, ref.size)[wh]
        try:
            r = f.seek(off, wh)
        except (OSError, ValueError) as e:
            e.__traceback__ = None
            eng.check(lt(add(base, off), 0), "seek() refused a valid position", repr(e))
        else:
            eng.check(ge(add(base, off), 0), "seek() accepted a negative position")
            ref.seek(off, wh)
            eng.check(eq(r, ref.pos), "seek() returned a wrong position")
        eng.reach("seek")
    elif op == "truncate":
        n = eng.int("t%d" % d, 0, TOP)
        eng.check(eq(f.truncate(n), n), "truncate() returned a wrong size")
        ref.truncate(n)
        eng.reach("truncate")
    elif op == "flush":
        f.flush()
        eng.reach("flush")
    elif op == "size":
        eng.check(eq(f.size(), ref.size), "size() ignores buffered data")
        eng.reach("size")


STRINGS = ["a", "x\n", "\u00e9\u20ac", "l1\nl2\r\nl3\rz"]


def text(eng, w, mode, newline, depth, splits, encs):
    """text streams over a stdlib reference (io.TextIOWrapper on BytesIO) fed with the same calls"""
    k = w.kernel
    k.symbolic_data = False
    k.partial_reads = k.partial_writes = True
    k.partial_budget = splits
    enc = eng.choose("encoding", encs)
    start = "h\u00e9llo\r\nw\u00f6rld\n".encode(enc)
    node = k.inode("f")
    node.set_bytes(start)
    f = w.rsfile.rsopen("f", mode, encoding=enc, errors="replace", newline=newline, locking=False, thread_safe=False, buffering=16)
    b = io.BytesIO(start)
    r = io.TextIOWrapper(b, encoding=enc, errors="replace", newline=newline)
    if "A" in mode:
        r.seek(0, 2)
    wr, rd = "W" in mode or "A" in mode, "R" in mode
    last = None
    for d in range(depth):
        ops = []
        if wr and last not in ("r", "line"):  # the result of writing text after a read without seeking isn't specified
            ops += [("w", s) for s in STRINGS]
        if rd:
            ops += [("r", 1), ("r", 3), ("r", None), ("line", None)]
        ops += [("rewind", 0), ("end", 0)]
        op, a = eng.choose("op%d" % d, ops)
        last = op
        if op == "w":
            if "A" in mode:
                r.seek(0, 2)
            eng.check(f.write(a) == r.write(a), "write() returned a wrong count")
            eng.reach("text-write")
        elif op == "r":
            x, y = (f.read(a), r.read(a)) if a is not None else (f.read(), r.read())
            eng.check(x == y, "read() returned other characters", [x, y])
            eng.reach("text-read")
        elif op == "line":
            x, y = f.readline(), r.readline()
            eng.check(x == y, "readline() returned other characters", [x, y])
        elif op == "rewind":
            f.seek(0)
            r.seek(0)
        elif op == "end":
            f.seek(0, 2)
            r.seek(0, 2)
    f.flush()
    r.flush()
    eng.check(node.get_bytes() == b.getvalue(), "other bytes in the file after flush()", [node.get_bytes(), b.getvalue()])
    eng.check(f.size() == len(b.getvalue()), "size()")
    f.close()
    eng.check(node.get_bytes() == b.getvalue(), "other bytes in the file after close()")

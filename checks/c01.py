"""C01 - mode strings.  rsopen() is executed on a string of symbolic characters (any ASCII code)."""
import errno
import os

from symx.engine import And, If, Iff, Not, Or, SymStr, add, eq, ne, wrap

PROPERTY = "C01"
ENCODED = [
    "rsfile_factories.rsopen", "rsfile_factories.parse_standard_args", "rsfile_factories.parse_advanced_args",
    "RSFileIOAbstract.__init__", "rsfileio_unix.RSFileIO._inner_create_streams", "RSFileIOAbstract.truncate", "_pyio buffers",
]
BOUNDS = {
    "quick": "mode strings of length 0..4 over all 128 ASCII characters, plus length-5..6 strings over the advanced flags; file size 0..2^62; file existing or not",
    "thorough": "mode strings of length 0..6 over all 128 ASCII characters",
}
OUTSIDE = "non-ASCII characters, longer strings"
REQUIRED = ["std-ok", "adv-ok", "rejected", "eexist", "enoent"]
STD = "xarw+bt"
ADV = "RAW+-CNSIEBT"


def cases(tier):
    out = []
    for n in range(0, 5 if tier == "quick" else 7):
        if n < 3:
            out.append(dict(name="any-len%d" % n, params=dict(n=n), samples=3))
        else:
            for first in ("std", "adv", "other"):
                out.append(dict(name="any-len%d-%s" % (n, first), params=dict(n=n, first=first), samples=1, weight=n))
    if tier == "quick":
        for c in "RWA":
            out.append(dict(name="adv-len5-%s" % c, params=dict(n=5, adv=True, fix=c), samples=1, weight=8))
    for a, b in (("r", "RN"), ("r+", "RWN"), ("w", "WE"), ("w+", "RWE"), ("a", "A"), ("a+", "RA"), ("x", "WC"), ("x+", "RWC")):
        out.append(dict(name="equiv-%s" % a, harness="equivalence", params=dict(std=a, adv=b)))
    return out


def oneof(c, s):
    return Or(*[eq(c, ord(x)) for x in s])


def has(codes, ch):
    return Or(*[eq(c, ord(ch)) for c in codes])


def spec(codes):
    """reference semantics, as expressions over the characters: (valid, dict of flags)"""
    n = len(codes)
    dup = Or(*[eq(codes[i], codes[j]) for i in range(n) for j in range(i)])
    h = {ch: has(codes, ch) for ch in set(STD + ADV)}

    def count(chs):
        r = 0
        for ch in chs:
            r = add(r, If(h[ch], 1, 0))
        return r

    std_chars = And(*[oneof(c, STD) for c in codes])
    std = dict(
        read=Or(h["r"], h["+"]), write=Or(h["w"], h["a"], h["x"], h["+"]), append=h["a"], must_create=h["x"],
        must_not_create=h["r"], sync=False, inherit=False, erase=h["w"], binary=h["b"],
    )
    std_ok = And(n > 0, std_chars, Not(dup), eq(count("xarw"), 1), Not(And(h["b"], h["t"])))
    adv_chars = And(*[oneof(c, ADV) for c in codes])
    mc, mn = Or(h["C"], h["-"]), Or(h["N"], h["+"])
    w = Or(h["W"], h["A"])
    adv = dict(
        read=h["R"], write=w, append=h["A"], must_create=mc, must_not_create=mn, sync=h["S"], inherit=h["I"],
        erase=And(h["E"], Not(mc)), binary=h["B"],
    )
    adv_ok = And(
        n > 0, adv_chars, Not(dup), Or(h["R"], w), Not(And(mc, mn)), Or(Not(h["E"]), w, mc), Not(And(h["B"], h["T"])),
    )
    return std_ok, std, adv_ok, adv


def harness(eng, w, n, first=None, adv=False, fix=None):
    k = w.kernel
    codes = [eng.int("c%d" % i, 0, 127) for i in range(n)]
    if first == "std":
        eng.assume(oneof(codes[0], STD))
    elif first == "adv":
        eng.assume(oneof(codes[0], "RAWCNSIEBT-"))
    elif first == "other":
        eng.assume(Not(oneof(codes[0], STD + ADV)))
    if adv:
        for c in codes:
            eng.assume(oneof(c, ADV))
        eng.assume(eq(codes[0], ord(fix)))
    mode = SymStr.make(codes)
    std_ok, std, adv_ok, advf = eng.memo("spec", lambda: spec(codes))
    exists = eng.bool("exists")
    size = eng.int("size", 0, 2 ** 62)
    node = k.inode("f", size=size) if exists else None
    exc = None
    f = None
    try:
        f = w.rsfile.rsopen("f", mode, locking=False, thread_safe=False)
    except (ValueError, TypeError) as e:
        exc = e
        e.__traceback__ = None
    except OSError as e:
        exc = e
        e.__traceback__ = None
    if isinstance(exc, (ValueError, TypeError)) and not isinstance(exc, OSError):
        eng.check(Not(Or(std_ok, adv_ok)), "a valid mode string is rejected")
        eng.check(not k.log, "an invalid mode string touched the system")
        eng.check(("f" in {p.decode() for p in k.fs}) == exists, "an invalid mode string created a file")
        eng.reach("rejected")
        return
    eng.check(Or(std_ok, adv_ok), "an invalid mode string is accepted")
    # which of the two tables applies is determined by the characters ('+' and '-' alone are invalid in both)
    if eng.truth(std_ok):
        fl = std
        kind = "std"
    else:
        fl = advf
        kind = "adv"
    if exc is not None:
        if exc.errno == errno.EEXIST:
            eng.check(And(fl["must_create"], exists), "EEXIST without must-create on an existing file")
            eng.reach("eexist")
        elif exc.errno == errno.ENOENT:
            eng.check(And(fl["must_not_create"], not exists), "ENOENT without must-not-create on a missing file")
            eng.reach("enoent")
        else:
            eng.fail("unexpected OSError on open", str(exc.errno))
        if node is not None:
            eng.check(eq(node.size, size), "failed open changed the file")
        return
    eng.check(Not(And(fl["must_create"], exists)), "must-create open succeeded on an existing file")
    eng.check(Not(And(fl["must_not_create"], not exists)), "must-not-create open succeeded on a missing file")
    eng.reach(kind + "-ok")
    node = k.fs[b"f"]
    ofds = list(k.table().items())
    eng.check(len(ofds) == 1, "exactly one descriptor")
    fd, ofd = ofds[0]
    eng.check(Iff(f.readable(), fl["read"]), "readable()")
    eng.check(Iff(f.writable(), fl["write"]), "writable()")
    eng.check(Iff(ofd.can_read, fl["read"]), "descriptor access (read)")
    eng.check(Iff(ofd.can_write, fl["write"]), "descriptor access (write)")
    eng.check(Iff(bool(ofd.flags & os.O_APPEND), fl["append"]), "append mode")
    eng.check(Iff(ofd.flags & os.O_SYNC == os.O_SYNC, fl["sync"]), "synchronized mode")
    eng.check(Iff(not k.cloexec[(k.pid, fd)], fl["inherit"]), "inheritability")
    eng.check(eq(node.size, If(Or(fl["erase"], not exists), 0, size)), "erasure on opening")
    b = isinstance(f, w.pyio.TextIOBase)
    eng.check(Iff(not b, fl["binary"]), "text or binary stream")
    eng.check(Or(Not(fl["append"]), not exists, eq(ofd.pos, size)), "append streams start at the end")
    eng.check(Or(fl["append"], eq(ofd.pos, 0)), "streams start at offset 0")
    f.close()


def observe(eng, w, mode, exists, size, path):
    k = w.kernel
    node = k.inode(path, size=size) if exists else None
    n0 = len(k.opened)
    try:
        f = w.rsfile.rsopen(path, mode, locking=False, thread_safe=False, buffering=0 if "b" in mode.lower() else None)
    except OSError as e:
        e.__traceback__ = None
        return ("err", e.errno), None
    node = k.fs[path.encode()]
    fd, _n, flags, perm, created = k.opened[n0]
    r = ("ok", f.readable(), f.writable(), flags, perm, created, k.cloexec[(k.pid, fd)], type(f).__name__, f.mode if "b" in mode.lower() else None)
    pos = k.table()[fd].pos
    f.close()
    return r, (node.size, pos)


def equivalence(eng, w, std, adv):
    """each row of the documented compatibility table"""
    exists = eng.bool("exists")
    size = eng.int("size", 0, 2 ** 62)
    b = eng.choose("suffix", [("", ""), ("b", "B"), ("t", "T")])
    r1, s1 = observe(eng, w, std + b[0], exists, size, "f1")
    r2, s2 = observe(eng, w, adv + b[1], exists, size, "f2")
    eng.check(r1 == r2, "standard mode differs from its advanced equivalent", [repr(r1), repr(r2)])
    if s1 is not None:
        eng.check(And(eq(s1[0], s2[0]), eq(s1[1], s2[1])), "resulting size or position differs")

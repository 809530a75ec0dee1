"""C04 - wrapping native descriptors: any number, closefd, no erasure."""
import errno
import os

from symx.engine import And, If, Implies, Not, Or, eq, ge, gt, le, lt, ne, wrap, add
from symx.posix import INF, EnvLock

PROPERTY = "C04"
ENCODED = [
    "rsfile_factories.rsopen/parse_standard_args/parse_advanced_args", "RSFileIOAbstract.__init__/close/fileno/handle",
    "rsfileio_unix.RSFileIO._inner_create_streams/_inner_close_streams/_inner_fileno/_inner_handle",
    "IntraProcessLockRegistryClass.add_unique_id_data/remove_unique_id_data", "rsfile_utilities.RSFileIOWrapper",
]
BOUNDS = {
    "quick": "symbolic descriptor number 0..2^31-1 (negative: -2^31..-1) x fileno/handle/integer name x 12 modes x raw/buffered/text x "
             "closefd x locking x regular file or fifo; file size and position 0..2^62, universally quantified content byte; the wrapped "
             "file is also optionally locked through another stream; every combination of none or several of path, fileno, handle",
    "thorough": "the same, all modes with all layers, and two streams over the same descriptor",
}
OUTSIDE = "descriptors that are not open or whose access mode is not compatible with the requested mode"
REQUIRED = ["wrapped", "closed", "kept", "negative", "shared-fd", "deferred", "ambiguous"]

MODES = ["r", "rb", "r+b", "w", "wb", "w+b", "a", "ab", "x+b", "RB", "RWEB", "AEB", "RWC", "RWN"]


def cases(tier):
    out = []
    for m in MODES:
        for how in ("fileno", "handle", "name"):
            if how == "name" and m.upper() == m:
                continue
            out.append(dict(name="wrap-%s-%s" % (m, how), samples=1, params=dict(mode=m, how=how)))
            out.append(dict(name="neg-%s-%s" % (m, how), harness="negative", samples=1, params=dict(mode=m, how=how)))
    for m in ("rb", "w+b", "ab"):
        out.append(dict(name="rawclass-%s" % m, harness="rawclass", params=dict(mode=m)))
    out.append(dict(name="two-streams", harness="two", params={}))
    out.append(dict(name="ambiguous", harness="ambiguous", params={}))
    return out


def target(eng, w, kind="reg", fd=None):
    k = w.kernel
    size = eng.int("size", 0, 2 ** 62) if kind == "reg" else 0
    cell = eng.int("cell", 0, 255)
    node = k.inode("f", kind=kind, size=size, base=cell)
    if fd is None:
        fd = eng.int("fd", 0, 2 ** 31 - 1)
    k.install(node, os.O_RDWR, fd)
    ofd = k._ofd(fd)
    if kind == "reg":
        ofd.pos = eng.int("pos", 0, 2 ** 62)
    return node, fd, ofd, size, cell


def is_open(k, ofd):
    return any(o is ofd for o in k.table().values()) or any(o is ofd for _s, o in k.symfds.get(k.pid, ()))


def harness(eng, w, mode, how):
    k = w.kernel
    kind = eng.choose("kind", ["reg", "fifo"])
    node, fd, ofd, size, cell = target(eng, w, kind)
    pos = ofd.pos
    closefd = eng.bool("closefd")
    locking = eng.bool("locking")
    kw = {} if how == "name" else {how: fd}
    updating = "+" in mode or ("R" in mode and "W" in mode)
    if kind == "fifo" and updating and "b" not in mode.lower():
        eng.end("text updating modes need seekable files")
    if "b" in mode.lower() and ((kind == "fifo" and updating) or eng.bool("raw")):
        kw["buffering"] = 0  # the buffered streams of updating modes need seekable files, as in the stdlib
    f = w.rsfile.rsopen(fd if how == "name" else None, mode, closefd=closefd, locking=locking, timeout=0,
                        thread_safe=eng.bool("thread_safe"), **kw)
    eng.reach("wrapped")
    x = eng.int("x", 0, 2 ** 62)
    eng.check(not [l for l in k.log if l[0] in ("open", "ftruncate", "truncate", "write", "unlink")], "wrapping modified or opened something")
    eng.check(And(eq(node.size, size), Implies(lt(x, size), eq(node.content.get(x), cell))), "wrapping changed the file")
    eng.check(eq(f.fileno(), fd), "fileno() is not the wrapped descriptor")
    if kind == "reg":
        eng.check(eq(ofd.pos, size if "a" in mode.lower() else pos), "wrapping moved the position")
    eng.check(Not(And(eq(f.fileno(), fd), f.closed)), "stream closed")
    other = None
    if kind == "reg" and not locking and eng.bool("other"):
        other = w.rsfile.rsopen("f", "RWB", buffering=0, locking=True, timeout=0, thread_safe=False)
    f.close()
    eng.check(f.closed, "not marked as closed")
    if other is not None:
        eng.check(is_open(k, ofd), "the wrapped descriptor was closed while another stream of the process has locks on the file")
        eng.reach("deferred")
        other.close()
        other = None
    eng.check(is_open(k, ofd) == (not closefd), "closefd is not honoured", closefd)
    eng.check(sum(1 for c in k.closed if c[2] is ofd) == int(closefd), "the descriptor was not closed exactly once")
    eng.reach("closed" if closefd else "kept")
    eng.check(And(eq(node.size, size), Implies(lt(x, size), eq(node.content.get(x), cell))), "closing changed the file")
    if not closefd:
        # the descriptor is still usable: wrap it again
        g = w.rsfile.rsopen(None, "RB" if "R" in mode or "r" in mode else "RWB", fileno=fd, buffering=0, locking=False, thread_safe=False)
        eng.check(eq(g.fileno(), fd), "fileno() after rewrapping")
        g.close()
    f = None
    w.collect()
    eng.check(not k.bad_closes, "closed a descriptor that is not open")


def negative(eng, w, mode, how):
    k = w.kernel
    fd = eng.int("fd", -(2 ** 31), -1)
    kw = {} if how == "name" else {how: fd}
    try:
        w.rsfile.rsopen(fd if how == "name" else None, mode, closefd=eng.bool("closefd"), locking=False, thread_safe=False, **kw)
    except (ValueError, TypeError) as e:
        e.__traceback__ = None
        eng.reach("negative")
    else:
        eng.fail("a negative descriptor is accepted")
    w.collect()
    eng.check(not k.log, "a negative descriptor reached the system", repr(k.log[:3]))


def rawclass(eng, w, mode):
    """the raw class of the patched io module wraps without erasing too"""
    k = w.kernel
    node, fd, ofd, size, cell = target(eng, w)
    closefd = eng.bool("closefd")
    f = w.modules["rsfile.rsfile_utilities"].RSFileIOWrapper(fd, mode, closefd=closefd)
    x = eng.int("x", 0, 2 ** 62)
    eng.check(And(eq(node.size, size), Implies(lt(x, size), eq(node.content.get(x), cell))), "wrapping changed the file")
    eng.check(eq(f.fileno(), fd), "fileno() is not the wrapped descriptor")
    f.close()
    eng.check(is_open(k, ofd) == (not closefd), "closefd is not honoured", closefd)


def two(eng, w):
    """two streams over one descriptor: only the one that owns it closes it, once"""
    k = w.kernel
    node, fd, ofd, size, cell = target(eng, w)
    c1 = eng.bool("first_owns")
    f = w.rsfile.rsopen(None, "RWB", fileno=fd, closefd=c1, buffering=0, locking=False, thread_safe=False)
    g = w.rsfile.rsopen(None, "RWB", handle=fd, closefd=not c1, buffering=0, locking=False, thread_safe=False)
    eng.reach("shared-fd")
    first, second = (f, g) if eng.bool("order") else (g, f)
    # closing the one that does not own it leaves the descriptor to the other
    owner, guest = (f, g) if c1 else (g, f)
    guest.close()
    eng.check(is_open(k, ofd), "the guest closed the descriptor")
    eng.check(eq(owner.fileno(), fd), "fileno()")
    owner.close()
    eng.check(not is_open(k, ofd), "the owner did not close the descriptor")
    f = g = first = second = owner = guest = None
    w.collect()
    eng.check(not k.bad_closes, "closed twice")


def ambiguous(eng, w):
    """none, or several, of the path, the fileno and the handle: refused before anything happens"""
    k = w.kernel
    node, fd, ofd, size, cell = target(eng, w)
    fd2 = k.install(k.inode("g", size=size, base=cell), os.O_RDWR)
    mode = eng.choose("mode", ["r", "wb", "RB", "WE"])
    name = eng.choose("name", [None, "f", b"f", "", "fd"])
    fileno = eng.bool("fileno")
    handle = eng.bool("handle")
    given = (name not in (None, "")) + fileno + handle
    if given == 1 and not (name == "fd" and mode.upper() == mode):
        eng.end("a valid call")
    kw = {}
    if fileno:
        kw["fileno"] = fd
    if handle:
        kw["handle"] = fd2
    raw = eng.bool("rawclass")
    if raw and name == "fd":
        eng.end("RSFileIO takes paths only")
    n0 = len(k.log)
    try:
        if raw:
            w.modules["rsfile.rsfile_streams"].RSFileIO(path=name, read="r" in mode.lower(), write="r" not in mode.lower(), closefd=eng.bool("closefd"), **kw)
        else:
            w.rsfile.rsopen(fd if name == "fd" else name, mode, closefd=eng.bool("closefd"), timeout=0, thread_safe=False, **kw)
    except (ValueError, TypeError) as e:
        e.__traceback__ = None
        eng.reach("ambiguous")
    except OSError as e:
        e.__traceback__ = None
        eng.fail("another error for an ambiguous file", repr(e))
    else:
        eng.fail("none or several of path, fileno and handle are accepted")
    w.collect()
    eng.check(len(k.log) == n0, "an invalid call reached the system", repr(k.log[n0:][:3]))
    eng.check(is_open(k, ofd) and is_open(k, k._ofd(fd2)), "an invalid call closed a descriptor")

"""C11 - lock ranges are the ones asked for."""
import errno

from symx.engine import And, If, Implies, Not, Or, add, eq, ex, ge, gt, is_sym, le, lt, ne, sub, wrap
from symx.posix import INF, EnvLock

PROPERTY = "C11"
ENCODED = [
    "RSFileIOAbstract.lock_file/unlock_file/_convert_relative_offset_to_absolute/_lock_remover", "rsfileio_unix.RSFileIO._inner_file_lock/"
    "_inner_file_unlock", "IntraProcessLockRegistryClass.*", "RSBuffered*.lock_file/unlock_file", "RSThreadSafeWrapper proxies",
]
BOUNDS = {
    "quick": "offset -2^61..2^61 or None, length 0..2^61 or None, whence 0/1/2, position and size 0..2^61, share mode None/True/False, access "
             "modes R/W/RW/A/RA, raw/buffered/text/thread-safe layers; the lock is released by unlock_file or by its context manager after the "
             "position and the size changed; invalid values of each argument, and one more lock of the same stream; witness byte over the file",
    "thorough": "two locks with relative ranges held at once, released in any order",
}
OUTSIDE = "range ends beyond 2^62"
REQUIRED = ["locked", "refused-mode", "negative", "ctx", "unlocked", "invalid", "whence1", "whence2", "none-length", "unlock-other"]
TOP = 2 ** 61

STACKS = [
    ("RB", dict(buffering=0)), ("WB", dict(buffering=0)), ("RWB", dict(buffering=0)), ("AB", dict(buffering=0)), ("RAB", dict(buffering=0)),
    ("RWB", dict(buffering=8)), ("RB", dict(buffering=8)), ("WB", dict(buffering=8)), ("R", {}), ("W", {}), ("RW", {}), ("RA", {}),
]


LIGHT = [(None, "default", "default"), (0, "int", "int"), (1, "int", "int"), (2, "int", "int"), (1, "none", "none"), (2, "default", "int"),
         (0, "int", "default")]


def cases(tier):
    out = []
    full = tier != "quick"
    for n, (m, kw) in enumerate(STACKS):
        for ts in (0, 1) if full or n in (2, 10) else (0,):
            for how in ("unlock", "ctx", "exc", "close"):
                if how in ("exc", "close") and not full and n not in (1, 5, 10):
                    continue
                out.append(dict(name="range-%s-%d-%d-%s" % (m, n, ts, how), samples=1, params=dict(mode=m, kw=kw, ts=ts, how=how, full=full)))
            out.append(dict(name="invalid-%s-%d-%d" % (m, n, ts), harness="invalid", samples=1, params=dict(mode=m, kw=kw, ts=ts)))
        if full or n in (0, 1, 2, 8):
            out.append(dict(name="unlockargs-%s-%d" % (m, n), harness="unlockargs", samples=1, params=dict(mode=m, kw=kw, full=full)))
    if tier != "quick":
        for m, kw in (("RWB", dict(buffering=0)), ("RB", dict(buffering=0)), ("RW", {})):
            out.append(dict(name="two-%s-%d" % (m, len(kw)), harness="two", params=dict(mode=m, kw=kw), weight=3))
    return out


def setup(eng, w, mode, kw, ts=0):
    k = w.kernel
    k.symbolic_data = False
    size = eng.int("size", 0, TOP)
    node = k.inode("f", size=size)
    f = w.rsfile.rsopen("f", mode, locking=False, thread_safe=bool(ts), **kw)
    ofd = k.table()[f.fileno()]
    pos = size
    if "A" not in mode:
        if "B" in mode:
            pos = eng.int("pos", 0, TOP)
            f.seek(pos)
        else:
            pos = 0
    return k, node, f, ofd, size, pos


def args(eng, size, pos, tag="", full=True):
    """symbolic arguments and the range they denote"""
    kw = {}
    if full:
        whence = eng.choose("whence" + tag, [None, 0, 1, 2])
        o = eng.choose("okind" + tag, ["default", "none", "int"])
        l = eng.choose("lkind" + tag, ["default", "none", "int"])
    else:
        whence, o, l = eng.choose("style" + tag, LIGHT)
    if whence is not None:
        kw["whence"] = whence
    offset = 0
    if o == "int":
        offset = kw["offset"] = eng.int("offset" + tag, -TOP, TOP)
    elif o == "none":
        kw["offset"] = None
    length = 0
    if l == "int":
        length = kw["length"] = eng.int("length" + tag, 0, TOP)
    else:
        eng.reach("none-length")
        if l == "none":
            kw["length"] = None
    base = {None: 0, 0: 0, 1: pos, 2: size}[whence]
    if whence:
        eng.reach("whence%d" % whence)
    start = add(base, offset)
    end = If(eq(length, 0), INF, add(start, length))
    return kw, start, end


def content_size(node):
    return node.size


def harness(eng, w, mode, kw, ts, how, full):
    k, node, f, ofd, size, pos = setup(eng, w, mode, kw, ts)
    rd, wr = "R" in mode, "W" in mode or "A" in mode
    a, start, end = args(eng, size, pos, "", full)
    s = eng.choose("shared", ["default", None, True, False] if full else ["default", True, False])
    if s != "default":
        a["shared"] = s
    eff = s if s in (True, False) else not wr
    b = eng.int("byte", 0, INF - 1)
    n0 = len(k.log)
    opens = len(k.opened)
    ctx = err = None
    try:
        ctx = f.lock_file(timeout=eng.choose("timeout", [None, 0]) if full else 0, **a)
    except (OSError, ValueError) as e:
        e.__traceback__ = None
        err = e
    ok_mode = rd if eff else wr
    if err is not None:
        eng.check(isinstance(err, OSError), "unexpected exception type", repr(err))
        eng.check(Or(not ok_mode, lt(start, 0)), "lock refused", repr(err))
        eng.check(eq(node.held(k.pid, b), 0), "a refused lock was taken in the kernel")
        eng.check(not [l for l in k.log[n0:] if l[0] == "lockf" and not l[1][1] & 8], "a refused lock reached the kernel")
        eng.reach("negative" if ok_mode else "refused-mode")
        # nothing remains in the process either
        g = w.rsfile.rsopen("f", "RWB", buffering=0, locking=True, timeout=0, thread_safe=False)
        g.close()
        eng.check(eq(ofd.pos, pos), "a refused lock moved the position")
        return
    eng.check(ok_mode, "a share mode that the stream can't own is accepted")
    eng.check(ge(start, 0), "a range starting before the file is accepted")
    inside = And(le(start, b), lt(b, end))
    eng.check(Implies(inside, eq(node.held(k.pid, b), 1 if eff else 2)), "a byte of the range is not locked, or not with the share mode asked for")
    eng.check(Implies(Not(inside), eq(node.held(k.pid, b), 0)), "a byte outside of the range is locked")
    eng.reach("locked")
    eng.check(eq(f.tell() if "B" in mode else pos, pos), "locking moved the position")
    probe(eng, w, node, start, end, eff)
    if how in ("ctx", "exc"):
        body = KeyError("body")
        got = None
        try:
            with ctx:
                # the position and the size move while the lock is held
                if "B" in mode and "A" not in mode:
                    f.seek(eng.int("pos2", 0, TOP))
                if wr:
                    if eng.bool("resize"):
                        f.truncate(eng.int("size2", 0, TOP))
                eng.check(Implies(inside, eq(node.held(k.pid, b), 1 if eff else 2)), "the lock was lost inside the context manager")
                if how == "exc":
                    raise body
        except KeyError as e:
            e.__traceback__ = None
            got = e
        eng.check((got is body) == (how == "exc"), "the context manager altered the exception")
        eng.reach("ctx")
    elif how == "unlock":
        a.pop("shared", None)
        rel = a.get("whence") in (1, 2)
        neg = "offset" in a and a["offset"] is not None and eng.truth(lt(a["offset"], 0))
        if neg or eng.bool("absolute"):
            a = dict(a)
            a.pop("whence", None)
            a["offset"] = wrap(start)
            if eng.bool("moved") and "B" in mode and "A" not in mode:
                f.seek(eng.int("pos2", 0, TOP))
        f.unlock_file(**a)
    else:
        f.close()
    eng.check(eq(node.held(k.pid, b), 0), "a byte remains locked after the release")
    eng.reach("unlocked")
    g = w.rsfile.rsopen("f", "RWB", buffering=0, locking=True, timeout=0, thread_safe=False)
    g.close()


def probe(eng, w, node, start, end, shared):
    """the registry of the process uses the same range: another stream may lock what is left, and only that"""
    g = w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False)
    p0 = eng.int("p0", 0, TOP)
    pl = eng.int("pl", 1, TOP)
    over = And(lt(p0, end), lt(start, add(p0, pl)))
    try:
        g.lock_file(timeout=0, offset=p0, length=pl, shared=False)
    except OSError as e:
        e.__traceback__ = None
        eng.check(over, "another stream can't lock a range that is free")
    else:
        eng.check(Not(over), "another stream can lock the same bytes")
        g.unlock_file(offset=p0, length=pl)
    g.close()


BAD = [
    dict(timeout="x"), dict(timeout=-1), dict(timeout=-0.5), dict(length="x"), dict(length=1.5), dict(length="neg"), dict(offset="x"),
    dict(offset=1.5), dict(whence=3), dict(whence=-1), dict(whence="x"), dict(shared="x"), dict(shared=2),
]


def invalid(eng, w, mode, kw, ts):
    k, node, f, ofd, size, pos = setup(eng, w, mode, kw, ts)
    bad = dict(eng.choose("bad", BAD))
    if bad.get("length") == "neg":
        bad["length"] = eng.int("neg", -TOP, -1)
    n0 = len(node.own_ops)
    a = dict(timeout=0, offset=eng.int("offset", 0, TOP), length=eng.int("length", 0, TOP))
    a.update(bad)
    unlock = eng.bool("unlock") and "timeout" not in bad and "shared" not in bad
    if unlock:
        a.pop("timeout")
        f.lock_file(timeout=0)
        n0 = len(node.own_ops)
    try:
        (f.unlock_file if unlock else f.lock_file)(**a)
    except (ValueError, TypeError) as e:
        e.__traceback__ = None
        eng.reach("invalid")
    else:
        eng.fail("invalid arguments are accepted", repr(bad))
    eng.check(len(node.own_ops) == n0, "invalid arguments reached the kernel")
    if not unlock:
        g = w.rsfile.rsopen("f", "RWB", buffering=0, locking=True, timeout=0, thread_safe=False)
        g.close()


def unlockargs(eng, w, mode, kw, full):
    """unlock_file() releases a lock exactly when its arguments denote the same range"""
    k, node, f, ofd, size, pos = setup(eng, w, mode, kw)
    a, start, end = args(eng, size, pos, "", full)
    if eng.truth(lt(start, 0)):
        eng.end("negative start")
    wr = "W" in mode or "A" in mode
    f.lock_file(timeout=0, **a)
    if not wr or eng.bool("move") is False:
        p2 = pos
    if "B" in mode and "A" not in mode:
        p2 = eng.int("pos2", 0, TOP)
        f.seek(p2)
    else:
        p2 = pos
    u, ustart, uend = args(eng, size, p2, "u", full)
    b = eng.int("byte", 0, INF - 1)
    same = And(eq(start, ustart), eq(end, uend))
    inside = And(le(start, b), lt(b, end))
    try:
        f.unlock_file(**u)
    except (ValueError, RuntimeError) as e:
        e.__traceback__ = None
        # a negative offset can't be given to unlock_file()
        neg = lt(u["offset"], 0) if u.get("offset") is not None else False
        eng.check(Or(Not(same), neg), "unlocking the same range was refused", repr(e))
        eng.check(Implies(inside, eq(node.held(k.pid, b), 2 if wr else 1)), "a refused unlock released a byte")
        eng.reach("unlock-other")
    else:
        eng.check(same, "another range was unlocked")
        eng.check(eq(node.held(k.pid, b), 0), "a byte remains locked")


def two(eng, w, mode, kw):
    k, node, f, ofd, size, pos = setup(eng, w, mode, kw)
    wr = "W" in mode or "A" in mode
    held = []
    for t in "12":
        a, start, end = args(eng, size, pos, t)
        if eng.truth(lt(start, 0)):
            eng.end("negative start")
        over = Or(*[And(lt(start, e), lt(s, end)) for s, e, _c in held])
        try:
            c = f.lock_file(timeout=0, **a)
        except RuntimeError as e:
            e.__traceback__ = None
            eng.check(over, "RuntimeError without overlapping")
            continue
        eng.check(Not(over), "locked twice")
        held.append((start, end, c))
    b = eng.int("byte", 0, INF - 1)
    if len(held) == 2 and eng.bool("swap"):
        held.reverse()
    if "B" in mode:
        f.seek(eng.int("pos2", 0, TOP))
    while held:
        for s, e, c in held:
            eng.check(Implies(And(le(s, b), lt(b, e)), eq(node.held(k.pid, b), 2 if wr else 1)), "a held byte is not locked")
        s, e, c = held.pop()
        with c:
            pass
        eng.check(Implies(And(le(s, b), lt(b, e)), eq(node.held(k.pid, b), 0)), "a released byte is still locked")

"""C10 - lock timeouts are honoured, and a failed attempt leaves nothing behind."""
import errno

from symx.engine import And, If, Implies, Min, Not, Or, add, eq, ex, ge, gt, le, lt, ne, sub, wrap
from symx.posix import INF, EnvLock
from symx.sched import Deadlock

PROPERTY = "C10"
ENCODED = [
    "RSFileIOAbstract.lock_file (attempt loop, check_timeout, cancellation)", "rsfileio_unix.RSFileIO._inner_file_lock/_inner_file_lock_cancel/"
    "_inner_file_unlock", "IntraProcessLockRegistryClass.register_file_lock/unregister_file_lock/get_unlocked_ranges", "set_rsfile_options",
    "lock_file of the buffered, text and thread-safe layers", "rsfile_factories.rsopen (locking, timeout)",
]
BOUNDS = {
    "quick": "one attempt of a stream against a lock of another process (symbolic range, share mode and release instant, or never released), against "
             "a lock of another stream of the process (symbolic range, share mode, released by unlock or close during a symbolic polling pause), or "
             "against both, the latter released or not; timeout 0..4 s (symbolic, multiples of 1/256; 0..2 s in the combined and fault scenarios), None, or None with an enforced option alike; polling delay 1..2 s; refusals "
             "EAGAIN and EACCES; one failing or interrupted system call or pause; symbolic time spent anywhere (lower bound and cleanup); every layer",
    "thorough": "polling delay down to 1/2 s, two injected faults, all layers with all scenarios",
}
OUTSIDE = "clocks going backwards; range ends beyond 2^62; more than 9 polls; waiting threads are C09"
REQUIRED = ["free", "waited", "timeout", "enforced", "never", "interrupted", "fault", "peer-released", "opened", "open-timeout", "kept-own", "kept-peer"]
TOP = 2 ** 61

LAYERS = {
    "raw": ("RWB", dict(buffering=0)), "rawR": ("RB", dict(buffering=0)), "rawW": ("WB", dict(buffering=0)), "buf": ("RWB", dict(buffering=8)),
    "bufR": ("RB", {}), "bufA": ("AB", {}), "text": ("RW", {}), "textR": ("R", {}), "ts": ("RWB", dict(thread_safe=True)),
}


def dy(eng, name, lo, hi):
    """a time in 1/256 s (exact in floating point too)"""
    return eng.int(name, lo * 256, hi * 256) / 256


def cases(tier):
    out = []
    full = tier != "quick"
    for lay in LAYERS:
        for mode in ("timeout", "zero", "none", "enforced"):
            for who in ("env", "peer", "both", "relay", "free"):
                if who == "relay" and (lay not in ("raw", "rawR") or mode not in ("timeout", "enforced")):
                    continue
                if who == "both" and not full and (lay, mode) not in (("raw", "timeout"), ("rawR", "enforced"), ("raw", "zero")):
                    continue
                main = lay in ("raw", "rawR") or full
                if not main and not (mode in ("timeout", "enforced") and who == "env" or mode == "zero" and who == "env"):
                    continue
                out.append(dict(name="%s-%s-%s" % (lay, mode, who), samples=1, weight=3 if who in ("both", "relay") else 2, params=dict(
                    lay=lay, mode=mode, who=who, full=full)))
    for lay in ("raw", "rawR", "buf", "text") if full else ("raw", "buf"):
        for what in ("kbd", "err"):
            for mode in ("timeout", "enforced", "none") if full or lay == "raw" else ("timeout",):
                out.append(dict(name="%s-%s-%s" % (what, lay, mode), harness="fault", samples=1, weight=2, params=dict(
                    lay=lay, mode=mode, what=what, full=full)))
    for lay in ("raw", "rawR"):
        for mode in ("timeout", "enforced"):
            out.append(dict(name="clock-%s-%s" % (lay, mode), harness="clock", samples=1, weight=2, params=dict(lay=lay, mode=mode)))
    for m in ("rb", "r+b", "wb", "ab", "R", "WE", "RWB"):
        out.append(dict(name="open-%s" % m, harness="opening", samples=1, params=dict(mode=m, full=full)))
    return out


def span(eng, tag):
    start = eng.int(tag + "_start", 0, TOP)
    length = eng.int(tag + "_len", 0, TOP)
    return start, length, wrap(If(eq(length, 0), INF, add(start, length)))


def overlap(a, b, c, d):
    return And(lt(a, d), lt(c, b))


def setup(eng, w, lay, full=False):
    k = w.kernel
    k.symbolic_data = False
    k.lock_errnos = (eng.choose("lockerr", [errno.EAGAIN, errno.EACCES]) if full else errno.EAGAIN,)
    node = k.inode("f", size=eng.int("size", 0, 2 ** 40))
    delay = dy(eng, "delay", 1, 2) if not full else eng.int("delay", 128, 512) / 256
    return k, node, delay


def options(eng, w, mode, delay, top=4):
    """set the options; returns (timeout argument, effective limit)"""
    timeout = enforced = None
    if mode == "timeout":
        timeout = dy(eng, "timeout", 0, top)
    elif mode == "zero":
        timeout = eng.choose("zero", [0, 0.0])
    if mode == "enforced":
        enforced = dy(eng, "enforced", 0, top)
    elif mode == "timeout" and eng.bool("option_too"):
        enforced = 0.5  # an explicit timeout is not concerned
    w.rsfile.set_rsfile_options(default_spinlock_delay=delay, enforced_locking_timeout_value=enforced)
    limit = enforced if mode == "enforced" else timeout
    if limit is not None:
        w.kernel.blocked_forever = lambda fd: eng.fail("waits for ever in the kernel in spite of a limit")
    return timeout, limit


def stream(w, lay):
    mode, kw = LAYERS[lay]
    kw = dict(kw)
    kw.setdefault("thread_safe", False)
    return w.rsfile.rsopen("f", mode, locking=False, **kw), mode


class Peer(object):
    """another stream of the same process"""

    def __init__(self, eng, w, node, releasing):
        self.eng, self.w = eng, w
        self.f = w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False)
        self.start, self.length, self.end = span(eng, "p")
        self.shared = eng.bool("p_shared")
        self.kind = 1 if self.shared else 2
        self.f.lock_file(timeout=0, offset=self.start, length=self.length, shared=self.shared)
        self.released = False
        self.releasing = releasing

    def on_sleep(self, d):
        if self.releasing and not self.released and self.eng.bool("p_release"):
            self.released = True
            if self.eng.bool("p_close"):
                self.f.close()
            else:
                self.f.unlock_file(offset=self.start, length=self.length)


def never(eng, tag):
    eng.reach(tag)
    eng.end("blocked for ever, as documented")


def expectations(eng, k, node, now0, limit, delay, err, expired, what):
    now = k.sched.now
    eng.check(ge(sub(now, now0), limit), "%s before the end of the delay" % what, str(err))
    eng.check(le(sub(now, now0), add(limit, delay)), "%s much later than the delay" % what, str(err))
    eng.check(expired, "%s although the range is free" % what, str(err))


def harness(eng, w, lay, mode, who, full):
    k, node, delay = setup(eng, w, lay, full)
    if who == "env":
        k.lock_errnos = (eng.choose("lockerr", [errno.EAGAIN, errno.EACCES]),)
    timeout, limit = options(eng, w, mode, delay, 4 if full or who == "env" else 2)
    f, m = stream(w, lay)
    rd, wr = "R" in m, "W" in m or "A" in m
    peer = env = None
    b = eng.int("byte", 0, INF - 1)
    own = None
    if who == "peer" and rd and wr and mode != "none" and eng.bool("own_too"):
        own = span(eng, "own")
        f.lock_file(timeout=0, offset=own[0], length=own[1], shared=eng.bool("own_shared"))
        own_kind = node.held(k.pid, b)
    if who in ("peer", "both", "relay"):
        if own is None:
            peer = Peer(eng, w, node, who != "both")
        else:
            ps, pl, pe = span(eng, "p")
            eng.assume(Not(overlap(own[0], own[2], ps, pe)))
            g = w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False)
            g.lock_file(timeout=0, offset=ps, length=pl, shared=False)
    if who in ("env", "both", "relay"):
        s, l, e = span(eng, "e")
        rel = add(1000, dy(eng, "e_release", 0, 8)) if (full or who != "relay") and eng.bool("e_released") else None
        env = EnvLock(eng.choose("e_kind", [2, 1]), s, e, rel)
        if peer is not None:
            if env.kind == 2 or peer.kind == 2:
                eng.assume(Not(overlap(s, e, peer.start, peer.end)))
        node.env.append(env)
    k0 = node.held(k.pid, b)
    if peer is not None:
        hook = k.sched.sleep_hook
        k.sched.sleep_hook = lambda d: (hook(d), peer.on_sleep(d))
    start, length, end = span(eng, "a")
    if own is not None:
        eng.assume(Not(overlap(own[0], own[2], start, end)))
    shared = eng.bool("shared") if rd and wr else not wr
    kind = 1 if shared else 2
    now0 = k.sched.now

    def conflicts():
        r = k.conflict(node, kind, start, end)
        if peer is not None and not peer.released:
            r = Or(r, And(overlap(start, end, peer.start, peer.end), not (peer.kind == 1 and kind == 1)))
        if own is not None:
            r = Or(r, overlap(start, end, ps, pe))
        return r

    free_at_start = Not(conflicts())
    ctx = err = None
    try:
        ctx = f.lock_file(timeout=timeout, offset=start, length=length, shared=shared)
    except Deadlock as e:
        e.__traceback__ = None
        eng.check(mode == "none", "lock_file() blocks for ever")
        eng.check(Not(free_at_start), "lock_file() blocks although the range is free")
        never(eng, "never")
    except OSError as e:
        e.__traceback__ = None
        err = e
        eng.check(mode in ("timeout", "zero"), "OSError without a timeout", str(e))
        expectations(eng, k, node, now0, limit, delay, e, conflicts(), "OSError")
        eng.check(e.errno is not None, "error without errno")
        eng.reach("timeout")
    except RuntimeError as e:
        e.__traceback__ = None
        err = e
        eng.check(mode == "enforced", "RuntimeError without the enforced option", str(e))
        expectations(eng, k, node, now0, limit, delay, e, conflicts(), "RuntimeError")
        eng.reach("enforced")
    if err is None:
        eng.check(Not(conflicts()), "a conflicting lock was granted")
        if limit is not None:
            eng.check(le(sub(k.sched.now, now0), add(limit, delay)), "a lock was waited for longer than the delay")
        if k.sched.sleeps:
            eng.reach("waited")
            eng.check(Not(free_at_start), "lock_file() waited although the range was free")
            if peer is not None and peer.released:
                eng.reach("peer-released")
        else:
            eng.reach("free")
        eng.check(Implies(And(le(start, b), lt(b, end)), ge(node.held(k.pid, b), kind)), "the lock is not held")
    else:
        # nothing left in the kernel, and nothing of the others disturbed
        exp = k0
        if peer is not None:
            exp = 0 if peer.released else If(And(le(peer.start, b), lt(b, peer.end)), peer.kind, 0)
            if not peer.released:
                eng.reach("kept-peer")
        if own is not None:
            eng.reach("kept-own")
            eng.check(Implies(And(le(own[0], b), lt(b, own[2])), eq(node.held(k.pid, b), own_kind)), "a failed attempt dropped another lock of the stream")
        eng.check(le(node.held(k.pid, b), exp), "a failed attempt left a lock in the kernel")
        eng.check(ge(node.held(k.pid, b), exp), "a failed attempt dropped a lock of the process")
        # nothing left in the process: as soon as the others are gone, everybody can lock
        if env is not None:
            env.dead = True
        if peer is not None and not peer.released:
            peer.released = True
            peer.f.unlock_file(offset=peer.start, length=peer.length)
        if own is not None:
            g.unlock_file(offset=ps, length=pl)
        again = f if own is not None or eng.bool("same") else w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False)
        try:
            again.lock_file(timeout=0, offset=start, length=length, shared=shared)
        except (OSError, RuntimeError) as e:
            e.__traceback__ = None
            eng.fail("a failed attempt left a lock in the process", str(e))
        again = None
    ctx = f = peer = g = None


def fault(eng, w, lay, mode, what, full):
    """interrupted (KeyboardInterrupt) or failing system calls during the attempt"""
    k, node, delay = setup(eng, w, lay)
    timeout, limit = options(eng, w, mode, delay, 4 if full else 2)
    f, m = stream(w, lay)
    s, l, e_ = span(eng, "e")
    env = EnvLock(2, s, e_, add(1000, dy(eng, "e_release", 0, 8)) if eng.bool("e_released") else None)
    node.env.append(env)
    g = w.rsfile.rsopen("f", "RB", buffering=0, locking=False, thread_safe=False)
    gs, gl, ge_ = span(eng, "p")
    eng.assume(Not(overlap(gs, ge_, s, e_)))
    g.lock_file(timeout=0, offset=gs, length=gl)
    start, length, end = span(eng, "a")
    b = eng.int("byte", 0, INF - 1)
    k0 = node.held(k.pid, b)
    shared = eng.bool("shared") if "R" in m and "W" in m else "W" not in m
    kind = 1 if shared else 2
    now0 = k.sched.now
    k.fault_budget = 2 if full else 1
    k.fault_calls = ("lockf", "sleep")
    k.fault_errnos = ("kbd",) if what == "kbd" else ("sym", errno.EINTR) if full else ("sym",)
    stopped = None
    try:
        f.lock_file(timeout=timeout, offset=start, length=length, shared=shared)
    except Deadlock as e:
        e.__traceback__ = None
        eng.end("blocked for ever in the process")
    except KeyboardInterrupt as e:
        e.__traceback__ = None
        stopped = e
        eng.check(what == "kbd" and bool(k.faults), "KeyboardInterrupt out of nowhere")
        eng.reach("interrupted")
    except (OSError, RuntimeError) as e:
        e.__traceback__ = None
        stopped = e
        eng.check(limit is not None, "a system error ended a lock attempt which has no timeout", str(e))
        eng.check(ge(sub(k.sched.now, now0), limit), "error before the end of the delay", str(e))
        eng.check(le(sub(k.sched.now, now0), add(limit, delay)), "error much later than the delay")
        if k.faults:
            eng.reach("fault")
    k.fault_budget = 0
    if stopped is None:
        eng.check(Implies(And(le(start, b), lt(b, end)), ge(node.held(k.pid, b), kind)), "the lock is not held")
    else:
        eng.check(le(node.held(k.pid, b), k0), "an interrupted attempt left a lock in the kernel")
        eng.check(ge(node.held(k.pid, b), k0), "an interrupted attempt dropped a lock of the process")
        env.dead = True
        g.close()
        h = w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False)
        try:
            h.lock_file(timeout=0)
        except (OSError, RuntimeError) as e:
            e.__traceback__ = None
            eng.fail("an interrupted attempt left a lock in the process", str(e))
        h = None
    f = g = None


def clock(eng, w, lay, mode):
    """time passes anywhere, by any amount: never an error before the delay"""
    k, node, delay = setup(eng, w, lay)
    timeout, limit = options(eng, w, mode, delay)
    f, m = stream(w, lay)
    s, l, e_ = span(eng, "e")
    node.env.append(EnvLock(2, s, e_))
    start, length, end = span(eng, "a")
    b = eng.int("byte", 0, INF - 1)
    now0 = k.sched.now

    def passing(name, args):
        k.sched.now = wrap(add(k.sched.now, dy(eng, "dt", 0, 3)))

    k.pause_hook = passing
    try:
        f.lock_file(timeout=timeout, offset=start, length=length)
    except (OSError, RuntimeError) as e:
        e.__traceback__ = None
        k.pause_hook = None
        eng.check(isinstance(e, OSError) == (mode == "timeout"), "wrong kind of error", repr(e))
        eng.check(ge(sub(k.sched.now, now0), limit), "error before the end of the delay", str(e))
        eng.check(overlap(start, end, s, e_), "error although the range is free", str(e))
        eng.check(eq(node.held(k.pid, b), 0), "a failed attempt left a lock in the kernel")
        for (t, d) in k.sched.sleeps:
            eng.check(le(d, delay), "a pause is longer than the polling delay")
    else:
        eng.check(Not(overlap(start, end, s, e_)), "a conflicting lock was granted")
    k.pause_hook = None
    f = None


def opening(eng, w, mode, full):
    """rsopen(locking=True, timeout=...)"""
    k, node, delay = setup(eng, w, "raw", full)
    timeout, limit = options(eng, w, eng.choose("kind", ["timeout", "enforced"]), delay)
    s, l, e_ = span(eng, "e")
    env = EnvLock(eng.choose("e_kind", [2, 1]), s, e_, add(1000, dy(eng, "e_release", 0, 8)) if eng.bool("e_released") else None)
    node.env.append(env)
    now0 = k.sched.now
    kind = 1 if mode in ("rb", "R") else 2
    b = eng.int("byte", 0, INF - 1)
    try:
        f = w.rsfile.rsopen("f", mode, locking=True, timeout=timeout, thread_safe=False)
    except (OSError, RuntimeError) as e:
        e.__traceback__ = None
        eng.check(isinstance(e, OSError) == (timeout is not None), "wrong kind of error", repr(e))
        expectations(eng, k, node, now0, limit, delay, e, k.conflict(node, kind, 0, INF), "error")
        eng.check(eq(node.held(k.pid, b), 0), "a failed open left a lock in the kernel")
        eng.reach("open-timeout")
    else:
        eng.check(Not(k.conflict(node, kind, 0, INF)), "a conflicting lock was granted")
        eng.check(le(sub(k.sched.now, now0), add(limit, delay)), "a lock was waited for longer than the delay")
        eng.check(eq(node.held(k.pid, b), kind), "the file is not locked")
        eng.reach("opened")
        f.close()
    f = None

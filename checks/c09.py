"""C09 - threads waiting for a lock are woken up; no lost wakeup, no deadlock."""
import errno
import os

from symx.engine import And, If, Implies, Not, Or, add, eq, ex, ge, le, lt, sub, wrap
from symx.posix import INF, EnvLock
from symx.sched import Deadlock

PROPERTY = "C09"
ENCODED = [
    "RSFileIOAbstract.lock_file/unlock_file/close", "IntraProcessLockRegistryClass.* (mutex, condition, waiter count)",
    "rsfileio_unix.RSFileIO._inner_file_lock/_inner_file_unlock/_inner_close_streams/_purge_pending_related_file_descriptors",
]
BOUNDS = {
    "quick": "3 threads with a stream each (blocking lock of a symbolic range and share mode, then release by unlock, context manager or close; or "
             "opening and closing the file; or a non-blocking attempt), every schedule with at most 2 preemptions at system calls and mutex "
             "acquisitions (switches at blocking points are free); 2 threads with at most 2 preemptions between any two source lines of the registry; "
             "two waiters for different parts of what is released; a waiter behind an attempt given up because of another process",
    "thorough": "3 preemptions, line-level preemption with 3 threads",
}
OUTSIDE = "more threads or preemptions; threads holding several locks at once (user deadlocks); a stream shared by threads (C17)"
REQUIRED = ["granted", "waited", "closed", "opener", "gave-up", "refused", "lines"]
TOP = 2 ** 61


def cases(tier):
    out = []
    full = tier != "quick"
    pre = 3 if full else 2
    # programs: L lock and release by unlock, X by its context manager, C by closing, O open and close, T non-blocking attempt
    for progs in ("LL", "LC", "XC", "CC", "LLL", "LLC", "LCC", "LXT", "LCO", "CCO", "LLO", "CTO", "OTL"):
        for how in ("sym", "same", "one"):
            if len(progs) == 3 and not full and (how == "sym" or how == "one" and progs not in ("LCC", "LXT")) or len(progs) == 2 and how == "one":
                continue
            out.append(dict(name="%s-%s" % (progs, how), samples=1, weight=5 if len(progs) == 3 else 2, params=dict(
                progs=progs, ranges=how, preempt=pre - (how != "same" and len(progs) == 3), lines=False)))
    for progs in ("LL", "LC", "CC", "LO", "CO", "CT") + (("LLC", "LCO") if full else ()):
        out.append(dict(name="lines-%s" % progs, samples=1, weight=4, params=dict(progs=progs, ranges="same", preempt=pre - 1, lines=True)))
    for how in ("unlock", "ctx", "close"):
        for shape in ("nested", "apart"):
            out.append(dict(name="together-%s-%s" % (shape, how), harness="together", samples=1, weight=2, params=dict(
                shape=shape, how=how, preempt=pre if shape == "nested" and how != "close" or full else pre - 1)))
    for rel in ("never", "later"):
        out.append(dict(name="behind-%s" % rel, harness="behind", samples=1, params=dict(release=rel, preempt=pre)))
    return out


class Model(object):
    """who holds what, as the threads see it"""

    def __init__(self, eng, w, node):
        self.eng, self.w, self.k, self.node = eng, w, w.kernel, node
        self.held = []
        self.b = eng.int("byte", 0, INF - 1)

    def grant(self, who, kind, start, end):
        eng = self.eng
        for (o, k2, s2, e2) in self.held:
            eng.check(Or(kind == 1 and k2 == 1, Not(And(lt(start, e2), lt(s2, end)))), "two threads hold incompatible locks")
        self.held.append((who, kind, start, end))
        eng.reach("granted")
        self.protected()

    def protected(self):
        for (o, kind, s, e) in self.held:
            self.eng.check(Implies(And(le(s, self.b), lt(self.b, e)), ge(self.node.held(self.k.pid, self.b), kind)),
                           "a held lock does not protect against other processes any more")

    def drop(self, who):
        self.held = [h for h in self.held if h[0] != who]


def pick_range(eng, how, i):
    if how == "same" or how == "one" and i:
        return 10 + 5 * i * (how == "one"), 20, 30 + 5 * i * (how == "one"), 2
    start = eng.int("start%d" % i, 0, TOP)
    length = eng.int("len%d" % i, 0, TOP)
    return start, length, wrap(If(eq(length, 0), INF, add(start, length))), eng.choose("kind%d" % i, [2, 1])


def wait_note(eng, sched):
    if sched.switches:
        eng.reach("waited")


def harness(eng, w, progs, ranges, preempt, lines):
    k = w.kernel
    node = k.inode("f", size=100)
    m = Model(eng, w, node)
    sched = k.sched
    if lines:
        eng.reach("lines")
        sched.trace_lines(p for p in w.files if os.path.basename(p) in ("rsfile_registries.py", "rsfileio_abstract.py", "rsfileio_unix.py"))
    streams = []
    opens = len(k.opened)

    def open_():
        return w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False)

    def make(i, p):
        f = None if p == "O" else open_()
        streams.append(f)
        rng = pick_range(eng, ranges, i) if p != "O" else None

        def body():
            if p == "O":
                open_().close()
                m.protected()
                eng.reach("opener")
                return
            start, length, end, kind = rng
            kw = dict(offset=start, length=length, shared=kind == 1)
            if p == "T":
                try:
                    f.lock_file(timeout=0, **kw)
                except OSError as e:
                    e.__traceback__ = None
                    eng.reach("refused")
                    return
                m.grant(i, kind, start, end)
                m.drop(i)
                f.unlock_file(length=length, offset=start)
                return
            ctx = f.lock_file(**kw)
            m.grant(i, kind, start, end)
            f.tell()  # in the critical section
            m.protected()
            m.drop(i)
            if p == "L":
                f.unlock_file(length=length, offset=start)
            elif p == "X":
                with ctx:
                    pass
            else:
                f.close()
                eng.reach("closed")

        return body

    bodies = [make(i, p) for i, p in enumerate(progs)]
    for i, b in enumerate(bodies):
        sched.spawn(b, "t%d" % i)
    sched.preempt_left = preempt
    run(eng, sched)
    wait_note(eng, sched)
    finish(eng, w, m, streams, opens)


def run(eng, sched):
    sleeps, now = len(sched.sleeps), sched.now
    try:
        sched.run()
    except Deadlock as e:
        e.__traceback__ = None
        eng.fail("threads wait for ever", str(e))
    for t in sched.threads:
        if t.exc is not None:
            eng.fail("exception in a thread", "%s: %r" % (t.name, t.exc))
    sched.preempt_left = 0


def finish(eng, w, m, streams, opens, timed=False):
    k, sched = w.kernel, w.kernel.sched
    if not timed:
        eng.check(not sched.sleeps and sched.now == 1000.0, "threads had to poll or to wait although nothing was locked", repr(sched.sleeps))
    del sched.threads[:]
    eng.check(eq(m.node.held(k.pid, m.b), 0), "a lock remains in the kernel")
    g = w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False)
    try:
        g.lock_file(timeout=0)
    except (OSError, RuntimeError) as e:
        e.__traceback__ = None
        eng.fail("a lock remains in the process", str(e))
    g.close()
    for f in streams:
        if f is not None:
            f.close()
    for (fd, _n, _f, _m, _c) in k.opened[opens:]:
        pass
    eng.check(not k.table(), "descriptors are leaked", repr(sorted(k.table())))
    eng.check(len(k.closed) == len(k.opened) and not k.bad_closes, "a descriptor was closed twice", repr(k.bad_closes))
    eng.check(eq(m.node.held(k.pid, m.b), 0), "a lock remains in the kernel")
    del streams[:]


def behind(eng, w, release, preempt):
    """T0 polls for a range of which another process holds a part; T1 waits, without timeout, for T0 to give up"""
    k = w.kernel
    node = k.inode("f", size=100)
    m = Model(eng, w, node)
    sched = k.sched
    w.rsfile.set_rsfile_options(default_spinlock_delay=1.0)
    streams = [w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False) for _i in range(2)]
    node.env.append(EnvLock(2, 0, 5, None if release == "never" else 1000 + eng.choose("e_release", [0.5, 2.5])))
    start, length = eng.int("start", 5, TOP), eng.int("len", 1, TOP)
    given_up = []

    def t0():
        try:
            streams[0].lock_file(timeout=2, offset=0, length=None)
        except OSError as e:
            e.__traceback__ = None
            given_up.append(sched.now)
            eng.check(release == "never" or sched.now < 1002.5, "gave up although the range was free")
            eng.reach("gave-up")
        else:
            m.grant(0, 2, 0, INF)
            m.drop(0)
            streams[0].unlock_file(offset=0, length=None)
            given_up.append(sched.now)

    def t1():
        streams[1].lock_file(offset=start, length=length, shared=eng.choose("sh", [False, True]))
        m.grant(1, 1, start, add(start, length))
        eng.check(not given_up or sched.now == given_up[0], "the waiting thread was not woken up when the other one gave up")
        m.drop(1)
        streams[1].unlock_file(offset=start, length=length)

    sched.spawn(t0, "t0")
    sched.spawn(t1, "t1")
    sched.preempt_left = preempt
    run(eng, sched)
    node.env[0].dead = True
    finish(eng, w, m, streams, 0, timed=True)


def together(eng, w, shape, how, preempt):
    """every waiter whose range became free gets it at once, whatever the others do with theirs"""
    k = w.kernel
    node = k.inode("f", size=100)
    m = Model(eng, w, node)
    sched = k.sched
    streams = [w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False) for _i in range(4)]
    s1, e1 = eng.int("s1", 0, TOP), eng.int("e1", 1, TOP)
    s2, e2 = eng.int("s2", 0, TOP), eng.int("e2", 1, TOP)
    eng.assume(And(lt(s1, e1), le(e1, s2), lt(s2, e2)))
    got = []
    if shape == "nested":  # one lock covers the ranges of both waiters
        first = dict(offset=s1, length=wrap(sub(e2, s1)))
        ctx = streams[0].lock_file(timeout=0, **first)
    else:  # two locks, one for each waiter
        first = dict(offset=s1, length=wrap(sub(e1, s1)))
        ctx = streams[0].lock_file(timeout=0, **first)
        streams[3].lock_file(timeout=0, offset=s2, length=wrap(sub(e2, s2)))

    def release():
        if how == "unlock":
            streams[0].unlock_file(**first)
        elif how == "ctx":
            with ctx:
                pass
        else:
            streams[0].close()
        if shape == "apart":
            sched.block(lambda: 1 in got)  # the other lock is kept until the first waiter is served
            streams[3].unlock_file(offset=s2, length=wrap(sub(e2, s2)))

    def waiter(i, s, e):
        def body():
            streams[i].lock_file(offset=s, length=wrap(sub(e, s)))
            m.grant(i, 2, s, e)
            got.append(i)
            if shape == "nested":
                sched.block(lambda: len(got) == 2)  # kept until the other waiter is served
            m.drop(i)
            streams[i].unlock_file(offset=s, length=wrap(sub(e, s)))

        return body

    for name, body in (("t1", waiter(1, s1, e1)), ("t2", waiter(2, s2, e2)), ("release", release)):
        sched.spawn(body, name)
    sched.preempt_left = preempt
    run(eng, sched)
    finish(eng, w, m, streams, 0)

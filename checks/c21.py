"""C21 - locks after fork(): the child owns nothing, the parent loses nothing."""
import errno

from symx.engine import And, If, Iff, Implies, Not, Or, add, eq, ex, ge, gt, le, lt, ne, wrap
from symx.posix import INF
from checks.lockhist import Held, overlap, TOP

PROPERTY = "C21"
ENCODED = [
    "IntraProcessLockRegistryClass._check_forking and every method that calls it", "RSFileIOAbstract.lock_file/unlock_file/close",
    "rsfileio_unix.RSFileIO._inner_file_lock/_inner_file_unlock/_inner_close_streams/_purge_pending_related_file_descriptors",
]
BOUNDS = {
    "quick": "3 streams of one file (RW, RW through a hard link, R); 0-2 operations (lock, close) of the parent, fork, 1-3 operations of the child (lock, unlock of its own, "
             "unlock of an arbitrary range, close, open, a second fork), the child ends or not, then 1 operation of the parent and the closing of everything; at most 3 locks "
             "of arbitrary ranges 0..2^61 (length 0 = to infinity), shared or exclusive; a universally quantified witness byte",
    "thorough": "the same histories with one more operation of the parent at the end",
}
OUTSIDE = "forking while another thread is inside the library (documented hazard); descriptors pending in the parent stay open in the child until it ends; " \
          "a grandchild whose pid is the recycled one of its grandparent"
REQUIRED = ["forked", "child-granted", "child-refused", "child-unlock-refused", "child-closed", "parent-granted", "parent-refused", "parent-unlocked",
            "parent-pending", "child-own-conflict", "child-unlocked", "grandchild", "orphan", "child-opened", "reentrant"]
MODES = [("RWB", "f"), ("RWB", "g"), ("RB", "f")]


# (parent before, child, parent after); "lock0s": shared or exclusive, "lock0": exclusive (streams 2 and 3: shared / exclusive)
# "heldN": unlock the Nth lock held, "any0": unlock an arbitrary range
HISTORIES = [
    ("lock0s", "", "held0"),
    ("lock0s", "", "lock0"),
    ("lock0s", "", "lock1s"),
    ("lock0s", "lock0", "held0"),
    ("lock0s", "lock1s", "held0"),
    ("lock0", "lock2", "held0"),
    ("lock2", "lock0s", "held0"),
    ("lock0", "lock1", "lock1"),
    ("lock2", "lock2", "lock1s"),
    ("lock0", "any0", "held0"),
    ("lock0", "any1", "held0"),
    ("lock2", "any2", "any2"),
    ("lock0", "close0", "held0"),
    ("lock0", "close1", "held0"),
    ("lock0", "close1", "lock1s"),
    ("lock0", "close0", "lock1s"),
    ("lock2", "close2", "lock0"),
    ("lock0", "close0 lock1s", "held0"),
    ("lock0", "close1 lock0s", "held0"),
    ("lock0", "close1 lock0s close2", "held0"),
    ("lock0", "open lock3 close3", "held0"),
    ("lock0", "open close3", "held0"),
    ("", "lock0s lock1s", "lock1"),
    ("", "lock0s lock0", "close0"),
    ("", "lock0s held0", "lock1"),
    ("", "lock0s close1 held0", "lock1"),
    ("", "lock0s close0", "lock1"),
    ("", "lock0 close1 close0", "lock2"),
    ("", "lock0", "any0"),
    ("lock0 lock1", "lock2", "held0"),
    ("lock0 lock2", "close0", "held1"),
    ("lock0 lock2", "close2", "held0"),
    ("lock0 lock2", "any2", "held0"),
    ("lock0 close1", "", "held0"),
    ("lock0 close1", "close0", "held0"),
    ("lock0 close1", "close2", "held0"),
    ("lock0 close1", "lock0s", "held0"),
    ("lock0 close1", "lock0s close2 held0", "held0"),
    ("lock0 close1", "any0", "close0"),
    ("lock0 close1", "open close3", "held0"),
    ("lock0 close0", "lock1", "lock1s"),
    ("lock0 close0", "any1", "lock1s"),
    ("lock2 close0", "lock1", "held0"),
    ("lock0", "fork lock0", "held0"),
    ("lock0", "fork any0", "held0"),
    ("lock0", "fork close0", "held0"),
    ("", "lock0s fork lock1s", "lock1"),
    ("", "lock0 fork any0", "lock1"),
    ("", "lock0 fork close0", "lock1"),
    ("lock0", "lock1 fork lock2", "held0"),
    ("lock0", "close1 fork close0", "held0"),
]


def cases(tier):
    out = []
    full = tier != "quick"
    for a, b, c in HISTORIES:
        n = (a + b + c).count("lock")
        out.append(dict(name="%s-fork-%s-back-%s" % (a.replace(" ", "+") or "none", b.replace(" ", "+") or "none", c),
                        samples=1, weight=n * n, params=dict(a=a, b=b, c=c, full=full)))
    return out


class Proc(object):
    """what a process should hold"""

    def __init__(self, pid):
        self.pid = pid
        self.held = []
        self.closed = set()
        self.forking = False


class ForkHist(object):
    def __init__(self, eng, w):
        self.eng, self.w, self.k = eng, w, w.kernel
        self.node = self.k.inode("f", size=0)
        self.k.fs[b"g"] = self.node
        self.streams = []
        self.proc = Proc(self.k.pid)
        self.others = []  # processes which exist too
        self.n = 0
        for m, p in MODES:
            self.open(m, p)
        self.b = eng.int("byte", 0, INF - 1)

    def open(self, mode, path):
        f = self.w.rsfile.rsopen(path, mode, buffering=0, locking=False, thread_safe=False)
        fd = self.k.opened[-1][0]
        self.streams.append(dict(f=f, w="W" in mode, fd=fd, ofd=self.k.table()[fd], born=self.k.pid))

    def alive(self, i):
        return i < len(self.streams) and i not in self.proc.closed

    def who(self):
        return "parent" if self.proc.pid == 100 else "child"

    def op(self, name):
        if name == "fork":
            return self.fork()
        if name.startswith("to"):
            return self.switch(int(name[2:]))
        if name == "open":
            self.open("RWB", "f")
            self.eng.reach("child-opened")
        else:
            shared = name.endswith("s")
            name = name.rstrip("s")
            kind, i = name[:-1], int(name[-1])
            if kind == "held":
                if i < len(self.proc.held):
                    self.unlock_held(i)
            elif kind == "any":
                self.unlock_wrong(i)
            elif kind == "lock":
                self.lock(i, shared)
            else:
                self.close(i)
        self.invariants()

    def range(self):
        j = self.n
        self.n += 1
        offset = self.eng.int("start%d" % j, 0, TOP)
        length = self.eng.int("len%d" % j, 0, TOP)
        return offset, length, wrap(If(eq(length, 0), INF, add(offset, length)))

    def lock(self, i, shared):
        eng, p = self.eng, self.proc
        st = self.streams[i]
        offset, length, end = self.range()
        shared = st["w"] is False or shared and eng.bool("shared%d" % self.n)
        kind = 1 if shared else 2
        own = Or(*[overlap(h.start, h.end, offset, end) for h in p.held if h.h == i])
        other = Or(*[overlap(h.start, h.end, offset, end) for h in p.held if h.h != i and not (h.kind == 1 and kind == 1)])
        foreign = Or(*[overlap(h.start, h.end, offset, end) for q in self.others for h in q.held if not (h.kind == 1 and kind == 1)])
        try:
            st["f"].lock_file(timeout=0, length=length, offset=offset, shared=shared)
        except RuntimeError as e:
            e.__traceback__ = None
            eng.check(own, "RuntimeError, but this process holds no lock on this range through this stream (%s)" % self.who())
            eng.reach("reentrant")
        except OSError as e:
            e.__traceback__ = None
            eng.check(Or(other, foreign), "lock refused although nobody holds an incompatible lock (%s)" % self.who())
            eng.reach(self.who() + "-refused")
            if self.who() == "child" and eng.truth(other):
                eng.reach("child-own-conflict")
        else:
            eng.check(Not(Or(own, other)), "lock granted although this process holds an overlapping one (%s)" % self.who())
            eng.check(Not(foreign), "lock granted although another process holds an overlapping one (%s)" % self.who())
            p.held.append(Held(i, kind, offset, end, length, offset))
            eng.reach(self.who() + "-granted")

    def unlock_held(self, n):
        h = self.proc.held[n]
        self.streams[h.h]["f"].unlock_file(length=h.length, offset=h.offset)
        del self.proc.held[n]
        self.eng.reach(self.who() + "-unlocked")
        self.invariants()

    def unlock_wrong(self, i):
        eng, p = self.eng, self.proc
        offset, length, end = self.range()
        exact = [And(eq(h.start, offset), eq(h.end, end)) if h.h == i else False for h in p.held]
        try:
            self.streams[i]["f"].unlock_file(length=length, offset=offset)
        except RuntimeError as e:
            e.__traceback__ = None
            eng.check(Not(Or(*exact)), "unlocking a held range was refused (%s)" % self.who())
            eng.reach(self.who() + "-unlock-refused")
        else:
            eng.check(Or(*exact), "unlocking a range held by another process succeeded (%s)" % self.who())
            for n, e in enumerate(exact):
                if eng.truth(e):
                    del p.held[n]
                    break

    def close(self, i):
        self.streams[i]["f"].close()
        self.proc.closed.add(i)
        self.proc.held = [h for h in self.proc.held if h.h != i]
        self.eng.reach(self.who() + "-closed")

    def leave(self):
        """keeps the memory of the current process"""
        p = self.proc
        p.streams = self.streams
        p.memory = self.w.memory(*[st["f"] for st in self.streams])
        p.fds = dict(self.k.table())
        self.others.append(p)
        return p

    def fork(self):
        """goes on in the child"""
        pid = self.proc.pid + 100
        self.eng.reach("forked" if pid == 200 else "grandchild")
        self.hooks("before")
        p = self.leave()
        p.forking = True
        self.k.fork(pid)
        self.streams = list(p.streams)
        self.proc = Proc(pid)
        self.proc.closed = set(p.closed)
        self.hooks("after_in_child")
        self.invariants()

    def hooks(self, name):
        for h in self.w._fork_hooks:
            if h.get(name):
                h[name]()

    def switch(self, pid):
        """goes on in another process"""
        if self.proc.pid == pid:
            return
        p, = [p for p in self.others if p.pid == pid]
        self.leave()
        self.others.remove(p)
        self.w._restore(p.memory)
        self.streams, self.proc = p.streams, p
        self.k.pid = pid
        if p.forking:
            p.forking = False
            self.hooks("after_in_parent")
        self.invariants()

    def invariants(self):
        eng, k = self.eng, self.k
        for p in self.others + [self.proc]:
            exp = 0
            for h in p.held:
                exp = If(And(le(h.start, self.b), lt(self.b, h.end)), Max_(h.kind, exp), exp)
            eng.check(eq(self.node.held(p.pid, self.b), exp), "what the kernel protects for a process isn't what its streams hold", p.pid)
        for p in self.others:
            eng.check(k.fds[p.pid] == p.fds, "the descriptors of another process changed")
        eng.check(not k.bad_closes, "close() of a descriptor that is not open", repr(k.bad_closes))
        p = self.proc
        for i, st in enumerate(self.streams):
            here = k.fds[p.pid].get(st["fd"]) is st["ofd"]
            if i not in p.closed:
                eng.check(here, "an open stream lost its descriptor (%s)" % self.who())
            elif here and st["born"] == p.pid:
                eng.check(bool(p.held), "the descriptor of a closed stream is leaked")

    def finish(self):
        for i in range(len(self.streams)):
            if self.alive(i):
                self.close(i)
        self.eng.check(not self.proc.held, "harness: locks left")
        self.invariants()
        self.eng.check(not [fd for fd, o in self.k.table().items() if self.proc.pid == 100], "the parent leaks descriptors")


def Max_(a, b):
    return If(ge(a, b), a, b)


def harness(eng, w, a, b, c, full):
    h = ForkHist(eng, w)
    parent = h.proc
    for o in a.split():
        h.op(o)
    if parent.held and parent.closed:
        eng.reach("parent-pending")
    h.fork()
    for o in b.split():
        h.op(o)
    last = h.proc.pid
    ends = eng.bool("child_ends")
    if ends:
        h.finish()
    h.switch(100)
    h.op(c)
    if full and ends:
        h.op("lock2")
    h.finish()
    if not ends:
        # the child outlives its parent
        h.switch(last)
        for i in (1, 0, 2):
            if h.alive(i):
                h.op("lock%d" % i)
                eng.reach("orphan")
                break
        h.finish()
    for p in h.others + [h.proc]:
        for st in getattr(p, "streams", h.streams):
            st["f"] = None
    h.others = []

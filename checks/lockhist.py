"""
Symbolic histories of open / lock / unlock / close over several streams of one process.

Shared by C06 (exclusion inside the process), C07 (kernel coverage), C08 (descriptor lifetime),
C21 (fork).  Ranges are symbolic; the sequence of operations is a sequence of symbolic choices.
"""
import errno

from symx.engine import And, If, Iff, Implies, Max, Not, Or, add, eq, ex, ge, gt, is_sym, le, lt, ne, sub, wrap
from symx.posix import INF

TOP = 2 ** 61  # start + length stays below the kernel's infinity


class Held(object):
    def __init__(self, h, kind, start, end, length, offset):
        self.h = h  # stream index
        self.kind = kind  # 1 shared, 2 exclusive
        self.start = ex(start)
        self.end = ex(end)
        self.length = length
        self.offset = offset


def overlap(a_start, a_end, b_start, b_end):
    return And(lt(a_start, b_end), lt(b_start, a_end))


class Hist(object):
    def __init__(self, eng, w, modes, paths=None, symbolic=True, checks=("C06", "C07", "C08")):
        self.eng = eng
        self.w = w
        self.k = w.kernel
        self.checks = checks
        self.unlocking_fails = False  # the system may refuse to release a range
        self.symbolic = symbolic
        self.streams = []
        self.held = []
        self.nlock = 0
        self.modes = modes
        self.paths = paths or ["f"] * len(modes)
        self.nodes = {}
        self.closed_fds = {}  # stream -> OFD that must eventually be closed
        for p in self.paths:
            if p not in self.k.fs and p.encode() not in self.k.fs:
                n = self.k.inode(p, size=0)
        if "g" in self.paths and "f" in self.paths and "hardlink" in checks:
            self.k.fs[b"g"] = self.k.fs[b"f"]
        for m, p in zip(modes, self.paths):
            self.open(m, p)
        self.b = eng.int("byte", 0, INF - 1) if symbolic else None

    # ---- operations

    def open(self, mode, path):
        borrowed = mode.endswith("!")  # a descriptor opened by somebody else, wrapped with closefd=False
        if borrowed:
            fd = self.k.install(self.k.fs[path.encode()])
            f = self.w.rsfile.rsopen(None, mode[:-1], fileno=fd, closefd=False, buffering=0, locking=False, thread_safe=False)
        else:
            f = self.w.rsfile.rsopen(path, mode, buffering=0, locking=False, thread_safe=False)
            fd = self.k.opened[-1][0]
        self.streams.append(dict(f=f, open=True, rw="W" in mode, r="R" in mode, path=path, fd=fd, ofd=self.k.table()[fd], borrowed=borrowed))

    def node(self, i):
        return self.k.fs[self.streams[i]["path"].encode()]

    def lock(self, i):
        eng = self.eng
        st = self.streams[i]
        j = self.nlock
        self.nlock += 1
        if self.symbolic:
            offset = eng.int("start%d" % j, 0, TOP)
            length = eng.int("len%d" % j, 0, TOP)
            end = wrap(If(eq(length, 0), INF, add(offset, length)))
        else:
            offset, length = 10 * j, 10
            end = offset + 10
        shared = eng.bool("shared%d" % j) if st["rw"] and st["r"] else not st["rw"]
        kind = 1 if shared else 2
        own = Or(*[overlap(h.start, h.end, offset, end) for h in self.held if h.h == i])
        other = Or(*[
            overlap(h.start, h.end, offset, end)
            for h in self.held
            if h.h != i and self.node(h.h) is self.node(i) and not (h.kind == 1 and kind == 1)
        ])
        try:
            st["f"].lock_file(timeout=0, length=length, offset=offset, shared=shared)
        except RuntimeError as e:
            e.__traceback__ = None
            if "C06" in self.checks:
                eng.check(own, "RuntimeError but the range does not overlap a range held by this stream")
            eng.reach("reentrant")
        except OSError as e:
            e.__traceback__ = None
            if "C06" in self.checks:
                eng.check(other, "lock refused although nothing incompatible overlaps it")
            eng.reach("conflict")
        else:
            if "C06" in self.checks:
                eng.check(Not(own), "the same stream locked an overlapping range twice")
                eng.check(Not(other), "incompatible overlapping locks granted to two streams")
            self.held.append(Held(i, kind, offset, end, length, offset))
            eng.reach("granted")

    def unlock(self, idx):
        h = self.held[idx]
        f = self.streams[h.h]["f"]
        # the same range may be denoted by None or 0 when it is infinite
        self.tolerant(f.unlock_file, length=h.length, offset=h.offset)
        del self.held[idx]
        self.eng.reach("unlocked")

    def unlock_wrong(self, i):
        """unlock of an arbitrary range by stream i"""
        eng = self.eng
        if self.symbolic:
            offset = eng.int("ustart", 0, TOP)
            length = eng.int("ulen", 0, TOP)
        else:
            offset, length = 1000, 10
        end = If(eq(length, 0), INF, add(offset, length))
        exact = [And(eq(h.start, offset), eq(h.end, end)) if h.h == i else False for h in self.held]
        before = list(self.k.log)
        try:
            self.streams[i]["f"].unlock_file(length=length, offset=offset)
        except RuntimeError as e:
            e.__traceback__ = None
            if "C06" in self.checks:
                eng.check(Not(Or(*exact)), "unlocking a held range was refused")
            eng.reach("unlock-refused")
        else:
            if "C06" in self.checks:
                eng.check(Or(*exact), "unlocking a range that is not held succeeded")
            for n, e in enumerate(exact):
                if eng.truth(e):
                    del self.held[n]
                    break

    def tolerant(self, fn, *a, **k):
        """an injected system error may be reported, its effects on the rest must not change"""
        n = len(self.k.faults)
        if self.unlocking_fails:
            self.k.fault_calls = ("lockf",)
        try:
            fn(*a, **k)
        except OSError as e:
            e.__traceback__ = None
            self.eng.check(len(self.k.faults) > n, "unexpected OSError", str(e))
            self.eng.reach("fault")
        finally:
            if self.unlocking_fails:
                self.k.fault_calls = ()

    def reopen(self, i):
        self.open("RWB", self.paths[0])
        self.eng.reach("reopened")

    def close(self, i):
        st = self.streams[i]
        self.tolerant(st["f"].close)
        st["open"] = False
        self.held = [h for h in self.held if h.h != i]
        self.eng.reach("closed")

    # ---- invariants

    def invariants(self):
        eng, k = self.eng, self.k
        nodes = []
        for i in range(len(self.streams)):
            if self.node(i) not in nodes:
                nodes.append(self.node(i))
        for node in nodes:
            mine = [h for h in self.held if self.node(h.h) is node]
            if "C07" in self.checks:
                exp = 0
                for h in mine:
                    exp = If(And(le(h.start, self.b), lt(self.b, h.end)), h.kind, exp)
                got = node.held(k.pid, self.b)
                eng.check(ge(got, exp), "a byte of a held lock is no longer protected in the kernel",
                          [h.h for h in mine])
                eng.check(le(got, exp), "a byte stays locked in the kernel although no stream holds it")
            if "C08" in self.checks:
                for st in self.streams:
                    if self.k.fs[st["path"].encode()] is not node:
                        continue
                    n = sum(1 for c in k.closed if c[2] is st["ofd"])
                    eng.check(n <= 1, "a descriptor was closed twice")
                    if n and not st.get("gone"):
                        st["gone"] = True
                        eng.check(not mine, "a descriptor was closed while the process held locks on the file")
                    if st["borrowed"]:
                        eng.check(n == 0, "a descriptor wrapped with closefd=False was closed")
                    elif st["open"]:
                        eng.check(n == 0, "the descriptor of an open stream was closed")
                    elif not mine:
                        eng.check(n == 1, "the descriptor of a closed stream is leaked")
                    elif not n:
                        eng.reach("deferred")
        if "C08" in self.checks:
            eng.check(not k.bad_closes, "close() of a descriptor that is not open", repr(k.bad_closes))
            eng.reach("fd-state")

    def ops(self, allow):
        out = []
        for i, st in enumerate(self.streams):
            if not st["open"]:
                continue
            if "L" in allow:
                out.append(("lock", i))
            if "C" in allow:
                out.append(("close", i))
            if "X" in allow:
                out.append(("unlock_wrong", i))
        if "O" in allow and len(self.streams) < len(self.modes) + 2:
            out.append(("reopen", 0))
        if "U" in allow:
            for j in range(len(self.held)):
                out.append(("unlock", j))
        return out

    def step(self, op):
        getattr(self, op[0])(op[1])
        self.invariants()

    def finish(self):
        for i, st in enumerate(self.streams):
            if st["open"]:
                self.close(i)
        self.invariants()


def history(eng, w, modes, depth, allow, checks, first=None, paths=None, symbolic=True, finish=True, fault=None):
    if fault:
        w.kernel.fault_budget, w.kernel.fault_calls = 1, (fault,) if fault != "unlock" else ()
    h = Hist(eng, w, modes, paths=paths, symbolic=symbolic, checks=checks)
    h.unlocking_fails = fault == "unlock"
    h.invariants()
    for d in range(depth):
        al = allow[d] if isinstance(allow, (list, tuple)) else allow
        ops = h.ops(al)
        if first is not None and d < len(first):
            sel = [o for o in ops if list(o) == list(first[d])]
            if not sel:
                eng.end("operation not applicable")
            op = sel[0]
        else:
            if not ops:
                break
            op = eng.choose("op%d" % d, ops)
        h.step(op)
    if finish:
        h.finish()
    for st in h.streams:
        st["f"] = None

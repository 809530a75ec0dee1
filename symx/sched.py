"""
symx.sched - virtual threads, locks, conditions and time.

Virtual threads are real Python threads that hand a baton over at scheduling points, so
exactly one runs at a time.  Which thread runs next is a symbolic choice: every feasible
schedule (within the preemption bound) is explored.  In a single-threaded harness the same
classes simply count owners; blocking for ever there is reported as `Deadlock`.
"""
import sys
import threading as _rt

from .engine import Engine, EngineError, PathEnd, SymReal, ex, wrap, ge, is_concrete, add


_MON = dict(sched=None, on=False)


def _on_line(code, line):
    s = _MON["sched"]
    if s is None:
        return None
    if code.co_filename not in s.trace_files:
        return sys.monitoring.DISABLE
    if s.preempt_left > 0 and s.cur is not s.main:
        s.point("line")
    return None


def _monitor(sched):
    mon = sys.monitoring
    if not _MON["on"]:
        _MON["on"] = True
        mon.use_tool_id(4, "symx")
        mon.register_callback(4, mon.events.LINE, _on_line)
        mon.set_events(4, mon.events.LINE)
    if _MON["sched"] is None or _MON["sched"].trace_files != sched.trace_files:
        mon.restart_events()
    _MON["sched"] = sched


class Deadlock(Exception):
    """nobody can run any more"""


class _VThread(object):
    def __init__(self, name):
        self.name = name
        self.sem = _rt.Semaphore(0)
        self.done = False
        self.pred = None  # blocked until pred() is true
        self.wake = None  # ... or until this time
        self.timed_out = False
        self.exc = None
        self.result = None
        self.real = None
        self.ident = 1


class Sched(object):
    def __init__(self, eng):
        self.eng = eng
        self.now = 1000.0
        self.symclock = False
        self.main = _VThread("main")
        self.cur = self.main
        self.threads = []
        self.preempt_left = 0
        self.trace_files = None
        self.max_switch = 400
        self.switches = 0
        self.points = 0
        self.sleep_hook = None
        self.sleeps = []
        self.on_stuck = None
        self.events = []

    # ---- time

    def time(self):
        self.eng._check_abort()
        if self.symclock:
            self.now = wrap(ex(self.now) + ex(self.eng.real("dt", 0)))
        return self.now

    def sleep(self, d):
        self.eng._check_abort()
        if not isinstance(d, (int, float)):
            raise TypeError("sleep() needs a number")
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        self.sleeps.append((self.now, d))
        if self.sleep_hook is not None:
            self.sleep_hook(d)
        if self.multi():
            self.block(lambda: False, d)
        else:
            self.now = wrap(add(self.now, d))

    # ---- threads

    def multi(self):
        return len(self.threads) > 0

    def spawn(self, fn, name):
        t = _VThread(name)
        t.ident = len(self.threads) + 2
        eng = self.eng

        def body():
            t.sem.acquire()
            try:
                if eng.aborting is None:
                    t.result = fn()
            except BaseException as e:  # noqa
                t.exc = e
                e.__traceback__ = None
            finally:
                t.done = True
                self._finish(t)

        t.real = _rt.Thread(target=body, daemon=True)
        self.threads.append(t)
        return t

    def trace_lines(self, files):
        """every source line of these files becomes a scheduling point"""
        self.trace_files = frozenset(files)
        _monitor(self)

    def run(self):
        """run all spawned threads to completion; raises Deadlock when stuck"""
        for t in self.threads:
            t.real.start()
        try:
            while not all(t.done for t in self.threads):
                nxt = self._pick()
                self._switch_to(nxt)
                if self.eng.aborting is not None:
                    break
                if self._stuck:
                    break
        finally:
            self._kill()
        if self.eng.aborting is not None:
            raise self.eng.aborting
        if self._stuck:
            raise Deadlock(", ".join(t.name for t in self.threads if not t.done_before_kill))
        for t in self.threads:
            if isinstance(t.exc, EngineError):
                raise t.exc

    _stuck = False

    def _kill(self):
        for t in self.threads:
            t.done_before_kill = t.done
        saved = self.eng.aborting
        for t in self.threads:
            if not t.done:
                if self.eng.aborting is None:
                    self.eng.aborting = PathEnd("thread killed")
                self.killing = True
                t.sem.release()
                t.real.join(20)
                if t.real.is_alive():
                    raise EngineError("virtual thread does not stop")
        self.killing = False
        for t in self.threads:
            t.real.join(20)
        self.eng.aborting = saved
        self.cur = self.main

    killing = False

    def _finish(self, t):
        if self.killing:
            return
        # hand the baton back to the main loop
        self.cur = self.main
        self.main.sem.release()

    def _switch_to(self, t):
        """main loop -> thread; returns when the baton comes back"""
        self.cur = t
        t.sem.release()
        self.main.sem.acquire()

    def _runnable(self):
        return [t for t in self.threads if not t.done and (t.pred is None or t.pred())]

    def _pick(self, exclude=None):
        r = self._runnable()
        if not r:
            timed = [t for t in self.threads if not t.done and t.wake is not None]
            if timed:
                w = min(t.wake for t in timed)
                if w > self.now:
                    self.now = w
                r = [t for t in timed if t.wake <= self.now]
                if len(r) > 1:
                    r = [self.eng.choose("wake", r)]
                for t in r:
                    t.timed_out = True
                    t.pred = None
                    t.wake = None
            else:
                self._stuck = True
                return self.main
        if len(r) == 1:
            return r[0]
        return self.eng.choose("sched", r)

    def point(self, label):
        """possible preemption"""
        self.eng._check_abort()
        if not self.threads or self.cur is self.main:
            return
        self.points += 1
        if self.preempt_left <= 0:
            return
        others = [t for t in self._runnable() if t is not self.cur]
        if not others:
            return
        c = self.eng.choose("preempt", [None] + others)
        if c is None:
            return
        self.preempt_left -= 1
        self._handover(c)

    def _handover(self, t):
        me = self.cur
        self.switches += 1
        if self.switches > self.max_switch:
            self.eng.end("too many context switches")
        if t is self.main:
            self.cur = self.main
            self.main.sem.release()
        else:
            self.cur = t
            t.sem.release()
        me.sem.acquire()
        if self.eng.aborting is not None:
            raise self.eng.aborting
        self.cur = me

    def block(self, pred, timeout=None):
        """block the current thread until pred(); returns False when the timeout elapsed first"""
        self.eng._check_abort()
        if pred():
            return True
        if not self.threads or self.cur is self.main:
            if self.on_stuck is not None and self.on_stuck():
                if pred():
                    return True
            if timeout is None:
                raise Deadlock("single thread blocked for ever")
            self.now = wrap(add(self.now, timeout))
            return False
        me = self.cur
        me.pred = pred
        me.timed_out = False
        me.wake = None if timeout is None else self.now + timeout
        # the stack of a blocked thread holds the baton: give it to the next one
        try:
            nxt = self._pick()
        except BaseException:
            # aborting inside a scheduling decision: return to main
            raise
        if nxt is not me:
            self._handover(nxt)
        r = not me.timed_out
        me.pred = None
        me.wake = None
        me.timed_out = False
        return r


class VLock(object):
    reentrant = False

    def __init__(self, world, kind="lock"):
        self.world = world
        self.kind = kind
        self.owner = None
        self.count = 0
        self.acquired = 0
        world.all_locks.append(self)

    def _reset(self):
        self.owner = None
        self.count = 0
        self.acquired = 0

    def acquire(self, blocking=True, timeout=-1):
        s = self.world.sched
        me = s.cur
        if self.reentrant and self.owner is me:
            s.eng._check_abort()
            self.count += 1
            return True
        s.point("acquire")
        if self.owner is not None:
            if not blocking:
                return False
            if not s.block(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout):
                return False
        self.owner = me
        self.count = 1
        self.acquired += 1
        return True

    def release(self):
        s = self.world.sched
        if s.eng.aborting is not None:
            return
        if self.owner is None or (self.reentrant and self.owner is not s.cur):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by Condition
    def _release_save(self):
        st = (self.owner, self.count)
        self.owner = None
        self.count = 0
        return st

    def _acquire_restore(self, st):
        self.world.sched.block(lambda: self.owner is None)
        self.owner, self.count = st

    def _is_owned(self):
        return self.owner is self.world.sched.cur


class VRLock(VLock):
    reentrant = True


class VCondition(object):
    def __init__(self, world, lock=None):
        self.world = world
        self.lock = lock if lock is not None else VRLock(world)
        self.acquire = self.lock.acquire
        self.release = self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        if not self.lock._is_owned():
            raise RuntimeError("cannot wait on un-acquired lock")
        s = self.world.sched
        w = [False]
        self.waiters.append(w)
        st = self.lock._release_save()
        try:
            r = s.block(lambda: w[0], timeout)
        finally:
            if w in self.waiters:
                self.waiters.remove(w)
            if s.eng.aborting is None:
                self.lock._acquire_restore(st)
        return r

    def wait_for(self, predicate, timeout=None):
        s = self.world.sched
        end = None if timeout is None else s.now + timeout
        r = predicate()
        while not r:
            left = None if end is None else end - s.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        if not self.lock._is_owned():
            raise RuntimeError("cannot notify on un-acquired lock")
        for w in self.waiters[:n]:
            w[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class VEvent(object):
    def __init__(self, world):
        self.world = world
        self.flag = False

    def is_set(self):
        return self.flag

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        return self.world.sched.block(lambda: self.flag, timeout)


class VSemaphore(object):
    def __init__(self, world, value=1):
        self.world = world
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        s = self.world.sched
        s.point("acquire")
        if self.value <= 0:
            if not blocking or not s.block(lambda: self.value > 0, timeout):
                return False
        self.value -= 1
        return True

    __enter__ = acquire

    def release(self, n=1):
        if self.world.sched.eng.aborting is None:
            self.value += n

    def __exit__(self, *a):
        self.release()

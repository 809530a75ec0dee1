"""C17 - thread-safe streams run one call at a time."""
import os

from symx.engine import And, If, Implies, Or, SymBytes, add, eq, ex, ge, le, lt, sub, sym_len
from symx.sched import Deadlock

PROPERTY = "C17"
ENCODED = [
    "RSThreadSafeWrapper.__init__/__getattr__/_secure_call/__iter__/__next__/__enter__/__exit__", "rsfile_factories.rsopen (thread_safe, mutex, "
    "is_interprocess)", "write/read/seek/... of RSFileIO, RSBuffered*, RSTextIOWrapper and of the standard _pyio layers below them",
]
BOUNDS = {
    "quick": "2 threads; wrapper around a recording stream: every public method of the real stream classes against write, first and second calls, "
             "every schedule with 2 preemptions inside the calls, at mutex acquisitions and between source lines of the wrapper; real streams "
             "(raw, buffered, text, append): 2 threads of 1-2 calls, 2 preemptions at system calls or 1 between any two lines of the stream layers, "
             "compared with every sequential order of the calls; two writes of symbolic bytes with partial transfers",
    "thorough": "3 preemptions (2 between lines)",
}
OUTSIDE = "more threads; attributes of the wrapped layers (.buffer, .raw), exit of lock_file() context managers"
REQUIRED = ["called", "held", "linear", "whole", "closed", "iterated", "interprocess", "given"]

PROGRAMS = {
    "ww": ([("write", "aaaaa")], [("write", "bbb"), ("write", "c")]),
    "sw": ([("seek", 2), ("write", "xy")], [("write", "bbb")]),
    "rr": ([("read", 3)], [("read", 2), ("read", 4)]),
    "ll": ([("readline",)], [("readline",), ("readline",)]),
    "nn": ([("next",)], [("next",), ("tell",)]),
    "rw": ([("read", 2)], [("write", "bb"), ("flush",)]),
    "xw": ([("with",)], [("write", "bb"), ("write", "cc")]),
    "cw": ([("close",)], [("write", "bb"), ("write", "cc")]),
    "tw": ([("truncate", 3)], [("write", "bbbbb")]),
    "zw": ([("size",)], [("write", "bbbbb"), ("seek", 0)]),
    "lw": ([("writelines", ["aa", "bb", "cc"])], [("write", "dd")]),
    "kw": ([("lock_file", 0), ("unlock_file",)], [("write", "dd"), ("tell",)]),
    "Ra": ([("readall",)], [("read", 2)]),
}
LAYERS = {
    "raw": ("RWB", dict(buffering=0), ("ww", "sw", "rr", "cw", "xw", "tw", "lw", "Ra", "ll", "nn")),
    "rawA": ("AB", dict(buffering=0), ("ww", "cw")),
    "buf": ("RWB", dict(buffering=4), ("ww", "sw", "rr", "rw", "cw", "xw", "tw", "zw", "lw", "kw", "ll", "nn")),
    "bufW": ("WB", dict(buffering=4), ("ww", "sw", "cw", "zw")),
    "bufA": ("AB", dict(buffering=4), ("ww", "lw")),
    "text": ("RW", {}, ("ww", "ll", "nn", "rr", "cw", "xw", "tw", "lw", "kw")),
    "textA": ("A", {}, ("ww", "cw")),
}


def cases(tier):
    out = []
    full = tier != "quick"
    pre = 3 if full else 2
    for part in range(8):
        out.append(dict(name="methods-%d" % part, harness="methods", samples=1, weight=3, params=dict(part=part, preempt=pre)))
    for mode in ("RWB", "RWBI", "RWI", "RBI", "WB"):
        for own in (0, 1):
            out.append(dict(name="held-%s-%d" % (mode, own), harness="held", samples=1, params=dict(mode=mode, own=own, preempt=pre)))
    for lay in LAYERS:
        for prog in LAYERS[lay][2]:
            out.append(dict(name="linear-%s-%s" % (lay, prog), harness="linear", samples=1, weight=2, params=dict(
                lay=lay, prog=prog, preempt=pre, lines=False)))
            if full or prog in ("ww", "sw", "ll", "nn", "xw"):
                out.append(dict(name="lines-%s-%s" % (lay, prog), harness="linear", samples=1, weight=4, params=dict(
                    lay=lay, prog=prog, preempt=pre - 1, lines=True)))
    for lay in ("raw", "buf", "bufW", "bufA", "rawA"):
        out.append(dict(name="whole-%s" % lay, harness="whole", samples=1, weight=2, params=dict(lay=lay, preempt=pre)))
    return out


class Probe(object):
    """a stream which records the calls it receives"""

    def __init__(self, w, sched, eng):
        self.__dict__.update(w=w, sched=sched, eng=eng, busy=None, calls=[], events=[])

    def _call(self, name, args):
        me = self.sched.cur
        if self.busy not in (None, me):
            self.eng.fail("two calls run at the same time on a thread-safe stream", "%s while %s" % (name, self.calls[-1:]))
        mine = self.busy is me
        self.__dict__["busy"] = me
        self.calls.append((me.name, name))
        self.sched.point("inside " + name)
        self.sched.point("inside " + name)
        if not mine:
            self.__dict__["busy"] = None
        return (name,) + args

    def _checkClosed(self, msg=None):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self._call("close", ())

    def __iter__(self):
        self._call("__iter__", ())
        return self

    def __next__(self):
        return self._call("__next__", ())

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *args: self._call(name, args)


def method_names(w):
    s = w.modules["rsfile.rsfile_streams"]
    names = set()
    for cls in (w.rsfile.RSFileIO, s.RSBufferedRandom, s.RSBufferedReader, s.RSBufferedWriter, s.RSTextIOWrapper):
        for n in dir(cls):
            if not n.startswith("_") and callable(getattr(cls, n)):
                names.add(n)
    return sorted(names) + ["next", "iter", "with", "future_method"]


def invoke(f, name, *args):
    if name == "next":
        return next(f)
    if name == "iter":
        return iter(f)
    if name == "with":
        with f as g:
            if g is not f:
                raise TypeError("__enter__ does not return the stream")
        return None
    return getattr(f, name)(*args)


def run(eng, sched, allow=()):
    try:
        sched.run()
    except Deadlock as e:
        e.__traceback__ = None
        eng.fail("threads wait for ever", str(e))
    for t in sched.threads:
        if t.exc is not None:
            eng.fail("exception in a thread", "%s: %r" % (t.name, t.exc))
    sched.preempt_left = 0
    del sched.threads[:]


def lines(w, sched, names):
    sched.trace_lines([p for p in w.files if os.path.basename(p) in names] + ([w.pyio.__file__] if "_pyio" in names else []))


def methods(eng, w, part, preempt):
    names = method_names(w)
    name = eng.choose("method", names[part::8])
    sched = w.kernel.sched
    probe = Probe(w, sched, eng)
    f = w.modules["rsfile.rsfile_streams"].RSThreadSafeWrapper(probe)
    if eng.bool("warm"):
        invoke(f, name)
        invoke(f, "write", 1)
    lines(w, sched, ("rsfile_streams.py",))

    def t0():
        r = invoke(f, name)
        eng.check(r == (name,) or name == "next" and r == ("__next__",) or name == "iter" and r is f or name == "with" and r is None, "a call through the wrapper does not reach the stream",
                  "%s -> %r" % (name, r))

    def t1():
        eng.check(f.write(2) == ("write", 2), "arguments or result lost")
        eng.check(f.write(3) == ("write", 3), "arguments or result lost")

    sched.spawn(t0, "t0")
    sched.spawn(t1, "t1")
    sched.preempt_left = preempt
    run(eng, sched)
    eng.check(len([c for c in probe.calls if c[0] == "t1"]) == 2, "a call was lost")
    if name == "with":
        eng.check(("t0", "close") in probe.calls, "the stream is not closed at the end of a with block")
    eng.reach("called")
    if name == "next":
        eng.reach("iterated")


def held(eng, w, mode, own, preempt):
    """a thread which holds the mutex excludes the others and can go on calling methods"""
    k = w.kernel
    sched = k.sched
    k.inode("f", size=0)
    given = None
    if own:
        given = w._fakes["threading"].RLock()
        eng.reach("given")
    f = w.rsfile.rsopen("f", mode, buffering=0 if "B" in mode else None, locking=False, thread_safe=True, mutex=given)
    if own:
        eng.check(f.mutex is given, "the given mutex is not used")
    if "I" in mode and not own:
        eng.reach("interprocess")
    inside = []
    op = ("tell",) if eng.bool("tell") else ("seek", 1)
    first = eng.choose("mutex", ["f.mutex", "given"]) if own else "f.mutex"

    def t0():
        with (given if first == "given" else f.mutex):
            inside.append(1)
            invoke(f, *op)
            sched.point("held")
            with f.mutex:
                f.tell()
            sched.point("held")
            invoke(f, *op)
            del inside[:]

    done = []

    def hook(name, args):
        if inside and sched.cur.name == "t1":
            eng.fail("a call of another thread runs although the mutex of the stream is held", name)

    def t1():
        f.seek(0)
        done.append(1)
        if "W" in mode:
            f.write(b"x" if "B" in mode else "x")
            f.flush()
        done.append(2)

    k.pause_hook = hook
    sched.spawn(t0, "t0")
    sched.spawn(t1, "t1")
    sched.preempt_left = preempt
    run(eng, sched)
    k.pause_hook = None
    eng.check(done == [1, 2], "calls lost")
    f.close()
    eng.reach("held")
    f = None


def execute(f, op, text):
    name, args = op[0], op[1:]
    args = tuple(conv(a, text) for a in args)
    if name == "unlock_file":
        args = ()
    try:
        if name == "readall" and text:
            name = "read"
        r = invoke(f, name, *args)
        if name == "lock_file":
            r = None
    except ValueError as e:
        e.__traceback__ = None
        r = "ValueError"
    except StopIteration as e:
        e.__traceback__ = None
        r = "StopIteration"
    except OSError as e:
        e.__traceback__ = None
        r = "OSError"
    return r


def conv(a, text):
    if isinstance(a, str):
        return a if text else a.encode()
    if isinstance(a, list):
        return [conv(x, text) for x in a]
    return a


def merges(a, b):
    if not a or not b:
        yield list(a) + list(b)
        return
    for r in merges(a[1:], b):
        yield [a[0]] + r
    for r in merges(a, b[1:]):
        yield [b[0]] + r


INITIAL = b"l1\nline2\nl3\n"


def linear(eng, w, lay, prog, preempt, lines):
    """the outcome is the one of a sequential order of the calls"""
    k = w.kernel
    sched = k.sched
    k.symbolic_data = False
    mode, kw, _p = LAYERS[lay]
    text = "B" not in mode
    progs = PROGRAMS[prog]
    allowed = []
    for n, order in enumerate(merges([(0, i) for i in range(len(progs[0]))], [(1, i) for i in range(len(progs[1]))])):
        k.inode("g%d" % n).set_bytes(INITIAL)
        g = w.rsfile.rsopen("g%d" % n, mode, locking=False, thread_safe=False, **kw)
        res = [[], []]
        for t, i in order:
            res[t].append(execute(g, progs[t][i], text))
        g.close()
        out = (res, k.fs[b"g%d" % n].get_bytes())
        if out not in allowed:
            allowed.append(out)
    node = k.inode("f")
    node.set_bytes(INITIAL)
    f = w.rsfile.rsopen("f", mode, locking=False, thread_safe=True, **kw)
    if lines:
        globals()["lines"](w, sched, ("rsfile_streams.py", "rsfileio_abstract.py", "_pyio"))
    res = [[], []]

    def body(t):
        def fn():
            for op in progs[t]:
                res[t].append(execute(f, op, text))

        return fn

    sched.spawn(body(0), "t0")
    sched.spawn(body(1), "t1")
    sched.preempt_left = preempt
    run(eng, sched)
    f.close()
    got = (res, node.get_bytes())
    eng.check(got in allowed, "no sequential order of the calls explains the outcome", "%r, expected one of %r" % (got, allowed))
    eng.reach("linear")
    if prog == "cw":
        eng.reach("closed")
    f = g = None


def whole(eng, w, lay, preempt):
    """concurrent writes of arbitrary bytes are stored whole, however the kernel splits them"""
    k = w.kernel
    sched = k.sched
    mode, kw, _p = LAYERS[lay]
    node = k.inode("f", size=0)
    raw = lay.startswith("raw")
    if not raw:
        k.partial_writes = True
        k.partial_budget = 2
    na, nb = eng.int("na", 1, 12), eng.int("nb", 1, 12)
    a, b = eng.data("a", na), eng.data("b", nb)
    f = w.rsfile.rsopen("f", mode, locking=False, thread_safe=True, **kw)

    def wa():
        eng.check(eq(f.write(a), na), "wrong count")
        if not raw:
            f.flush()

    def wb():
        eng.check(eq(f.write(b), nb), "wrong count")

    sched.spawn(wa, "t0")
    sched.spawn(wb, "t1")
    sched.preempt_left = preempt
    run(eng, sched)
    f.close()
    eng.check(eq(node.size, add(na, nb)), "wrong final size")
    i, j = eng.int("i", 0), eng.int("j", 0)
    fa, fb = SymBytes.of(a).fn, SymBytes.of(b).fn

    def order(f1, n1, f2, x):
        return Implies(lt(x, node.size), eq(node.content.get(x), If(lt(x, n1), f1(x), f2(sub(x, n1)))))

    eng.check(Or(order(fa, na, fb, i), order(fb, nb, fa, j)), "the data of two concurrent writes is mixed up")
    eng.reach("whole")
    f = None

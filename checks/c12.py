"""C12 - buffers never bypass locks."""
import errno
import io

from checks.reffile import RefFile, same_data, same_file
from symx.engine import And, If, Implies, Not, Or, add, eq, ge, gt, le, lt, ne, wrap
from symx.posix import INF, Content

PROPERTY = "C12"
ENCODED = [
    "RSBufferedReader/Writer/Random.lock_file/unlock_file/_reset_buffers", "RSTextIOWrapper.lock_file/unlock_file", "_flush_before_unlocking",
    "RSFileIOAbstract.lock_file/unlock_file/_lock_remover/close", "RSThreadSafeWrapper proxies", "_pyio.Buffered*/TextIOWrapper flush, seek, read, write",
]
BOUNDS = {
    "quick": "binary: 5 access modes, any file of 0..2^40 bytes, buffer 2..65536, plain or thread-safe, 0..1 operation before locking, 1 inside (read, "
             "write, seek with symbolic sizes 0..70000, readall), any rewriting (every byte, new size) by another process while the lock is waited for, "
             "release by unlock_file, context manager, exception or close, optionally a second section after a cached read or a write, one kernel "
             "write split at a symbolic point; text: 5 modes, ascii and UTF-8, concrete strings, every split of one write; at most one failing write",
    "thorough": "two operations inside, two split writes",
}
OUTSIDE = "other encodings; two operations before locking"
REQUIRED = ["flushed-before", "flushed-after", "fresh", "ctx", "exc", "close", "unlock", "fault", "second", "partial"]
TOP = 2 ** 40
BUF = 70000

MODES = ["RWB", "WB", "AB", "RAB", "RB"]
TEXTMODES = ["RW", "W", "A", "RA", "R"]


def cases(tier):
    out = []
    n = 1 if tier == "quick" else 2
    for m in MODES:
        for how in ("unlock", "ctx", "exc", "close"):
            for second in (0, 1):
                if second and how != "ctx":
                    continue
                for ts in (0, 1):
                    if ts and (how == "close" or second) and tier == "quick":
                        continue
                    for mid in [None] if not second else ["no", "r", "w"] if m[0] == "R" and m != "RB" else ["no", "r" if m == "RB" else "w"]:
                        out.append(dict(name="bin-%s-%s-%s-%d" % (m, how, mid, ts), samples=1, weight=4 if second else 1, range_limit=6,
                                        params=dict(mode=m, how=how, second=mid, ts=ts, nin=n, splits=n)))
        if m != "RB":
            out.append(dict(name="fault-%s" % m, harness="fault", samples=1, range_limit=6, params=dict(mode=m)))
    for m in TEXTMODES:
        for how in ("unlock", "ctx", "exc", "close"):
            for second in (0, 1):
                if second and how != "ctx":
                    continue
                out.append(dict(name="text-%s-%s-%d" % (m, how, second), harness="text", samples=1,
                                params=dict(mode=m, how=how, second="any" if second else None, nin=n, splits=n)))
        if m != "R":
            out.append(dict(name="fault-%s" % m, harness="fault", samples=1, params=dict(mode=m)))
    return out


class Sec(object):
    """drives a stream and its oracle through sections protected by a lock"""

    def __init__(self, eng, w, mode, ts, splits=0):
        self.eng, self.w, self.k = eng, w, w.kernel
        k = self.k
        k.partial_writes = True
        k.partial_budget = splits
        self.rd, self.wr = "R" in mode, "W" in mode or "A" in mode
        self.append = "A" in mode
        self.node = k.inode("f")
        self.locked = False
        self.n = self.d = 0
        self.was = None
        self.start(mode, ts)
        self.fd = self.f.fileno()
        k.pause_hook = self.pause

    def start(self, mode, ts):
        eng = self.eng
        old = eng.func("old")
        size = eng.int("size", 0, TOP)
        self.node.size = size
        self.node.content = Content(lambda i: If(lt(i, size), old(i), 0))
        self.f = self.w.rsfile.rsopen("f", mode, buffering=eng.int("bufsize", 2, 65536), locking=False, thread_safe=bool(ts))
        self.ref = RefFile(old, size, self.append)

    def same(self, msg):
        self.d += 1
        same_file(self.eng, self.node, self.ref, msg, "x%d" % self.d)

    def pause(self, name, args):
        if name == "lockf" and args[0] == self.fd:
            if args[1] & 8:  # unlocking
                self.same("data written under the lock is not in the file when the lock is released")
                self.eng.reach("flushed-after")
                self.locked = False
            elif not self.locked:
                self.same("data written before locking is not in the file when the lock is asked for")
                self.eng.reach("flushed-before")
                self.locked = True
                if self.eng.bool("rewrite%d" % self.n):
                    self.rewrite()
                self.n += 1
        elif name == "close" and args[0] == self.fd:
            self.same("data is not in the file when its descriptor gets closed")

    def rewrite(self):
        """another process, which owned the lock until now, rewrote the file"""
        eng = self.eng
        fn = eng.func("new%d" % self.n)
        size = eng.int("newsize%d" % self.n, 0, TOP)
        c = Content(lambda i: If(lt(i, size), fn(i), 0))
        self.node.content = c
        self.node.size = size
        self.ref.content = c.snapshot()
        self.ref.size = size

    def op(self, tag, allow=("w", "r", "a", "s")):
        eng, f, ref = self.eng, self.f, self.ref
        ops = []
        if self.wr and "w" in allow:
            ops += ["w"]
        if self.rd:
            ops += [o for o in ("r", "a") if o in allow]
        if "s" in allow:
            ops += ["s"]
        o = eng.choose(tag, ops)
        if o == "w":
            n = eng.int("n-" + tag, 1, BUF)
            data = eng.data("d-" + tag, n)
            eng.check(eq(f.write(data), n), "write() returned a wrong count")
            ref.write(data)
        elif o == "s":
            p = eng.int("n-" + tag, 0, TOP)
            f.seek(p)
            ref.seek(p)
        else:
            if o == "r":
                n = eng.int("n-" + tag, 0, BUF)
                got = f.read(n)
                ln, fn = ref.read(n)
            else:
                eng.assume(le(ref.avail(), 8192 + 100))
                got = f.read()
                ln, fn = ref.read(None)
            if self.locked:
                same_data(eng, got, ln, fn, "data read under the lock is not what the file contains", "y-" + tag)
                eng.reach("fresh")
        return o

    def section(self, how, nin, tag, allow):
        eng, f = self.eng, self.f
        shared = not self.wr
        if how in ("ctx", "exc"):
            body = KeyError("body")
            caught = None
            try:
                with f.lock_file(timeout=0, shared=shared):
                    for i in range(nin):
                        self.op("%s%d" % (tag, i), allow)
                    if how == "exc":
                        raise body
            except KeyError as e:
                e.__traceback__ = None
                caught = e
            eng.check((caught is body) == (how == "exc"), "the context manager altered the exception")
        else:
            f.lock_file(timeout=0, shared=shared)
            for i in range(nin):
                self.op("%s%d" % (tag, i), allow)
            if how == "unlock":
                f.unlock_file()
            else:
                f.close()
                self.same("close() lost data")
        eng.check(not self.locked, "the lock was not released")
        eng.reach(how)


class TextSec(Sec):
    """the same with text, concrete data, and an oracle made of characters encoded one by one"""

    DATA = {"w1": "A", "w3": "B\u00e9D"}

    def start(self, mode, ts):
        self.k.symbolic_data = False
        self.utf8 = self.eng.bool("utf8")
        self.enc = "utf-8" if self.utf8 else "latin-1"
        self.data = "0123456789".encode(self.enc)
        self.node.set_bytes(self.data)
        self.f = self.w.rsfile.rsopen("f", mode, locking=False, thread_safe=bool(ts), encoding=self.enc, newline="", buffering=4)
        self.pos = len(self.data) if self.append else 0

    def same(self, msg):
        got = self.node.get_bytes()
        self.eng.check(got == self.data, msg, [got, self.data])

    def rewrite(self):
        base = ord("a") if self.n == 0 else ord("m")
        new = "".join(chr(base + i) for i in range(10))
        if self.eng.bool("grow%d" % self.n):
            new += "zzz"
        self.data = new.encode(self.enc)
        self.node.set_bytes(self.data)

    def op(self, tag, allow=("w", "r", "a", "s")):
        eng, f = self.eng, self.f
        ops = []
        if self.wr and "w" in allow and self.was != "r":  # writing text after a read without seeking isn't specified
            ops += sorted(self.DATA)
        if self.rd and "r" in allow:
            ops += ["r2"] + ["rall"] * ("a" in allow)
        if "s" in allow:
            ops += ["s0"]
        if not ops:
            return None
        o = eng.choose(tag, ops)
        self.was = o[0]
        if o[0] == "w":
            if self.append:
                self.pos = len(self.data)
            b = self.DATA[o].encode(self.enc)
            self.data = self.data[:self.pos].ljust(self.pos, b"\0") + b + self.data[self.pos + len(b):]
            self.pos += len(b)
            eng.check(f.write(self.DATA[o]) == len(self.DATA[o]), "write() returned a wrong count")
        elif o == "s0":
            f.seek(0)
            self.pos = 0
        else:
            got = f.read() if o == "rall" else f.read(2)
            rest = self.data[self.pos:].decode(self.enc, "replace")
            exp = rest if o == "rall" else rest[:2]
            self.pos += len(exp.encode(self.enc))
            if self.locked:
                eng.check(got == exp, "data read under the lock is not what the file contains", [got, exp])
                eng.reach("fresh")
        return o


def drive(s, how, second, nin, splits):
    eng = s.eng
    if not second and eng.bool("pre"):
        s.op("pre")
        s.was = None  # locking flushes and seeks
    s.section(how, nin, "in", ("r", "w") if second else ("w", "r", "a", "s"))
    if second:
        # data cached between the two sections must not be served under the second lock
        if second != "any":
            if second != "no":
                s.op("mid", (second,))
        elif eng.bool("mid"):
            s.op("mid", ("r", "w"))
        s.was = None
        s.section("ctx", 1, "in2", ("r", "w"))
        eng.reach("second")
    if splits and s.k.partial_budget < splits:
        eng.reach("partial")
    s.k.pause_hook = None
    s.f.close()


def harness(eng, w, mode, how, second, ts, nin, splits):
    drive(Sec(eng, w, mode, ts, splits), how, second, nin, splits)


def text(eng, w, mode, how, second, nin, splits):
    drive(TextSec(eng, w, mode, 0, splits), how, second, nin, splits)


def fault(eng, w, mode):
    """a failing write inside a context manager is reported, and the lock is released anyway"""
    s = (Sec if "B" in mode else TextSec)(eng, w, mode, 0)
    k = w.kernel
    k.pause_hook = None
    k.partial_writes = False
    k.fault_calls, k.fault_errnos = ("write",), (errno.EIO, errno.ENOSPC)
    err = None
    try:
        with s.f.lock_file(timeout=0, shared=False):
            k.fault_budget = 1
            s.op("in", "w")
            if eng.bool("exc"):
                raise KeyError("body")
    except OSError as e:
        e.__traceback__ = None
        e.__context__ = None
        err = e
    except KeyError as e:
        e.__traceback__ = None
    eng.check((err is not None) == bool(k.faults), "a failed write was swallowed")
    if k.faults:
        eng.reach("fault")
    k.fault_budget = 0
    eng.check(eq(s.node.held(k.pid, eng.int("byte", 0, INF - 1)), 0), "the lock was not released")
    g = w.rsfile.rsopen("f", "RWB", buffering=0, locking=True, timeout=0, thread_safe=False)
    g.close()
    s.f.close()
    if not k.faults:
        s.same("close() lost data")

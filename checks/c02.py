"""C02 - erasing on open happens only under the lock, and a failed open destroys nothing."""
import errno

from symx.engine import And, If, Implies, Not, Or, eq, ge, le, lt, ne, wrap, add
from symx.posix import INF, EnvLock

PROPERTY = "C02"
ENCODED = [
    "rsfile_factories.rsopen", "RSFileIOAbstract.__init__/lock_file/truncate/close", "rsfileio_unix.RSFileIO._inner_create_streams",
    "rsfileio_unix.RSFileIO._inner_file_lock/_inner_file_unlock", "IntraProcessLockRegistryClass", "rsfile_utilities.write_to_file",
]
BOUNDS = {
    "quick": "one open (10 modes x buffered/raw/text x existing or not) against one lock of another process (any kind and range, any "
             "release time) or one lock of another stream of the process (any kind and range), timeout None/0/any up to 4 s, at most one "
             "system call failing anywhere; file size 0..2^62, universally quantified witness byte",
    "thorough": "the same with a lock of another process and one of this process together, and two faults",
}
OUTSIDE = "several foreign locks at once, more than two failing calls; polling delay fixed to 1 s to bound the number of polls"
REQUIRED = ["opened", "erased", "conflict", "fault", "refused", "waited"]

MODES = ["w", "w+b", "wb", "WE", "RWEB", "AEB", "RAE", "WNEB"]
KEEP = ["r+b", "RWB", "a", "RAB", "rb", "RN"]


def cases(tier):
    out = []
    for m in MODES:
        for foreign in ("none", "process", "stream") + (("both",) if tier != "quick" else ()):
            for fault in (0, 1) if tier == "quick" else (0, 1, 2):
                if foreign == "both" and fault > 1:
                    continue
                out.append(dict(name="erase-%s-%s-%d" % (m, foreign, fault), samples=1, weight=3 if foreign == "process" else 1,
                                params=dict(mode=m, foreign=foreign, faults=fault)))
    for m in KEEP:
        for foreign in ("none", "process", "stream"):
            out.append(dict(name="keep-%s-%s" % (m, foreign), samples=1, params=dict(mode=m, foreign=foreign, faults=1)))
    for m in ("w", "WE", "RWE", "AE", "wb", "WEB"):
        out.append(dict(name="badargs-%s" % m, harness="badargs", params=dict(mode=m)))
    out.append(dict(name="helper", harness="helper", params={}))
    return out


class Watch(object):
    """observes every change of a file"""

    def __init__(self, eng, w, node, holder=None):
        self.eng, self.k, self.node, self.holder = eng, w.kernel, node, holder
        self.b = eng.int("byte", 0, INF - 1)
        self.mutated = False
        self.locking = True
        self.faults_at = None
        w.kernel.mutate_hook = self.hook

    def hook(self, node, kind):
        if node is not self.node:
            return
        if self.locking:
            self.eng.check(eq(node.held(self.k.pid, self.b), 2),
                           "the file is erased while a byte of it is not exclusively locked by the opener")
            if self.holder is not None:
                self.eng.fail("the file is erased although another stream of the process has a lock on it")
        self.mutated = True
        self.faults_at = len(self.k.faults)


def setup(eng, w, foreign):
    k = w.kernel
    size = eng.int("size", 0, 2 ** 62)
    cell = eng.int("cell", 0, 255)
    node = k.inode("f", size=size, base=cell)
    holder = None
    if foreign in ("stream", "both"):
        holder = w.rsfile.rsopen("f", "RWB", buffering=0, locking=False, thread_safe=False)
        holder.lock_file(timeout=0, offset=eng.int("h_start", 0, 2 ** 61), length=eng.int("h_len", 0, 2 ** 61),
                         shared=eng.bool("h_shared"))
    if foreign in ("process", "both"):
        start = eng.int("e_start", 0, 2 ** 61)
        length = eng.int("e_len", 0, 2 ** 61)
        rel = None
        if eng.bool("e_released"):
            rel = 1000 + eng.int("e_release", 0, 8)
        node.env.append(EnvLock(eng.choose("e_kind", [2, 1]), start, If(eq(length, 0), INF, add(start, length)), rel))
    return node, size, cell, holder


def harness(eng, w, mode, foreign, faults):
    k = w.kernel
    exists = True
    if foreign == "none":
        exists = eng.bool("exists")
    node, size, cell, holder = setup(eng, w, foreign)
    if not exists:
        del k.fs[b"f"]
        node = None
    w.rsfile.set_rsfile_options(default_spinlock_delay=1.0)
    erase = "w" in mode or "E" in mode
    watch = Watch(eng, w, node, holder)
    tmo = eng.choose("timeout", ["zero", "sym", "none"]) if foreign == "process" else "zero"
    timeout = {"zero": 0, "none": None}[tmo] if tmo != "sym" else eng.int("timeout_v", 1, 4)
    lay = eng.choose("layer", ["default", "raw"]) if "b" in mode.lower() else "default"
    k.fault_budget = faults
    # any error when locking
    k.fault_errnos = lambda name: ("sym", errno.EACCES, errno.EINTR) if name == "lockf" else (errno.EIO,)
    failed = None
    f = None
    try:
        f = w.rsfile.rsopen("f", mode, buffering=0 if lay == "raw" else None, locking=True, timeout=timeout, thread_safe=False)
    except OSError as e:
        failed = True
        e.__traceback__ = None
    except RuntimeError as e:  # not expected
        e.__traceback__ = None
        eng.fail("RuntimeError from rsopen", str(e))
    k.fault_budget = 0
    if node is None:
        if f is not None:
            eng.check(eq(k.fs[b"f"].size, 0), "a new file is not empty")
            f.close()
        return
    x = eng.int("x", 0, 2 ** 62)
    unchanged = And(eq(node.size, size), Implies(lt(x, size), eq(node.content.get(x), cell)))
    if failed:
        if k.faults:
            eng.reach("fault")
        else:
            eng.reach("conflict")
            eng.check(foreign != "none" or not exists or "N" in mode, "open failed although nothing prevents it")
        if not watch.mutated or watch.faults_at == len(k.faults):
            eng.check(unchanged, "a failed open changed the file")
    else:
        eng.reach("opened")
        if k.sched.sleeps:
            eng.reach("waited")
        if erase:
            eng.check(eq(node.size, 0), "the file was not erased")
            eng.reach("erased")
        else:
            eng.check(unchanged, "opening without erasure changed the file")
            eng.check(not watch.mutated, "opening without erasure wrote to the file")
        if mode not in ("rb", "RN"):
            eng.check(eq(node.held(k.pid, watch.b), 2), "the opened file is not entirely locked")
        else:
            eng.check(ge(node.held(k.pid, watch.b), 1), "the opened file is not entirely locked")
        watch.locking = False
        f.close()
        eng.check(eq(node.held(k.pid, watch.b), 0) if holder is None else True, "lock kept after close")
    f = holder = None


ARGS = [
    dict(encoding="no-such-encoding"), dict(errors=3), dict(newline="bad"), dict(newline=3), dict(buffering=0), dict(encoding=3),
    dict(buffering="x"), dict(timeout=-1), dict(timeout="x"), dict(closefd=False), dict(mutex=object(), thread_safe=False),
    dict(fileno=5), dict(handle=5), dict(buffering=True), dict(permissions="x"),
]


def badargs(eng, w, mode):
    """invalid arguments: nothing is erased"""
    k = w.kernel
    node, size, cell, _h = setup(eng, w, "none")
    a = eng.choose("arg", ARGS)
    watch = Watch(eng, w, node)
    watch.locking = False
    locking = True if "timeout" in a else eng.bool("locking")
    binary = "b" in mode.lower()
    if binary and a.get("buffering") == 0 and a["buffering"] is not True:
        return
    try:
        f = w.rsfile.rsopen("f", mode, locking=locking, **a)
    except (ValueError, TypeError, LookupError) as e:
        e.__traceback__ = None
        eng.check(not watch.mutated, "the file was erased although the arguments are invalid", repr(sorted(a)))
        eng.check(eq(node.size, size), "invalid arguments changed the file")
        eng.reach("refused")
    else:
        eng.fail("invalid arguments accepted", repr(sorted(a)))


def helper(eng, w):
    """write_to_file erases under lock too"""
    k = w.kernel
    node, size, cell, holder = setup(eng, w, eng.choose("foreign", ["process", "stream", "none"]))
    watch = Watch(eng, w, node, holder)
    try:
        w.rsfile.write_to_file("f", b"data", timeout=0, locking=True)
    except OSError as e:
        e.__traceback__ = None
        eng.check(not watch.mutated, "a failed write_to_file erased the file")
        eng.check(eq(node.size, size), "a failed write_to_file changed the file")
    else:
        eng.check(eq(node.size, 4), "write_to_file left something else")
    holder = None

"""C18 - write_to_file(), append_to_file(), read_from_file()."""
import errno
import io
import os

from symx.engine import And, If, Implies, Max, Not, Or, SymBuf, SymBytes, SymView, add, eq, ex, ge, is_sym, le, lt, ne, sub, sym_len, wrap
from symx.posix import EnvLock, INF
from checks.reffile import RefFile, same_data, same_file

PROPERTY = "C18"
ENCODED = [
    "rsfile_utilities.write_to_file/append_to_file/read_from_file/_write_whole_data", "rsopen", "RSFileIOAbstract.read/readall/write/_readall/lock_file/"
    "close/__exit__", "rsfileio_unix.RSFileIO._inner_*", "RSBufferedReader/Writer, RSTextIOWrapper over _pyio",
]
BOUNDS = {
    "quick": "binary: previous content of symbolic size 0..2**40 and symbolic bytes, data of symbolic length 0..24 (bytes, bytearray, memoryview) or one of "
             "0/8192..8200/20000 bytes, reads of files of symbolic size 0..16484, buffering 0/8/None, up to 2 partial transfers of symbolic length "
             "(3 for reading); one failing system call (any call, any errno but EINTR/EAGAIN class); foreign locks of symbolic range; text: fixed "
             "strings x encoding x newline x errors, every split of the transfers (up to 2 cuts)",
    "thorough": "data of 0..64 bytes, up to 4 partial transfers, 2 failing calls",
}
OUTSIDE = "non-blocking descriptors (the helpers open by name in blocking mode, never O_NONBLOCK); symbolic characters (the codecs run natively)"
REQUIRED = [
    "written", "appended", "read", "partial", "unbuffered", "must-create", "must-not-create", "created", "locked", "lock-refused", "unlocked-mode",
    "fault", "text", "synced", "view", "timeout", "rejected",
]
TOP = 2 ** 40
ERRNOS = (errno.EIO, errno.ENOSPC, errno.EDQUOT, "sym")
BUFFERINGS = [0, 8, None]


def cases(tier):
    out = []
    full = tier != "quick"
    for how in ("write", "append"):
        for b in BUFFERINGS:
            out.append(dict(name="%s-%s" % (how, b), weight=3, samples=2, params=dict(how=how, buffering=b, full=full)))
            out.append(dict(name="%s-fault-%s" % (how, b), harness="faulty", weight=2, samples=1, params=dict(how=how, buffering=b, full=full)))
        out.append(dict(name="%s-flags" % how, harness="flags", samples=1, params=dict(how=how)))
        out.append(dict(name="%s-locks" % how, harness="locks", samples=1, params=dict(how=how)))
        for i in range(len(TEXTS)):
            out.append(dict(name="%s-text-%d" % (how, i), harness="text", samples=1, params=dict(how=how, i=i, full=full)))
    for b in BUFFERINGS:
        out.append(dict(name="read-%s" % b, harness="reading", weight=3, samples=2, params=dict(buffering=b, full=full)))
        out.append(dict(name="read-fault-%s" % b, harness="read_fault", samples=1, params=dict(buffering=b, full=full)))
    out.append(dict(name="read-locks", harness="locks", samples=1, params=dict(how="read")))
    for i in range(len(TEXTS)):
        out.append(dict(name="read-text-%d" % i, harness="read_text", samples=1, params=dict(i=i, full=full)))
    out.append(dict(name="read-missing", harness="read_missing", samples=0))
    return out


def closed(eng, k, n):
    """every descriptor that was opened is closed, once"""
    eng.check(not k.table(), "the helper left the file open")
    eng.check(not k.bad_closes, "double close")


def no_locks(eng, k, node):
    b = eng.int("lockbyte", 0, INF - 1)
    eng.check(eq(node.held(k.pid, b), 0), "the helper left the file locked")


def env(eng, w, exists=None, size=None):
    k = w.kernel
    old = eng.func("old")
    node = None
    ex_ = eng.bool("exists") if exists is None else exists
    size = eng.int("size", 0, TOP) if size is None else size
    if ex_:
        node = k.inode("f", size=size, base=old)
    else:
        size = 0
    return k, node, old, size


def expected(how, old, size, data):
    ref = RefFile(old, size, how == "append")
    if how == "write":
        ref.truncate(0)
    ref.write(data)
    return ref


def harness(eng, w, how, buffering, full):
    k, node, old, size = env(eng, w)
    shape = eng.choose("shape", ["bytes", "bytearray", "view", "big"])
    if shape == "big":
        n = eng.choose("nbig", [0, 8192, 8200, 20000])
    else:
        n = eng.int("n", 0, 64 if full else 24)
    data = eng.data("data", n)
    arg = data
    if shape in ("bytearray", "view"):
        buf = bytearray(data) if type(data) is bytes else SymBuf(data)
        arg = buf
        if shape == "view":
            arg = memoryview(buf) if type(buf) is bytearray else SymView(buf)
            eng.reach("view")
    k.partial_writes = True
    k.partial_budget = 4 if full else 2
    sync = eng.bool("sync")
    fn = getattr(w.rsfile, how + "_to_file")
    kw = {}
    if buffering is not None or eng.bool("pass"):
        kw["buffering"] = buffering
    fn("f", arg, sync=sync, locking=eng.bool("locking"), **kw)
    node = k.fs[b"f"]
    same_file(eng, node, expected(how, old, size, data), "file after %s_to_file()" % how)
    closed(eng, k, 1)
    no_locks(eng, k, node)
    if sync:
        done = getattr(node, "synced", [])
        eng.check(any(kd in ("fsync", "fullfsync") and wr == node.writes for kd, wr in done), "sync=True but the data isn't synchronised")
        eng.reach("synced")
    if k.partial_budget < (4 if full else 2):
        eng.reach("partial")
    if buffering == 0:
        eng.reach("unbuffered")
    eng.reach("written" if how == "write" else "appended")


def faulty(eng, w, how, buffering, full):
    """a failing call: the helper raises the error of the system; else the data is in the file"""
    k, node, old, size = env(eng, w)
    n = eng.int("n", 0, 24)
    data = eng.data("data", n)
    sync = eng.bool("sync")
    locking = eng.bool("locking")
    k.partial_writes = True
    k.partial_budget = 1
    k.fault_budget = 2 if full else 1
    k.fault_calls = ("open", "write", "ftruncate", "lockf", "fsync", "close", "fstat", "lseek")
    k.fault_errnos = ERRNOS
    try:
        getattr(w.rsfile, how + "_to_file")("f", data, buffering=buffering, sync=sync, locking=locking, timeout=0)
    except OSError as e:
        e.__traceback__ = None
        k.fault_budget = 0
        eng.check(bool(k.faults), "unexpected error", str(e))
        eng.reach("fault")
        if k.faults[0][0] == "open" or k.faults[0][0] == "lockf" and k.faults[0][1][1] & 3:
            # nothing happened yet
            if node is not None:
                same_file(eng, node, RefFile(old, size), "file after a refused opening")
    else:
        k.fault_budget = 0
        hidden = [f for f in k.faults if f[0] in ("open", "write", "fsync", "ftruncate", "close")]
        eng.check(not hidden, "a failing system call was ignored", repr([f[0] for f in hidden]))
        node = k.fs[b"f"]
        same_file(eng, node, expected(how, old, size, data), "file after %s_to_file()" % how)
    # (_pyio leaves the raw stream to the garbage collector when a constructor fails)
    w.collect()
    closed(eng, k, 1)


def flags(eng, w, how):
    k, node, old, size = env(eng, w)
    n = eng.int("n", 0, 8)
    data = eng.data("data", n) if eng.bool("binary") else "abc"
    must_create = eng.choose("must_create", [False, True]) if how == "write" else False
    must_not_create = eng.choose("must_not_create", [False, True])
    kw = dict(must_not_create=must_not_create)
    if how == "write":
        kw["must_create"] = must_create
    n0 = len(k.log)
    raised = None
    try:
        getattr(w.rsfile, how + "_to_file")("f", data, **kw)
    except (OSError, ValueError) as e:
        e.__traceback__ = None
        raised = e
    if must_create and must_not_create:
        eng.check(raised is not None, "contradictory arguments accepted")
        eng.reach("rejected")
    elif must_create:
        eng.check((raised is not None) == (node is not None), "must_create not honoured", repr(raised))
        if raised is not None:
            eng.check(isinstance(raised, FileExistsError), "wrong exception", repr(raised))
        eng.reach("must-create")
    elif must_not_create:
        eng.check((raised is not None) == (node is None), "must_not_create not honoured", repr(raised))
        if raised is not None:
            eng.check(isinstance(raised, FileNotFoundError), "wrong exception", repr(raised))
        eng.reach("must-not-create")
    else:
        eng.check(raised is None, "unexpected error", repr(raised))
        if node is None:
            eng.reach("created")
    if raised is not None:
        eng.check(k.fs.get(b"f") is node, "a refused call created the file")
        if node is not None:
            same_file(eng, node, RefFile(old, size), "file after a refused call")
    else:
        d = data.encode() if isinstance(data, str) else data
        same_file(eng, k.fs[b"f"], expected(how, old, size, d), "file")
    closed(eng, k, 1)


def locks(eng, w, how):
    """locking and timeout are honoured: nothing is transferred before the whole file is locked"""
    k = w.kernel
    # the times are multiples of 1/256 s
    old = eng.func("old")
    size = eng.int("size", 0, 100)
    node = k.inode("f", size=size, base=old)
    foreign = eng.bool("foreign")
    locking = eng.choose("locking", [True, False, None])  # None: default (True)
    rel = None
    if foreign:
        start = eng.int("fstart", 0, 2 ** 62)
        end = eng.int("fend", 1, 2 ** 62)
        eng.assume(lt(start, end))
        if eng.bool("released"):
            rel = eng.int("release", 0, 5 * 256) / 256
            rel = wrap(add(rel, w.sched.now))
        node.env.append(EnvLock(eng.choose("fkind", [1, 2]), start, end, release_at=rel))
    tm = eng.choose("timeout", ["zero", "none", "two"])
    timeout = {"zero": 0, "none": None, "two": 2}[tm]
    if locking is False and foreign:
        eng.reach("unlocked-mode")
    data = eng.data("data", 3)
    kind = 1 if how == "read" else 2
    held = []

    def before(name, args):
        if name in ("read", "write", "ftruncate") and not (locking is False):
            b = eng.int("byte%d" % len(held), 0, INF - 1)
            held.append(eng.must(eq(node.held(k.pid, b), kind)))
            eng.check(eq(node.held(k.pid, b), kind), "the file is accessed without the lock", name)

    k.pause_hook = before
    if timeout is None and foreign and rel is None and locking is not False and not (kind == 1 and node.env[0].kind == 1):
        eng.end("would wait for ever")
    kw = {}
    if locking is not None:
        kw["locking"] = locking
    if tm != "none" or eng.bool("pass"):
        kw["timeout"] = timeout
    t0 = w.sched.now
    conflict = foreign and not (kind == 1 and node.env[0].kind == 1)
    try:
        if how == "read":
            got = w.rsfile.read_from_file("f", binary=True, **kw)
        else:
            getattr(w.rsfile, how + "_to_file")("f", data, **kw)
    except OSError as e:
        e.__traceback__ = None
        k.pause_hook = None
        eng.check(isinstance(e, w.rsfile.LockingException), "wrong exception", repr(e))
        eng.check(conflict and locking is not False, "lock refused although nothing conflicts")
        eng.check(timeout is not None, "gave up although the timeout is infinite")
        if rel is not None and timeout == 0:
            eng.check(lt(t0, rel), "lock refused although it was released")
        same_file(eng, node, RefFile(old, size), "file after a refused lock")
        eng.reach("lock-refused")
        if timeout:
            eng.reach("timeout")
    else:
        k.pause_hook = None
        if conflict and locking is not False:
            eng.check(rel is not None, "the file was accessed in spite of a foreign lock")
            eng.check(le(rel, w.sched.now), "the file was accessed before the foreign lock was released")
        if locking is False:
            eng.check(not [l for l in k.log if l[0] == "lockf" and l[1][1] & 3], "locking=False but a lock was taken")
        else:
            eng.reach("locked")
        if how == "read":
            same_data(eng, got, size, old, "read_from_file()")
            same_file(eng, node, RefFile(old, size), "file")
        else:
            same_file(eng, node, expected(how, old, size, data), "file")
    closed(eng, k, 1)
    no_locks(eng, k, node)


TEXTS = [
    # text, encoding, newline, errors, buffering
    ("h\xe9llo\nw\r\nx\rz\n", "utf-8", None, None, None),
    ("a\nb\r\nc\rd" * 3, "latin-1", "\r\n", "strict", 8),
    ("\u20ac\U0001d11e\n", "utf-16", "", None, 8),
    ("a\u20acb\n", "ascii", "\n", "replace", None),
    ("", None, None, None, 8),
    ("x" * 9 + "\n\xe9", "utf-8", "\r", None, 1),
    ("q\n" * 4200, "utf-8", None, None, None),
    ("\u20ac\n\r", "utf-8-sig", "", "strict", 1),
]
EXISTING = [b"", b"old\r\n"]


def oracle_encode(text, encoding, newline, errors, start):
    b = io.BytesIO(start)
    b.seek(len(start))
    t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline)
    t.write(text)
    t.flush()
    r = b.getvalue()
    t.detach()
    return r


def text(eng, w, how, i, full):
    txt, encoding, newline, errors, buffering = TEXTS[i]
    k = w.kernel
    start = eng.choose("old", EXISTING)
    if start or eng.bool("exists"):
        node = k.inode("f", size=0)
        node.set_bytes(start)
    k.partial_writes = True
    k.partial_budget = 3 if full else 2
    if len(txt) > 100:
        k.partial_writes = False
    getattr(w.rsfile, how + "_to_file")("f", txt, encoding=encoding, newline=newline, errors=errors, buffering=buffering, locking=eng.bool("locking"),
                                        sync=eng.bool("sync"))
    exp = oracle_encode(txt, encoding, newline, errors, start if how == "append" else b"")
    if len(txt) > 100:
        eng.check(k.fs[b"f"].get_bytes() == exp, "wrong text in the file")
    else:
        same_file(eng, k.fs[b"f"], expected("write", lambda i: 0, 0, exp), "text file")
    closed(eng, k, 1)
    eng.reach("text")


def reading(eng, w, buffering, full):
    k, node, old, size = env(eng, w, exists=True, size=eng.int("size", 0, 16484))
    k.partial_reads = True
    k.partial_budget = 3 if full else 2
    kw = {}
    if buffering is not None or eng.bool("pass"):
        kw["buffering"] = buffering
    got = w.rsfile.read_from_file("f", binary=True, locking=eng.bool("locking"), **kw)
    same_data(eng, got, size, old, "read_from_file()")
    closed(eng, k, 1)
    no_locks(eng, k, node)
    if k.partial_budget < 2:
        eng.reach("partial")
    if buffering == 0:
        eng.reach("unbuffered")
    eng.reach("read")


def read_fault(eng, w, buffering, full):
    k, node, old, size = env(eng, w, exists=True, size=eng.int("size", 0, 200))
    k.partial_reads = True
    k.partial_budget = 1
    k.fault_budget = 1
    k.fault_calls = ("open", "read", "lockf", "close")
    k.fault_errnos = ERRNOS
    try:
        got = w.rsfile.read_from_file("f", binary=True, buffering=buffering, timeout=0)
    except OSError as e:
        e.__traceback__ = None
        eng.check(bool(k.faults), "unexpected error", str(e))
        eng.reach("fault")
    else:
        eng.check(not [f for f in k.faults if f[0] in ("open", "read")], "a failing system call was ignored")
        same_data(eng, got, size, old, "read_from_file()")
    k.fault_budget = 0
    same_file(eng, node, RefFile(old, size), "file")
    w.collect()
    closed(eng, k, 1)


def read_text(eng, w, i, full):
    txt, encoding, newline, errors, buffering = TEXTS[i]
    k = w.kernel
    raw = txt.encode(encoding or "utf-8", errors or "strict")
    node = k.inode("f", size=0)
    node.set_bytes(raw)
    k.partial_reads = True
    k.partial_budget = 3 if full else 2
    if len(txt) > 100:
        k.partial_reads = False
    k.symbolic_data = False
    exp = io.TextIOWrapper(io.BytesIO(raw), encoding or "utf-8", errors, newline).read()
    got = w.rsfile.read_from_file("f", encoding=encoding, newline=newline, errors=errors, buffering=buffering, locking=eng.bool("locking"))
    eng.check(got == exp, "read_from_file(): wrong text", repr(got)[:200])
    closed(eng, k, 1)
    eng.reach("text")


def read_missing(eng, w):
    k = w.kernel
    try:
        w.rsfile.read_from_file("f", binary=eng.bool("binary"))
    except FileNotFoundError as e:
        e.__traceback__ = None
    else:
        eng.fail("a missing file was read")
    eng.check(not k.fs, "reading created a file")

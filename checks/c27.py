"""C27 - the options of the library are validated as a whole and govern the streams opened afterwards."""
from symx.engine import And, If, Not, Or, add, eq, ge, gt, le, lt, ne, sub, wrap
from symx.posix import EnvLock
from symx.sched import Deadlock

PROPERTY = "C27"
ENCODED = [
    "rsfile_registries.set_rsfile_options/get_rsfile_options", "RSFileIOAbstract.__init__/lock_file (attempt loop)", "rsfile_factories.rsopen",
    "rsfile_utilities.read_from_file/write_to_file/append_to_file (waiting for a lock)", "IntraProcessLockRegistryClass.register_file_lock (waiting)",
]
BOUNDS = {
    "quick": "two successive calls of set_rsfile_options() with any of the two options, symbolic values (delay 1..2 s, limit 0..2 s in 1/256 s, or None), unknown names alone or "
             "mixed in; then a stream of any layer, opened before or after the last change, waiting for a lock of another process or of another "
             "stream, at opening, by lock_file() or within a helper",
    "thorough": "the same",
}
OUTSIDE = "values of wrong types; which of the old and new options an already open stream uses"
REQUIRED = ["set", "unknown", "mixed", "copy", "enforced", "explicit", "polled", "opening", "helper", "old-stream", "peer", "disabled"]
NAMES = ["default_spinlock_delay", "enforced_locking_timeout_value"]
UNKNOWN = ["max_input_load_bytes", "default_spinlock_delay_", "DEFAULT_SPINLOCK_DELAY", "timeout"]


def cases(tier):
    out = [dict(name="set", harness="setting", samples=1)]
    for lay in ("raw", "buffered", "text", "safe"):
        for how in ("lock", "timeout", "open", "open-timeout"):
            out.append(dict(name="apply-%s-%s" % (how, lay), harness="apply", samples=1, params=dict(how=how, lay=lay)))
    for how in ("read", "write", "append"):
        out.append(dict(name="apply-%s" % how, harness="apply", samples=1, params=dict(how=how, lay="text")))
    for b in ("ctypes", "pywin32"):
        out.append(dict(name="win-lock-%s" % b, harness="apply", platform="windows", backend=b, samples=0, params=dict(how="lock", lay="raw")))
        out.append(dict(name="win-timeout-%s" % b, harness="apply", platform="windows", backend=b, samples=0, params=dict(how="timeout", lay="raw")))
    return out


def same(eng, got, want, what):
    eng.check(sorted(got) == sorted(NAMES), "wrong names of options", repr(sorted(got)))
    for n in NAMES:
        if want[n] is None or got[n] is None:
            eng.check(got[n] is None and want[n] is None, what, n)
        else:
            eng.check(eq(got[n], want[n]), what, n)


def value(eng, name, tag):
    if name == "enforced_locking_timeout_value" and eng.bool("none" + tag):
        return None
    return eng.int(name + tag, 0, 2 ** 40) / 256


def setting(eng, w):
    r = w.rsfile
    model = dict(r.get_rsfile_options())
    same(eng, model, dict(zip(NAMES, (0.1, None))), "wrong default")
    for j in range(2):
        t = str(j)
        opts = {}
        for n in NAMES:
            if eng.bool("set_%s%s" % (n, t)):
                opts[n] = value(eng, n, t)
        bad = eng.bool("bad" + t)
        if bad:
            # names before and after the others
            extra = eng.choose("unknown" + t, UNKNOWN)
            if eng.bool("first" + t):
                opts = dict([(extra, 1)], **opts)
            else:
                opts[extra] = 1
        copy = r.get_rsfile_options()
        try:
            r.set_rsfile_options(**opts)
        except ValueError as e:
            e.__traceback__ = None
            eng.check(bad, "options are refused", repr(e))
            eng.reach("mixed" if len(opts) > 1 else "unknown")
        else:
            eng.check(not bad, "an unknown option is accepted")
            same(eng, copy, model, "the result of get_rsfile_options() changes later on")
            model.update(opts)
            eng.reach("set")
        got = r.get_rsfile_options()
        same(eng, got, model, "wrong option")
        # the result is a copy
        got["default_spinlock_delay"] = got["other"] = -1
        got.pop("enforced_locking_timeout_value")
        same(eng, r.get_rsfile_options(), model, "the options change with a copy of them")
        eng.reach("copy")


def stream(w, lay, **kw):
    return w.rsfile.rsopen("f", "RWE" if lay == "text" else "RWB", buffering=0 if lay == "raw" else None, thread_safe=lay == "safe", **kw)


def apply(eng, w, how, lay):
    k = w.kernel
    k.symbolic_data = False
    k.block_raises = True
    k.blocked_forever = blocked
    node = k.inode("f")
    node.set_bytes(b"abc")
    d1, d2 = eng.int("d1", 256, 512) / 256, eng.int("d2", 256, 512) / 256
    e1 = eng.int("e1", 0, 512) / 256 if eng.bool("had_limit") else None
    limited = how not in ("timeout", "open-timeout") or eng.bool("limit")
    e2 = eng.int("e2", 0, 512) / 256 if limited else None
    r = w.rsfile
    r.set_rsfile_options(default_spinlock_delay=d1, enforced_locking_timeout_value=e1)
    old = how in ("lock", "timeout") and eng.bool("old")
    f = stream(w, lay, locking=False) if old else None
    if eng.bool("together"):
        r.set_rsfile_options(enforced_locking_timeout_value=e2, default_spinlock_delay=d2)
    else:
        r.set_rsfile_options(enforced_locking_timeout_value=e2)
        r.set_rsfile_options(default_spinlock_delay=d2)
    try:
        r.set_rsfile_options(default_spinlock_delay=0, enforced_locking_timeout_value=0, no_such_option=1)
        eng.fail("an unknown option is accepted")
    except ValueError as e:
        e.__traceback__ = None
    if how in ("lock", "timeout") and not old:
        f = stream(w, lay, locking=False)
    peer = None
    if eng.bool("peer"):
        peer = w.rsfile.rsopen("f", "RWB", buffering=0, thread_safe=False)
        eng.reach("peer")
    else:
        node.env.append(EnvLock(2, 0, 2 ** 62)) if w.platform == "unix" else foreign(k, node)
    pauses = []
    hook = k.sched.sleep_hook
    k.sched.sleep_hook = lambda d: (pauses.append(d), hook(d))
    timeout = eng.int("timeout", 0, 512) / 256 if "timeout" in how else None
    start = k.sched.now
    err = None
    try:
        if how in ("lock", "timeout"):
            f.lock_file(timeout=timeout)
        elif how in ("open", "open-timeout"):
            f = stream(w, lay, timeout=timeout)
        elif how == "read":
            r.read_from_file("f", timeout=timeout)
        elif how == "write":
            r.write_to_file("f", b"x", timeout=timeout)
        else:
            r.append_to_file("f", b"x", timeout=timeout)
    except (OSError, RuntimeError) as e:
        e.__traceback__ = None
        err = e
    except Deadlock as e:
        e.__traceback__ = None
        eng.check(old and e1 is None and timeout is None, "waits for ever")
        eng.end("opened without a limit")
    eng.check(err is not None, "a lock of somebody else is ignored")
    took = sub(k.sched.now, start)
    if timeout is not None:
        eng.check(isinstance(err, OSError), "wrong error on timeout", repr(err))
        eng.check(And(ge(took, timeout), le(took, add(timeout, d1 if old and eng.truth(gt(d1, d2)) else d2))), "the timeout is not honoured", repr(took))
        eng.reach("explicit")
        if e2 is None:
            eng.reach("disabled")
    else:
        eng.check(isinstance(err, RuntimeError), "wrong error at the end of the enforced delay", repr(err))
        if old:
            new_rule = And(ge(took, e2), le(took, add(e2, d1 if eng.truth(gt(d1, d2)) else d2)))
            if e1 is not None:
                new_rule = Or(new_rule, And(ge(took, e1), le(took, add(e1, d1))))
            eng.check(new_rule, "the enforced delay is not honoured", repr(took))
            eng.reach("old-stream")
        else:
            eng.check(And(ge(took, e2), le(took, add(e2, d2))), "the enforced delay is not the one of the options", repr(took))
        eng.reach("enforced")
    for p in pauses:
        eng.check(Or(eq(p, d2), And(old, eq(p, d1))), "the pauses are not those of the options", repr(p))
        eng.reach("polled")
    if how.startswith("open"):
        eng.reach("opening")
    if how in ("read", "write", "append"):
        eng.reach("helper")
    if f is not None:
        f.close()
    if peer is not None:
        peer.close()


def blocked(fd):
    raise Deadlock("blocked in the system")


def foreign(k, node):
    node.locks.append([object(), 2, 0, 2 ** 64])

"""C06 - locks of one process exclude each other, byte-exactly (symbolic ranges, symbolic histories)."""
from checks.lockhist import history  # noqa

PROPERTY = "C06"
ENCODED = [
    "RSFileIOAbstract.lock_file", "RSFileIOAbstract.unlock_file", "RSFileIOAbstract.close",
    "IntraProcessLockRegistryClass.register_file_lock/_try_locking_range/_try_unlocking_range/remove_file_locks",
    "rsfileio_unix.RSFileIO._inner_file_lock/_inner_file_unlock",
]
BOUNDS = {
    "quick": "3 streams (RW, RW through a second hard link, R), histories lock,lock,lock and lock,lock,(unlock|close|arbitrary unlock),lock, arbitrary unlock before any lock or after the only lock went away; starts and lengths 0..2^61, length 0 = to infinity",
    "thorough": "same streams, all histories lock,lock,any,any",
}
OUTSIDE = "longer histories, more than three streams"
REQUIRED = ["granted", "conflict", "reentrant", "unlocked", "unlock-refused", "closed"]
harness = history
MODES = ["RWB", "RWB", "RB"]
PATHS = ["f", "g", "f"]


def cases(tier):
    out = []
    ch = ("C06", "hardlink")
    quick = tier == "quick"
    for a in (0, 2):
        for b in range(3):
            if a == 1:
                continue  # stream 1 is stream 0 up to renaming
            for c in ("lock", "close", "unlock", "unlock_wrong"):
                for i in range(3):
                    if c == "unlock" and i == 2:
                        continue
                    if quick and (c == "close" and i not in (a, b) or c == "unlock_wrong" and i == 1):
                        continue
                    # quick: after a third lock the history ends; after a release one more lock is attempted
                    depth = (3 if c in ("lock", "unlock_wrong") else 4) if quick else 4
                    out.append(dict(name="L%d-L%d-%s%d" % (a, b, c, i), samples=1, weight=4 if c != "lock" else 3, params=dict(
                        modes=MODES, paths=PATHS, depth=depth, allow=["L", "L", "LUCX", "L" if quick else "LUCX"], checks=ch,
                        finish=False, first=[("lock", a), ("lock", b), (c, i)])))
        out.append(dict(name="unlock_wrong%d" % a, samples=1, params=dict(
            modes=MODES, paths=PATHS, depth=3, allow="LUCX", checks=ch, finish=False, first=[("unlock_wrong", a)])))
        out.append(dict(name="close%d-unlock_wrong" % a, samples=1, params=dict(
            modes=MODES, paths=PATHS, depth=3, allow=["L", "C", "X"], checks=ch, finish=False, first=[("lock", a), ("close", a)])))
        for b in range(3):
            for i in range(3):
                if i == 1 and quick:
                    continue
                out.append(dict(name="L%d-unlock_wrong%d-L%d" % (a, i, b), samples=1, params=dict(
                    modes=MODES, paths=PATHS, depth=3, allow="LUCX", checks=ch, finish=False,
                    first=[("lock", a), ("unlock_wrong", i), ("lock", b)])))
    return out

"""C07 - a held lock is backed by the kernel on every byte, and only there."""
from checks.lockhist import history  # noqa

PROPERTY = "C07"
ENCODED = [
    "RSFileIOAbstract.lock_file/unlock_file/close", "rsfileio_unix.RSFileIO._inner_file_lock/_inner_file_unlock",
    "rsfileio_unix.RSFileIO._inner_close_streams/_purge_pending_related_file_descriptors", "IntraProcessLockRegistryClass",
]
BOUNDS = {
    "quick": "3 streams (RW, RW, R) on one file, histories lock,lock,lock and lock,lock,(unlock|close),any then closing everything; starts and lengths 0..2^61; one universally quantified witness byte",
    "thorough": "histories of 5 operations",
}
OUTSIDE = "longer histories, more than three streams, descriptors of the file opened outside of rsfile"
REQUIRED = ["granted", "conflict", "unlocked", "closed"]
harness = history
MODES = ["RWB", "RWB", "RB"]


def cases(tier):
    out = []
    ch = ("C07",)
    for a in (0, 2):
        for b in range(3):
            for c in (("lock", 0), ("lock", 1), ("lock", 2), ("unlock", 0), ("unlock", 1), ("close", 0), ("close", 1), ("close", 2)):
                depth, al = 5, "LUC"
                if tier == "quick":
                    depth = 4
                    if c[0] == "lock":  # three locks, then everything is closed (or, on three streams, released in any order)
                        depth, al = (4, ["L", "L", "L", "UC"]) if (a, b, c[1]) == (0, 1, 2) else (3, "L")
                out.append(dict(name="L%d-L%d-%s%d" % (a, b, c[0], c[1]), samples=1, weight=20 if (a, b, c[1]) == (0, 1, 2) else 5 - len(c[0]) % 2, params=dict(
                    modes=MODES, depth=depth, allow=al, checks=ch,
                    first=[("lock", a), ("lock", b), c])))
    return out

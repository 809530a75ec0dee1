"""C08 - lifetime of native descriptors: kept while locks need them, closed exactly once."""
from checks.lockhist import history, Hist  # noqa

PROPERTY = "C08"
ENCODED = [
    "RSFileIOAbstract.close", "rsfileio_unix.RSFileIO._inner_close_streams/_purge_pending_related_file_descriptors/_inner_file_unlock",
    "IntraProcessLockRegistryClass.add_unique_id_data/remove_unique_id_data/try_deleting_unique_id_entry/unique_id_has_locks",
]
BOUNDS = {
    "quick": "3 streams on one file and 1 on another, every history of 4 lock/unlock/close operations then closing all, also with one failing close() or one failing release in the kernel, with a stream wrapping a borrowed descriptor, or with streams reopened meanwhile; plus 4-operation histories over symbolic ranges 0..2^61",
    "thorough": "histories of 6 operations (5 over symbolic ranges)",
}
OUTSIDE = "longer histories"
REQUIRED = ["granted", "unlocked", "closed", "fd-state", "deferred", "reopened", "fault"]
harness = history


def cases(tier):
    out = []
    ch = ("C08",)
    modes = ["RWB", "WB", "RB", "RWB"]
    paths = ["f", "f", "f", "h"]
    # every history of operations over disjoint ranges
    firsts = [("lock", i) for i in (0, 2, 3)] + [("close", i) for i in (0, 2, 3)]
    for a in firsts:
        for b in [("lock", i) for i in range(4)] + [("close", i) for i in range(4)] + [("unlock", 0)]:
            if a == b and a[0] == "close" or a[0] == "close" and (b[0] == "unlock" or b == ("lock", a[1])):
                continue
            out.append(dict(name="%s%d-%s%d" % (a + b), samples=1, weight=2 if b[0] == "lock" else 1, params=dict(
                modes=modes, paths=paths, depth=4 if tier == "quick" else 6, allow="LUC", checks=ch, symbolic=False, first=[a, b])))
    # descriptor numbers reused by streams opened meanwhile
    for a in (("lock", 0), ("lock", 1), ("close", 0), ("close", 1)):
        for b in (("close", 0), ("close", 1), ("reopen", 0), ("lock", 0)):
            if a == b or a[0] == "close" and b == ("lock", a[1]):
                continue
            out.append(dict(name="reuse-%s%d-%s%d" % (a + b), samples=1, params=dict(
                modes=["RWB", "RB"], depth=4 if tier == "quick" else 6, allow="LUCO", checks=ch, symbolic=False, first=[a, b])))
    # streams wrapping a borrowed descriptor (closefd=False)
    for a in (("lock", 0), ("lock", 1), ("close", 0), ("close", 1)):
        for b in (("close", 0), ("close", 1), ("lock", 0), ("lock", 1)):
            if a == b and a[0] == "close" or a[0] == "close" and b == ("lock", a[1]):
                continue
            out.append(dict(name="borrowed-%s%d-%s%d" % (a + b), samples=1, params=dict(
                modes=["RWB!", "RWB", "RB"], depth=4 if tier == "quick" else 6, allow="LUC", checks=ch, symbolic=False, first=[a, b])))
    # one close() reports an error
    for a in range(3):
        for b in (("lock", 0), ("lock", 1), ("close", 0), ("close", 1), ("close", 2)):
            out.append(dict(name="fault-L%d-%s%d" % ((a,) + b), samples=1, params=dict(
                modes=["RWB", "WB", "RB"], depth=4 if tier == "quick" else 6, allow="LUC", checks=ch, symbolic=False, fault="close",
                first=[("lock", a), b])))
    # one range cannot be released by the system
    for a in range(3):
        for b in (("lock", 0), ("lock", 1), ("close", 0), ("close", 1), ("close", 2)):
            out.append(dict(name="unlocking-L%d-%s%d" % ((a,) + b), samples=1, params=dict(
                modes=["RWB", "WB", "RB"], depth=4 if tier == "quick" else 5, allow="LUC", checks=ch, symbolic=False, fault="unlock",
                first=[("lock", a), b])))
    # symbolic, possibly overlapping ranges
    for a, b in ((0, 1), (0, 2), (1, 0)):
        for c in ("close", "unlock"):
            for i in range(3 if c == "close" else 2):
                out.append(dict(name="ranges-L%d-L%d-%s%d" % (a, b, c, i), samples=1, weight=3, params=dict(
                    modes=["RWB", "RWB", "RB"], paths=["f"] * 3, depth=4 if tier == "quick" else 5, allow="LUC", checks=ch,
                    first=[("lock", a), ("lock", b), (c, i)])))
    return out

"""writes properties.jsonl (one place to edit the statements)"""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=a))


S = "src/rsfile/"

prop(
    "C01", "Open modes mean exactly what the mode tables say",
    "For every mode string, rsopen() either rejects it with ValueError/TypeError without touching the filesystem, or opens "
    "the file with exactly the documented meaning of its standard or advanced flags: readable, writable, append, must create, "
    "must not create, synchronized, inheritable, erased, binary or text. Each standard mode behaves as its documented advanced "
    "equivalent, whether or not the file already exists and whatever it contains.",
    ["inputs", "configurations"], "every mode string up to the length bound over all ASCII characters; file existing or not; any file size",
    "Tests try a fixed list of mode strings; the combinations of up to 13 flags in any order, with invalid characters and duplicates, "
    "number in the millions.",
    [S + "rsfile_factories.py", S + "rsfileio_abstract.py", S + "rsfileio_unix.py"],
    [("mode parsing", S + "rsfile_factories.py: parse_standard_args, parse_advanced_args, rsopen"),
     ("flag translation", S + "rsfileio_unix.py: _inner_create_streams")],
)
prop(
    "C02", "Erasing on open happens only under the lock; a failed open destroys nothing",
    "When a file is opened with locking and erasure, its content disappears only once the opener owns the exclusive lock on the "
    "whole file, against other processes and against other streams of its own process. If the open fails for any reason (lock "
    "conflict, timeout, invalid arguments, system error before the erasure), the size and content of an existing file are unchanged. "
    "Opening without erasure never changes an existing file.",
    ["inputs", "fault_sequences", "schedules"], "any file size and content, any lock held by another process or stream (range, kind, release "
    "time), any timeout, any failing system call",
    "Tests only look at the final content in a handful of conflicts; the order of locking and truncation under faults is not sampled.",
    [S + "rsfile_factories.py", S + "rsfileio_abstract.py"],
    [("lock then truncate", S + "rsfile_factories.py: rsopen"), ("locking", S + "rsfileio_abstract.py: lock_file")],
)
prop(
    "C03", "A failing open leaks no descriptor and no lock",
    "If opening a stream raises, at whatever step and for whatever reason, then once the exception has been handled every descriptor "
    "that the call opened (or received from a custom opener) has been closed exactly once (later, when another stream of the process holds a lock on that file and so defers its closing). No lock of that attempt remains, so the same file can be opened and "
    "locked again at once; a wrapped descriptor passed with closefd=False is still open.",
    ["fault_sequences", "inputs", "configurations"], "any single failing system call at any step of the open, any argument combination of the modelled set "
    "(directories, openers, bad encodings, lock conflicts)",
    "Tests provoke three or four specific failures and do not count descriptors.",
    [S + "rsfile_factories.py", S + "rsfileio_abstract.py", S + "rsfileio_unix.py"],
    [("cleanup on failure", S + "rsfile_factories.py: rsopen"), ("constructor", S + "rsfileio_abstract.py: RSFileIOAbstract.__init__"),
     ("close", S + "rsfileio_abstract.py: close")],
)
prop(
    "C04", "Wrapped descriptors: any number works, closefd is honoured, never erased",
    "Any open file descriptor number (0 included) can be wrapped, through fileno, handle or an integer name; a negative one is rejected with "
    "ValueError/TypeError. Wrapping never erases or recreates the file whatever the mode, close() closes the descriptor if and only if closefd is "
    "true, and the stream reports that very descriptor from fileno().",
    ["inputs", "configurations"], "every descriptor number, closefd value, mode of the table, wrapping argument, file size",
    "Tests wrap a few descriptors obtained from os.open, never descriptor 0, and do not check the content is preserved.",
    [S + "rsfile_factories.py", S + "rsfileio_abstract.py", S + "rsfileio_unix.py"],
    [("wrapping", S + "rsfileio_abstract.py: __init__"), ("no truncation of wrapped streams", S + "rsfile_factories.py: rsopen"),
     ("close", S + "rsfileio_unix.py: _inner_close_streams")],
)
prop(
    "C05", "close() always completes: once, releasing everything, even when parts fail",
    "close() on any layer (raw, buffered, text, thread-safe) is idempotent, leaves the stream closed (any later I/O or locking call raises "
    "ValueError), releases every lock the stream held and closes its descriptor exactly once. This still holds when flushing "
    "buffered data, unlocking or closing fails in the operating system; the error is then reported to the caller.",
    ["fault_sequences", "histories"], "any single failing system call during close, any number of held locks (up to the bound) with any ranges, any stream layer",
    "Tests close healthy streams; failures of write/unlock/close during close() are not injected systematically.",
    [S + "rsfileio_abstract.py", S + "rsfileio_unix.py", S + "rsfile_streams.py"],
    [("raw close", S + "rsfileio_abstract.py: close"), ("descriptor release", S + "rsfileio_unix.py: _inner_close_streams, _purge_pending_related_file_descriptors")],
)
prop(
    "C06", "Locks exclude each other inside a process, byte-exactly",
    "Between streams of one process on the same file (whatever path each was opened by), a lock is granted if and only if no other stream holds an overlapping range, except that "
    "shared locks of different streams may overlap; overlapping a range already held by the same stream raises RuntimeError. "
    "Unlocking needs exactly a held range (else RuntimeError, and nothing changes), releases only it, and makes it available at once.",
    ["inputs", "histories"], "any ranges (start, length, to end of file), any mix of shared and exclusive, any history of lock/unlock/close up to the bound over three streams",
    "Tests use a few hand-picked ranges; off-by-one and infinite-range overlap cases need all pairs of ranges.",
    [S + "rsfile_registries.py", S + "rsfileio_abstract.py"],
    [("in-process registry", S + "rsfile_registries.py: _try_locking_range, _try_unlocking_range"), ("locking", S + "rsfileio_abstract.py: lock_file, unlock_file")],
    state=[("registry", "ranges held per file and descriptor", S + "rsfile_registries.py: IntraProcessLockRegistryClass")],
)
prop(
    "C07", "A held lock always protects against other processes, no more and no less",
    "As long as a stream holds a range lock, the operating system denies every incompatible lock on every byte of that range to other processes, whatever "
    "other streams of the process do meanwhile on the same file (open, lock, unlock, close). A byte that no stream of the process "
    "holds any more is free for other processes.",
    ["histories", "inputs"], "any history of open/lock/unlock/close of up to three streams on one file, any ranges, shared or exclusive; any byte",
    "fcntl locks are lost or merged silently per process; tests check a single close scenario with subprocesses.",
    [S + "rsfileio_unix.py", S + "rsfile_registries.py", S + "rsfileio_abstract.py"],
    [("descriptor retention", S + "rsfileio_unix.py: _inner_close_streams, _purge_pending_related_file_descriptors"),
     ("kernel lock/unlock", S + "rsfileio_unix.py: _inner_file_lock, _inner_file_unlock")],
)
prop(
    "C08", "Descriptors are kept while needed and then closed exactly once",
    "The descriptor of a closed stream stays open at most as long as some stream of the process holds a lock on the same file, and never is closed while such a lock exists. "
    "It is closed exactly once, no later than when the last such lock is released; no history of opens, locks, unlocks and closes leaks a "
    "descriptor or closes one that has been reused by something else.",
    ["histories", "fault_sequences"], "any history up to the bound over several streams and two files, with at most one failing close()",
    "Leaks and double closes depend on the interleaving of closes and unlocks over several streams; tests check one such order.",
    [S + "rsfileio_unix.py", S + "rsfile_registries.py"],
    [("deferred close", S + "rsfileio_unix.py: _purge_pending_related_file_descriptors"), ("pending descriptors", S + "rsfile_registries.py: add_unique_id_data, remove_unique_id_data, try_deleting_unique_id_entry")],
)
prop(
    "C09", "Threads waiting for a lock are woken up; no lost wakeup, no deadlock",
    "When threads of one process wait without timeout for a lock held by another stream, they obtain it as soon as it becomes free, whether it is freed by unlocking, "
    "by leaving a context manager or by closing the stream, under every interleaving. Two threads never hold incompatible locks at "
    "the same time, and no interleaving of locking, unlocking and closing deadlocks or corrupts later locking.",
    ["schedules"], "all schedules of up to three threads with bounded preemptions",
    "Tests run real threads with sleeps; the schedules that lose a wakeup are rare and not forced.",
    [S + "rsfile_registries.py", S + "rsfileio_abstract.py"],
    [("wait/notify", S + "rsfile_registries.py: register_file_lock, _try_unlocking_range, remove_file_locks")],
)
prop(
    "C10", "Lock timeouts are honoured and a failed attempt leaves nothing behind",
    "lock_file() with a timeout makes at least one attempt, succeeds if the range is or becomes free while it is waiting, and otherwise raises an OSError no "
    "earlier than the timeout and at most about one polling delay after it; without a timeout it waits for the lock, or raises RuntimeError once the enforced global timeout has elapsed. "
    "Whenever it raises, no lock of the attempt remains in the process or in the kernel.",
    ["inputs", "schedules", "fault_sequences"], "any timeout, any polling delay, any release time of the competing lock and any clock progress (real-valued), any error of the kernel lock call, up to the polling bound",
    "Real-time tests sample three timeouts; the boundary cases depend on how the clock and the release interleave.",
    [S + "rsfileio_abstract.py", S + "rsfile_registries.py"],
    [("polling loop", S + "rsfileio_abstract.py: lock_file"), ("options", S + "rsfile_registries.py: set_rsfile_options")],
)
prop(
    "C11", "Lock ranges are the ones asked for",
    "The locked bytes are exactly [base+offset, base+offset+length), base being 0, the current position or the current size according to whence, and "
    "everything after the start when length is None or 0; the default share mode is exclusive for writable streams and shared otherwise, and a mode the stream cannot "
    "own is refused. Unlocking with the same arguments, or leaving the context manager (even after the position or size changed), releases exactly these bytes; invalid arguments "
    "are rejected without locking anything.",
    ["inputs"], "any offset, length, whence, position, size, share mode and access mode; any byte",
    "Tests use small constants; the range arithmetic must hold for every 63-bit offset and for positions that move.",
    [S + "rsfileio_abstract.py", S + "rsfileio_unix.py"],
    [("range computation", S + "rsfileio_abstract.py: _convert_relative_offset_to_absolute, lock_file, unlock_file, _lock_remover"),
     ("kernel call", S + "rsfileio_unix.py: _inner_file_lock")],
)
prop(
    "C12", "Buffers never bypass locks",
    "On buffered and text streams, data written before the lock is released (by unlock_file, by a context manager, normally or through an exception, or by "
    "close) reaches the file before the lock is released, and data read after locking is data that was in the file at or after the lock was obtained. "
    "Data written before lock_file() is in the file before the lock is taken.",
    ["inputs", "histories"], "any small write/read/seek before, inside and after the locked section, any split of the kernel transfers, any stream layer",
    "Tests check content after the fact in one process; the ordering of flush and unlock is invisible to them.",
    [S + "rsfile_streams.py", S + "rsfileio_abstract.py"],
    [("buffer reset around locking", S + "rsfile_streams.py: lock_file, unlock_file, _reset_buffers"), ("context manager", S + "rsfileio_abstract.py: _lock_remover")],
)
prop(
    "C13", "Raw streams read, write, seek and append like a file",
    "On a raw stream, seek/tell/read/readinto/readall/write/size act on the file exactly as a byte array with a position would: the returned counts and data are those really "
    "transferred, the position moves by that count, writes past the end leave zeros in the gap, and append-mode writes go to the end wherever the position was. Operations the access mode "
    "does not allow raise an error and change nothing.",
    ["inputs"], "any file size and content, any position, any transfer size, any partial transfer by the kernel, every whence",
    "Tests check fixed contents of a few bytes; partial transfers never happen on regular files in tests.",
    [S + "rsfileio_abstract.py", S + "rsfileio_unix.py"],
    [("raw operations", S + "rsfileio_abstract.py: read, readinto, readall, write, seek, tell, size"), ("system calls", S + "rsfileio_unix.py: _inner_read, _inner_write, _inner_seek")],
)
prop(
    "C14", "truncate() sets the exact size, keeps the rest, and does not move the position",
    "truncate(n) makes the file exactly n bytes (n defaults to the current position), returns n, keeps every byte below min(old size, n), makes every new byte zero, and leaves the stream position "
    "unchanged, on raw, buffered and text streams. A negative size or a non-writable stream raises an error and changes nothing.",
    ["inputs"], "any old size, new size, content, position; pending buffered data",
    "Tests use a few constants below 10000 bytes.",
    [S + "rsfileio_abstract.py", S + "rsfileio_unix.py", S + "rsfile_streams.py"],
    [("truncate", S + "rsfileio_abstract.py: truncate"), ("resize", S + "rsfileio_unix.py: _inner_reduce, _inner_extend")],
)
prop(
    "C15", "Buffered and text streams stay coherent with the file under partial transfers",
    "Any sequence of read, write, seek, tell, truncate and flush on a buffered binary stream gives the results of the same sequence on an in-memory byte array, and after flush() or close() the file holds exactly these bytes, "
    "however the kernel splits the transfers; size() accounts for data still buffered. Text streams return and store exactly the characters written, for every newline mode.",
    ["histories", "inputs"], "all operation sequences up to the bound with small sizes around the buffer size, all splits of kernel transfers",
    "The kernel practically never splits small transfers on regular files, so tests never exercise it.",
    [S + "rsfile_streams.py", S + "rsfileio_abstract.py", S + "rsfile_factories.py"],
    [("stream stack", S + "rsfile_streams.py"), ("raw transfers", S + "rsfileio_abstract.py: read, write")],
)
prop(
    "C16", "sync() pushes everything or raises",
    "When sync() returns on any layer, all data written through the stream before has been handed to the kernel and then a synchronisation primitive covering data (and metadata when "
    "metadata=True) has succeeded on that file afterwards. If every suitable primitive fails, sync() raises; it never reports success otherwise.",
    ["fault_sequences", "configurations"], "any combination of metadata/full_flush, availability and failure of each primitive, layer, pending data",
    "Tests cannot observe which primitive ran, nor make fsync fail.",
    [S + "rsfileio_unix.py", S + "rsfile_streams.py"],
    [("primitive selection", S + "rsfileio_unix.py: _inner_sync"), ("flush first", S + "rsfile_streams.py: sync")],
)
prop(
    "C17", "Thread-safe streams run one call at a time",
    "On a stream opened with thread_safe=True, two method calls from different threads never run at the same time, from the very first call on, and a thread that holds the "
    "stream's mutex excludes calls of other threads while being able to call methods itself. Concurrent writes are therefore stored whole, in some order, under every schedule.",
    ["schedules"], "all schedules of two threads with bounded preemptions at every source line of the library",
    "Races between threads are not reproducible by tests that just start threads.",
    [S + "rsfile_streams.py"],
    [("mutex proxy", S + "rsfile_streams.py: RSThreadSafeWrapper")],
)
prop(
    "C18", "Whole-file helpers transfer the whole data or raise",
    "write_to_file() leaves exactly the data in the file, append_to_file() leaves the previous content followed by the data, and read_from_file() returns the whole content, for every buffering and text/binary "
    "choice and however the kernel splits transfers. Otherwise they raise; must_create, must_not_create, sync and locking arguments are honoured.",
    ["inputs", "fault_sequences"], "data and file contents up to the bound, all splits of transfers, all argument combinations of the modelled set",
    "Partial transfers never happen in tests on regular files.",
    [S + "rsfile_utilities.py"],
    [("helpers", S + "rsfile_utilities.py: read_from_file, write_to_file, append_to_file")],
)
prop(
    "C19", "Windows backend passes exact 64-bit numbers to the system",
    "On Windows, the lock ranges, file positions, sizes, file identifiers and timestamps that the library passes to or receives from the system calls are exactly the intended ones for "
    "the whole 64-bit range, with both native backends; unbounded lock ranges cover everything and unlock with the same numbers. Every native error becomes an OSError with the documented errno equivalent.",
    ["inputs"], "any 63-bit offset and length, any 64-bit size/identifier/timestamp, any native error code",
    "No test runs on the Windows code here; even there tests use small offsets only (the high words are always zero).",
    [S + "rsfileio_windows.py", S + "rsbackend/_utilities.py", S + "rsbackend/windows_ctypes.py", S + "rsbackend/windows_pywin32.py"],
    [("conversions", S + "rsbackend/_utilities.py"), ("argument passing", S + "rsfileio_windows.py: _win32_convert_file_range_arguments"),
     ("native bindings", S + "rsbackend/windows_ctypes.py, raw_win32_ctypes.py")],
)
prop(
    "C20", "Windows streams obey the same file contract",
    "The Windows raw stream opens with the dispositions and access the mode asks for (sharing everything, inheritable only on request), and its read/write/seek/append/truncate/size results equal those of the "
    "portable byte-array contract, including zero-filled extension at every size and position preserved by truncate. Its handles are closed exactly once.",
    ["inputs", "configurations"], "any flags, file size, position, transfer size, truncation size within the loop bound",
    "The Windows code cannot run on the test platform.",
    [S + "rsfileio_windows.py", S + "rsbackend/windows_ctypes.py", S + "rsfileio_abstract.py"],
    [("open", S + "rsfileio_windows.py: _inner_create_streams"), ("resize", S + "rsfileio_windows.py: _inner_reduce, _inner_extend; rsfileio_abstract.py: truncate")],
)
prop(
    "C21", "A forked child owns none of its parent's locks",
    "After a fork, the child does not consider any range as locked by its own process: its locking calls succeed or fail according to the locks really held in the system, "
    "and nothing it does with inherited streams (unlock, close) releases a lock of the parent or closes a descriptor of the parent. The parent's view of its own locks is unaffected.",
    ["histories", "inputs"], "any ranges locked by the parent before the fork, any operation of the child afterwards, up to the bound",
    "Tests fork once with the whole file locked.",
    [S + "rsfile_registries.py", S + "rsfileio_abstract.py"],
    [("fork detection", S + "rsfile_registries.py: _check_forking")],
)
prop(
    "C22", "Non-blocking and failing transfers are reported faithfully",
    "On a raw stream, a transfer that would block returns None (read, readinto, write) and transfers nothing; any other system error is raised as OSError with its original errno, except a broken pipe on reading which is "
    "end of file. No failure of a transfer, of a seek, of a truncation or of a request about the file is silently swallowed, and after an error the stream remains usable and closable.",
    ["fault_sequences", "inputs"], "any errno on any single call of read, readinto, readall, write, seek, tell, size, truncate, unique_id, times",
    "Tests meet EAGAIN in one pipe test, other errors never.",
    [S + "rsfileio_unix.py", S + "rsfileio_abstract.py"],
    [("error conversion", S + "rsfileio_unix.py: _unix_error_converter, _inner_read, _inner_write")],
)
prop(
    "C23", "The patched open() locks nothing and behaves like rsopen()",
    "The replacement of the open() builtin never takes or waits for a file lock and never creates a mutex, accepts the standard arguments under their standard names and positions and honours them exactly as rsopen() with locking and thread safety off does, and "
    "the patched raw file class erases, creates and rejects according to its mode like the standard one.",
    ["configurations", "inputs"], "every standard mode, existing or missing file of any size, buffering and closefd choices, any competing lock",
    "Tests run the stdlib suite on the patched module, without any competing lock.",
    [S + "rsfile_utilities.py"],
    [("replacement", S + "rsfile_utilities.py: BUILTIN_OPEN_FUNC_REPLACEMENT, RSFileIOWrapper")],
)
prop(
    "C24", "Data synced by the library survives power loss",
    "Data and size of a file for which sync() returned are still there after a power loss at any later point.",
    ["crash_points"], "any crash point after sync()",
    "Power loss cannot be provoked by tests.",
    [S + "rsfileio_unix.py"],
    [("fsync", S + "rsfileio_unix.py: _inner_sync")],
)

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    import jsonschema

    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, sch)
        assert len(p["title"]) <= 80
    print(len(P), "properties")

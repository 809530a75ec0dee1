"""
symx.posix - a POSIX kernel model over symbolic values.

Files, open file descriptions, descriptors, per-process fcntl() byte-range locks (merged per
process, all dropped by any close() of the inode by the process), pipes/devices/directories,
partial transfers, EAGAIN, injected faults.  The model runs on symbolic or concrete values and
logs every call, so that sampled traces can be compared with the real kernel (conform.py).
"""
import errno as E
import os as _os
import stat as _stat

from .engine import (
    And, EngineError, If, Iff, Implies, Max, Min, Not, Or, SymArray, SymBuf, SymBytes, SymInt, SymView, add, eq, ex, ge, gt, is_concrete, is_sym,
    le, lt, ne, sub, sym_len, wrap,
)

INF = 2 ** 63  # "infinity" for byte ranges
OFF_MAX = 2 ** 63 - 1

LOCK_SH, LOCK_EX, LOCK_NB, LOCK_UN = 1, 2, 4, 8
F_GETFD, F_SETFD, F_GETFL, F_SETFL, F_FULLFSYNC, FD_CLOEXEC = 1, 2, 3, 4, 51, 1
F_DUPFD, F_DUPFD_CLOEXEC = 0, 1030


def oserr(no, msg=None, *rest):
    if type(no) is int and msg is None:
        msg = _os.strerror(no)
    return OSError(no, msg or "injected error", *rest)


class Content(object):
    """byte content: base function plus a list of patches (start, end, fn)"""

    def __init__(self, base=0):
        self.base = base if callable(base) else (lambda i: base)
        self.patches = []

    def patch(self, start, end, fn):
        self.patches.append((ex(start), ex(end), fn))

    def snapshot(self):
        c = Content(self.base)
        c.patches = list(self.patches)
        return c

    def get(self, i):
        i = ex(i)
        v = None
        for start, end, fn in reversed(self.patches):
            c = And(le(start, i), lt(i, end))
            if c is True:
                v = fn(sub(i, start))
                return self._fold(i, v, stop=(start, end, fn))
            if c is not False:
                return self._fold(i)
        return self.base(i)

    def _fold(self, i, v=None, stop=None):
        if stop is not None:
            return v
        v = self.base(i)
        for start, end, fn in self.patches:
            c = And(le(start, i), lt(i, end))
            if c is False:
                continue
            v = If(c, fn(sub(i, start)), v)
        return v


CWD = b"/symx-cwd"  # working directory of the modelled process


class Inode(object):
    def __init__(self, kernel, kind="reg", size=0, base=0, dev=5, ino=None, mode=0o644):
        self.kernel = kernel
        self.kind = kind
        self.size = size
        if base == 0 and not callable(base):
            self.content = Content(0)
        else:
            fn = base if callable(base) else (lambda i: base)
            self.content = Content(lambda i: If(lt(i, size), fn(i), 0))  # nothing but zeros beyond the end
        self.dev = dev
        self.ino = kernel.next_ino() if ino is None else ino
        self.perm = mode
        self.own_ops = []  # history of lock operations by "our" process(es): (pid, op, start, end); op 0/1/2
        self.env = []  # locks of other processes: EnvLock
        self.nlink = 1
        self.pipe_in = None  # for fifos: bytes available (symbolic size) / content
        self.eof = False
        self.writes = 0
        self.sync_gen = None
        self.atime = 1.0
        self.mtime = 2.0
        self.ctime = 3.0
        self.tty = False

    def set_bytes(self, data):
        self.size = len(data)
        self.content = Content(0)
        b = SymBytes.of(bytes(data))
        self.content.patch(0, len(data), b.fn)

    def get_bytes(self):
        """concrete content (forks when sizes are symbolic)"""
        n = int(self.size)
        return bytes(int(wrap(self.content.get(i))) for i in range(n))

    def held(self, pid, b):
        """lock type held by process pid at byte b, as granted by the kernel: 0, 1 (shared) or 2 (exclusive)"""
        v = 0
        b = ex(b)
        for p, op, start, end in self.own_ops:
            if p != pid:
                continue
            v = If(And(le(start, b), lt(b, end)), op, v)
        return v


class EnvLock(object):
    """a lock held by another process"""

    def __init__(self, kind, start, end, release_at=None):
        self.kind = kind  # 1 or 2
        self.start = ex(start)
        self.end = ex(end)
        self.release_at = release_at
        self.dead = False


class OFD(object):
    def __init__(self, inode, flags, path=None):
        self.inode = inode
        self.flags = flags
        self.pos = 0
        self.refs = 1
        self.path = path

    @property
    def can_read(self):
        return (self.flags & _os.O_ACCMODE) in (_os.O_RDONLY, _os.O_RDWR)

    @property
    def can_write(self):
        return (self.flags & _os.O_ACCMODE) in (_os.O_WRONLY, _os.O_RDWR)


class Kernel(object):
    """one per explored path"""

    def __init__(self, eng, sched):
        self.eng = eng
        self.sched = sched
        self.pid = 100
        self._ino = 10
        self.fs = {}  # path bytes -> Inode
        self.fds = {100: {}}  # pid -> {fd -> OFD}
        self.cloexec = {}  # (pid, fd) -> bool
        self.log = []  # (name, args, outcome)
        self.closed = []  # (pid, fd) really closed
        self.bad_closes = []
        self.opened = []  # (fd, inode, flags, mode)
        self.symbolic_data = True  # read() returns SymBytes (else real bytes, sizes concretised)
        self.partial_reads = False
        self.partial_writes = False
        self.partial_budget = None  # how many transfers may be partial (None: all of them)
        self.pipe_budget = None  # same thing for the transfers on pipes and devices, which may always be partial
        self.eagain = False
        self.fault_budget = 0
        self.fault_calls = None  # None: every call
        self.fault_errnos = None
        self.faults = []  # injected so far
        self.fault_index = 0
        self.block_max = None
        self.pause_hook = None  # called before each syscall (name, args)
        self.after_hook = None
        self.umask = 0o022
        self.write_hook = None
        self.mutate_hook = None  # called with (node, kind) before the size or content of a file changes
        self.symfds = {}  # pid -> [(symbolic fd number, OFD)]
        self.blksize = 4096
        self.min_fd = 0  # a process with its standard streams closed: 0 is the number most easily mistaken for "none"
        self.use_yield = True
        sched.sleep_hook = self._sleep

    # ------------------------------------------------------------- helpers

    def next_ino(self):
        self._ino += 1
        return self._ino

    def inode(self, path, **k):
        """create a file in the modelled filesystem"""
        i = Inode(self, **k)
        self.fs[self._path(path)] = i
        return i

    @staticmethod
    def _path(p):
        p = _os.fspath(p)
        if isinstance(p, str):
            p = p.encode("utf-8", "surrogateescape")
        if p.startswith(CWD + b"/"):
            p = p[len(CWD) + 1:]
        if b"/" in p:
            p = _os.path.normpath(p)
        return p

    def table(self):
        return self.fds[self.pid]

    def install(self, inode, flags=_os.O_RDWR, fd=None):
        """descriptor opened by somebody else (wrapped by the code under test)"""
        ofd = OFD(inode, flags)
        if is_sym(fd):
            self.symfds.setdefault(self.pid, []).append((fd, ofd))
            return fd
        fd = self._alloc(fd)
        self.table()[fd] = ofd
        self.cloexec[(self.pid, fd)] = False
        return fd

    def _alloc(self, fd=None):
        t = self.table()
        if fd is None:
            fd = self.min_fd
            while fd in t or any(self.eng.truth(eq(fd, s)) for s, _o in self.symfds.get(self.pid, ())):
                fd += 1
        return fd

    def _ofd(self, fd):
        if isinstance(fd, bool) or not isinstance(fd, int):
            if hasattr(fd, "__index__"):
                fd = fd.__index__()
            else:
                raise TypeError("an integer is required")
        if is_sym(fd):
            for s, o in self.symfds.get(self.pid, ()):
                if self.eng.truth(eq(fd, s)):
                    return o
            for n, o in self.table().items():
                if self.eng.truth(eq(fd, n)):
                    return o
            raise oserr(E.EBADF)
        fd = int(fd)
        if fd > 2 ** 31 - 1 or fd < -(2 ** 31):
            raise OverflowError("Python int too large to convert to C int")
        o = self.table().get(fd)
        if o is None:
            raise oserr(E.EBADF)
        return o

    def call(self, name, *args, **kw):
        """generic syscall entry: preemption, abort, fault injection, logging"""
        self.eng._check_abort()
        self.sched.point(name)
        self.eng.stats.transitions += 1
        if self.pause_hook is not None:
            self.pause_hook(name, args)
        fault = self._fault(name, args)
        try:
            if fault is not None:
                if fault[0] == "after":
                    getattr(self, "_" + name)(*args, **kw)
                raise fault[1]
            r = getattr(self, "_" + name)(*args, **kw)
        except OSError as e:
            self.log.append((name, args, ("err", e.errno, fault is not None)))
            raise
        self.log.append((name, args, ("ok", r)))
        if self.after_hook is not None:
            self.after_hook(name, args, r)
        return r

    def _sleep(self, d):
        fault = self._fault("sleep", (d,))
        if fault is not None:
            raise fault[1]

    def _fault(self, name, args):
        if self.fault_budget <= 0 or name == "isatty":  # isatty() never raises
            return None
        if self.fault_calls is not None:
            ok = self.fault_calls(name, args) if callable(self.fault_calls) else name in self.fault_calls
            if not ok:
                return None
        errnos = self.fault_errnos(name) if callable(self.fault_errnos) else (self.fault_errnos or (E.EIO,))
        if name == "sleep":
            errnos = [x for x in errnos if x == "kbd"]  # sleeping never fails, but can be interrupted
        if name == "close":
            errnos = [x for x in errnos if x != "kbd"]
        if not errnos or not self.eng.bool("fault_%s" % name):
            return None
        self.fault_budget -= 1
        no = self.eng.choose("errno", errnos)
        if no == "kbd":
            self.faults.append((name, args, no))
            return ("before", KeyboardInterrupt())
        if no == "sym":
            no = self.eng.int("errno_v", 1, 132)
            for k in (E.EAGAIN, E.EPIPE, E.EINTR, E.EEXIST, E.ENOENT, E.EACCES, E.EPERM, E.ESHUTDOWN):
                self.eng.assume(ne(no, k))
        self.faults.append((name, args, no))
        when = "before"
        if name == "close":
            when = "after"  # linux: the descriptor is released even when close() reports an error
        return (when, oserr(no))

    # ------------------------------------------------------------- syscalls

    def _open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self._path(path)
        if not isinstance(flags, int) or not (isinstance(mode, int) or is_sym(mode)):
            raise TypeError("an integer is required")
        if b"\0" in p:
            raise ValueError("embedded null byte")
        acc = flags & _os.O_ACCMODE
        node = self.fs.get(p)
        created = False
        if node is None:
            if not flags & _os.O_CREAT:
                raise oserr(E.ENOENT)
            node = Inode(self, mode=mode & ~self.umask)
            self.fs[p] = node
            created = True
        else:
            if flags & _os.O_CREAT and flags & _os.O_EXCL:
                raise oserr(E.EEXIST)
            if node.kind == "dir" and (acc != _os.O_RDONLY or flags & _os.O_CREAT):
                raise oserr(E.EISDIR)
            if flags & getattr(_os, "O_DIRECTORY", 0) and node.kind != "dir":
                raise oserr(E.ENOTDIR)
            if flags & _os.O_TRUNC and node.kind == "reg":
                self._set_size(node, 0)
        ofd = OFD(node, flags, p)
        fd = self._alloc()
        self.table()[fd] = ofd
        self.cloexec[(self.pid, fd)] = True  # PEP 446: non-inheritable, even when O_CLOEXEC isn't given
        self.opened.append((fd, node, flags, mode, created))
        return fd

    def _close(self, fd):
        try:
            ofd = self._ofd(fd)
        except OSError:
            self.bad_closes.append((self.pid, fd))
            raise
        if is_sym(fd):
            l = self.symfds.get(self.pid, [])
            for x in l:
                if x[1] is ofd:
                    l.remove(x)
        else:
            fd = int(fd)
            del self.table()[fd]
        self.closed.append((self.pid, fd, ofd))
        self._drop_locks(ofd.inode)
        ofd.refs -= 1

    def _drop_locks(self, node):
        """POSIX: closing *any* descriptor of a file drops all the locks of the process on that file"""
        if any(p == self.pid for p, _o, _s, _e in node.own_ops):
            node.own_ops.append((self.pid, 0, 0, INF))

    def _dup(self, fd, inheritable=False):
        ofd = self._ofd(fd)
        ofd.refs += 1
        n = self._alloc()
        self.table()[n] = ofd
        self.cloexec[(self.pid, n)] = not inheritable
        return n

    def _fstat(self, fd):
        return StatResult(self, self._ofd(fd).inode)

    def _stat(self, path, **k):
        if isinstance(path, int):
            return self._fstat(path)
        node = self.fs.get(self._path(path))
        if node is None:
            raise oserr(E.ENOENT)
        return StatResult(self, node)

    _lstat = _stat

    def _isatty(self, fd):
        try:
            return self._ofd(fd).inode.tty
        except OSError:
            return False

    def _lseek(self, fd, offset, whence):
        ofd = self._ofd(fd)
        node = ofd.inode
        if not isinstance(offset, int):
            raise TypeError("an integer is required")
        if node.kind in ("fifo", "chr"):
            raise oserr(E.ESPIPE)
        if type(offset) is int and not -(2 ** 63) <= offset < 2 ** 63:
            raise OverflowError("Python int too large to convert to C long")
        if whence == 0:
            new = offset
        elif whence == 1:
            new = ofd.pos + offset
        elif whence == 2:
            new = node.size + offset
        else:
            raise oserr(E.EINVAL)
        if new < 0:
            raise oserr(E.EINVAL)
        if new > OFF_MAX:
            raise oserr(E.EOVERFLOW)
        ofd.pos = new
        return new

    def _set_size(self, node, size):
        if self.mutate_hook is not None:
            self.mutate_hook(node, "size")
        node.content.patch(Min(size, node.size), INF, lambda i: 0)
        node.size = size

    def _ftruncate(self, fd, size):
        ofd = self._ofd(fd)
        if not isinstance(size, int):
            raise TypeError("an integer is required")
        if size < 0:
            raise oserr(E.EINVAL)
        if not ofd.can_write or ofd.inode.kind != "reg":
            raise oserr(E.EINVAL)
        if type(size) is int and size > OFF_MAX:
            raise OverflowError("Python int too large to convert to C long")
        self._set_size(ofd.inode, size)
        ofd.inode.writes += 1

    def _truncate(self, path, size):
        if isinstance(path, int):
            return self._ftruncate(path, size)
        node = self.fs.get(self._path(path))
        if node is None:
            raise oserr(E.ENOENT)
        self._set_size(node, size)
        node.writes += 1

    def _read(self, fd, n):
        ofd = self._ofd(fd)
        node = ofd.inode
        if not isinstance(n, int):
            raise TypeError("an integer is required")
        if n < 0:
            raise oserr(E.EINVAL)
        if not ofd.can_read:
            raise oserr(E.EBADF)
        if node.kind == "dir":
            raise oserr(E.EISDIR)
        if node.kind == "reg":
            avail = Max(0, sub(node.size, ofd.pos))
        else:
            if self.eagain and self.eng.bool("eagain_read"):
                raise oserr(E.EAGAIN)
            avail = node.size
        if self.eng.truth(Or(eq(n, 0), eq(avail, 0))):
            return b""
        k = top = wrap(Min(n, avail))
        if self._may_split(node, self.partial_reads, top):
            k = self._split("nread", node, top)
        snap = node.content.snapshot()
        pos = ofd.pos if node.kind == "reg" else getattr(ofd.inode, "rpos", 0)
        if not self.symbolic_data:
            k = int(k)
            p0 = int(pos)
            data = bytes(int(wrap(snap.get(p0 + i))) for i in range(k))
        elif type(k) is int and self.eng.concrete is not None:
            if k > 1 << 20:
                self.eng.end("concrete replay with huge transfer")
            data = bytes(int(snap.get(ex(pos) + i)) for i in range(k))
        else:
            zp = ex(pos)
            data = SymBytes(k, lambda i: snap.get(add(zp, i)))
        if node.kind == "reg":
            ofd.pos = wrap(add(pos, k))
        else:
            node.rpos = wrap(add(pos, k))
            node.size = wrap(sub(node.size, k))
        return data

    def _write(self, fd, data):
        ofd = self._ofd(fd)
        node = ofd.inode
        if type(data) in (SymBuf, SymView, SymArray):
            data = data.tobytes()
        elif type(data) is not SymBytes:
            data = memoryview(data)  # TypeError for non-buffers
            data = data.tobytes()
        n = sym_len(data)
        if not ofd.can_write:
            raise oserr(E.EBADF)
        if node.kind != "reg" and self.eagain and self.eng.bool("eagain_write"):
            raise oserr(E.EAGAIN)
        if n == 0:
            return 0
        k = n
        if self._may_split(node, self.partial_writes, n):
            k = self._split("nwritten", node, n)
        b = SymBytes.of(data)
        if node.kind != "reg":
            node.out = getattr(node, "out", [])
            node.out.append((k, b))
            return k
        if ofd.flags & _os.O_APPEND:
            ofd.pos = node.size
        start = ofd.pos
        end = wrap(add(start, k))
        if self.eng.truth(gt(end, OFF_MAX)):
            raise oserr(E.EFBIG)
        if self.mutate_hook is not None:
            self.mutate_hook(node, "write")
        node.content.patch(start, end, b.fn)
        node.size = wrap(Max(node.size, end))
        ofd.pos = end
        node.writes += 1
        if self.write_hook is not None:
            self.write_hook(fd, node, start, end)
        return k

    def _may_split(self, node, partial, n):
        if node.kind != "reg":
            return self.pipe_budget != 0 and not (type(n) is int and n == 1)
        return partial and self.partial_budget != 0 and not (type(n) is int and n == 1)

    def _split(self, name, node, n):
        """a transfer of n bytes may be partial: how many bytes are really transferred"""
        k = self.eng.int(name, 1, ex(n))
        if self.eng.concrete is not None:
            k = min(max(1, k), int(n))
        if not self.symbolic_data:
            k = int(k)
        if node.kind == "reg" and self.partial_budget is not None and self.eng.truth(lt(k, n)):
            self.partial_budget -= 1
        if node.kind != "reg" and self.pipe_budget is not None and self.eng.truth(lt(k, n)):
            self.pipe_budget -= 1
        return k

    def _pread(self, fd, n, off):
        ofd = self._ofd(fd)
        save, ofd.pos = ofd.pos, off
        try:
            return self._read(fd, n)
        finally:
            ofd.pos = save

    def _pwrite(self, fd, data, off):
        ofd = self._ofd(fd)
        save, ofd.pos = ofd.pos, off
        try:
            return self._write(fd, data)
        finally:
            ofd.pos = save

    def _readinto(self, fd, buf):
        data = self._read(fd, len(buf))
        n = int(sym_len(data))
        for i in range(n):
            buf[i] = int(data[i])
        return n

    def _sync_call(self, fd, kind):
        node = self._ofd(fd).inode
        if node.kind in ("fifo",):
            raise oserr(E.EINVAL)
        node.synced = getattr(node, "synced", [])
        node.synced.append((kind, node.writes))

    def _fsync(self, fd):
        self._sync_call(fd, "fsync")

    def _fdatasync(self, fd):
        self._sync_call(fd, "fdatasync")

    def _set_inheritable(self, fd, inheritable):
        self._ofd(fd)
        self.cloexec[(self.pid, int(fd))] = not inheritable

    def _get_inheritable(self, fd):
        self._ofd(fd)
        return not self.cloexec[(self.pid, int(fd))]

    def _unlink(self, path):
        p = self._path(path)
        if p not in self.fs:
            raise oserr(E.ENOENT)
        del self.fs[p]

    _remove = _unlink

    def _rename(self, src, dst):
        a, b = self._path(src), self._path(dst)
        if a not in self.fs:
            raise oserr(E.ENOENT)
        self.fs[b] = self.fs.pop(a)

    _replace = _rename

    def _access(self, path, mode, **k):
        return self._path(path) in self.fs  # of root

    def _chmod(self, path, mode, **k):
        if isinstance(path, int):
            return self._fchmod(path, mode)
        node = self.fs.get(self._path(path))
        if node is None:
            raise oserr(E.ENOENT)
        node.perm = mode & 0o7777

    def _fchmod(self, fd, mode):
        self._ofd(fd).inode.perm = mode & 0o7777

    def _umask(self, mask):
        self.umask, old = mask & 0o777, self.umask
        return old

    def _dup2(self, fd, fd2, inheritable=True):
        ofd = self._ofd(fd)
        if fd2 in self.table():
            if self.table()[fd2] is ofd:
                return fd2
            self._close(fd2)
        ofd.refs += 1
        self.table()[fd2] = ofd
        self.cloexec[(self.pid, fd2)] = not inheritable
        return fd2

    def _get_blocking(self, fd):
        return not self._ofd(fd).flags & _os.O_NONBLOCK

    def _set_blocking(self, fd, blocking):
        o = self._ofd(fd)
        o.flags = o.flags & ~_os.O_NONBLOCK if blocking else o.flags | _os.O_NONBLOCK

    def _posix_fallocate(self, fd, offset, length):
        ofd = self._ofd(fd)
        if ofd.flags & _os.O_ACCMODE == _os.O_RDONLY:
            raise oserr(E.EBADF)
        node = ofd.inode
        if node.kind != "reg":
            raise oserr(E.ESPIPE if node.kind == "fifo" else E.ENODEV)
        if self.eng.truth(Or(lt(offset, 0), le(length, 0))):
            raise oserr(E.EINVAL)
        end = wrap(add(offset, length))
        if self.eng.truth(gt(end, node.size)):
            self._set_size(node, end)

    def _fcntl(self, fd, cmd, arg=0):
        ofd = self._ofd(fd)
        if cmd == F_GETFD:
            return FD_CLOEXEC if self.cloexec[(self.pid, int(fd))] else 0
        if cmd == F_SETFD:
            self.cloexec[(self.pid, int(fd))] = bool(arg & FD_CLOEXEC)
            return 0
        if cmd == F_GETFL:
            return ofd.flags
        if cmd == F_SETFL:
            keep = _os.O_APPEND | _os.O_NONBLOCK
            ofd.flags = ofd.flags & ~keep | arg & keep
            return 0
        if cmd == F_FULLFSYNC:
            if getattr(self, "has_fullfsync", False):
                self._sync_call(fd, "fullfsync")
                return 0
            raise oserr(E.EINVAL)
        if cmd in (F_DUPFD, F_DUPFD_CLOEXEC):
            return self._dup(fd, cmd == F_DUPFD)
        raise EngineError("unmodelled fcntl command %r" % (cmd,))

    def conflict(self, node, kind, start, end):
        """expression: another process holds an incompatible lock on [start, end)"""
        r = False
        for l in node.env:
            if l.dead:
                continue
            if l.kind == 1 and kind == 1:
                continue
            c = And(lt(l.start, end), lt(start, l.end), lt(l.start, l.end))
            if l.release_at is not None:
                c = And(c, lt(self.sched.now, l.release_at))
            r = Or(r, c)
        for p in set(x[0] for x in node.own_ops):
            if p != self.pid:
                r = Or(r, self._own_conflict(node, p, kind, start, end))
        return r

    def _own_conflict(self, node, pid, kind, start, end):
        """another modelled process holds an incompatible lock on a byte of [start, end): what a process holds only changes at
        the bounds of its operations"""
        ops = [o for o in node.own_ops if o[0] == pid]
        r = False
        for c in [ex(start)] + [x for o in ops for x in (o[2], o[3])]:
            inside = And(le(start, c), lt(c, end))
            if inside is not False:
                h = node.held(pid, c)
                r = Or(r, And(inside, eq(h, 2) if kind == 1 else gt(h, 0)))
        return r

    def _lockf(self, fd, cmd, length=0, start=0, whence=0):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        ofd = self._ofd(fd)
        node = ofd.inode
        for v in (length, start):
            if not isinstance(v, int):
                raise TypeError("an integer is required")
            if type(v) is int and not -(2 ** 63) <= v < 2 ** 63:
                raise OverflowError("Python int too large to convert to C long")
        nb = bool(cmd & LOCK_NB)
        op = cmd & ~LOCK_NB
        if op == LOCK_UN:
            kind = 0
        elif op == LOCK_SH:
            kind = 1
        elif op == LOCK_EX:
            kind = 2
        else:
            raise ValueError("unrecognized lockf argument")
        if kind == 1 and not ofd.can_read or kind == 2 and not ofd.can_write:
            raise oserr(E.EBADF)
        if whence == 1:
            start = ofd.pos + start
        elif whence == 2:
            start = node.size + start
        elif whence != 0:
            raise oserr(E.EINVAL)
        if self.eng.truth(lt(length, 0)):
            start, length = start + length, -length
        if self.eng.truth(lt(start, 0)):
            raise oserr(E.EINVAL)
        end = If(eq(length, 0), INF, add(start, length))
        if self.eng.truth(And(ne(length, 0), gt(sub(end, 1), OFF_MAX))):
            raise oserr(E.EOVERFLOW)
        if kind:
            while self.eng.truth(self.conflict(node, kind, start, end)):
                if nb:
                    raise oserr(self.eng.choose("lockerr", getattr(self, "lock_errnos", (E.EAGAIN,))))
                rel = [l.release_at for l in node.env if l.release_at is not None and not l.dead]
                if not rel or any(l.release_at is None and not l.dead for l in node.env):
                    self.blocked_forever(fd)
                if self.sched.multi():  # the other threads go on
                    self.sched.block(lambda: not self.eng.truth(self.conflict(node, kind, start, end)), sub(rel[0], self.sched.now))
                    continue
                for r in rel:
                    self.sched.now = wrap(Max(self.sched.now, r))
        node.own_ops.append((self.pid, kind, ex(start), ex(end)))

    def blocked_forever(self, fd):
        self.eng.end("blocked for ever in the kernel")

    def _flock(self, fd, op):
        raise EngineError("flock() is not modelled")

    # ------------------------------------------------------------- processes

    def fork(self, child_pid):
        """the current process forks; continues as the child (which owns no record lock)"""
        t = dict(self.table())
        for o in t.values():
            o.refs += 1
        self.fds[child_pid] = t
        self.symfds[child_pid] = list(self.symfds.get(self.pid, ()))
        for (p, fd), v in list(self.cloexec.items()):
            if p == self.pid:
                self.cloexec[(child_pid, fd)] = v
        self.pid = child_pid


class StatResult(object):
    def __init__(self, kernel, node):
        fmt = {
            "reg": _stat.S_IFREG, "fifo": _stat.S_IFIFO, "dir": _stat.S_IFDIR, "chr": _stat.S_IFCHR,
        }[node.kind]
        self.st_mode = fmt + node.perm
        self.st_size = node.size if node.kind == "reg" else 0
        self.st_dev = node.dev
        self.st_ino = node.ino
        self.st_nlink = node.nlink
        self.st_blksize = kernel.blksize
        self.st_atime = node.atime
        self.st_mtime = node.mtime
        self.st_ctime = node.ctime
        self.st_uid = self.st_gid = 0
        self.st_blocks = 0
        self.st_rdev = 0

    @staticmethod
    def _whole(t, scale=1):
        from .world import int_shim

        return int_shim(t * scale)

    st_atime_ns = property(lambda self: self._whole(self.st_atime, 10 ** 9))
    st_mtime_ns = property(lambda self: self._whole(self.st_mtime, 10 ** 9))
    st_ctime_ns = property(lambda self: self._whole(self.st_ctime, 10 ** 9))

    def _fields(self):
        return (self.st_mode, self.st_ino, self.st_dev, self.st_nlink, self.st_uid, self.st_gid, self.st_size,
                self._whole(self.st_atime), self._whole(self.st_mtime), self._whole(self.st_ctime))

    def __getitem__(self, i):
        return self._fields()[i]

    def __iter__(self):
        return iter(self._fields())

    def __len__(self):
        return 10

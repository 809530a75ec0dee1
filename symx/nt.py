"""
symx.nt - a model of the Windows side: kernel32 (reached through fake ctypes), the C runtime's descriptor
table (msvcrt, os) and pywin32, over symbolic values.

ctypes is modelled with its real conversions: integers are silently truncated to the declared width, structures
have the layout of their declared fields (the system reads and writes them by offset), functions interpret
their arguments with their true prototypes.
"""
import builtins as _b
import errno as E
import os as _os
import stat as _stat

from . import engine as _e
from . import posix as _p
from .engine import And, EngineError, If, Max, Min, Not, Or, SymBuf, SymBytes, SymInt, SymView, add, eq, ex, ge, gt, is_sym, le, lt, ne, sub, sym_len, wrap
from .sched import Deadlock

WindowsError = OSError
TOP = 2 ** 64 - 1  # locks never reach beyond that

GENERIC_READ, GENERIC_WRITE = 0x80000000, 0x40000000
READONLY = 1

# errno equivalents of system errors, as documented for the C runtime and used by CPython (PC/errmap.h)
ERRNO = {}
for _no, _codes in {
    E.ENOENT: (2, 3, 15, 18, 53, 67, 161, 206), E.E2BIG: (10,), E.ENOEXEC: (11,) + tuple(range(188, 203)), E.EBADF: (6, 114, 130),
    E.ECHILD: (128, 129), E.EAGAIN: (89, 164, 215), E.ENOMEM: (7, 8, 9, 1816), E.EACCES: (5, 16) + tuple(range(19, 37)) + (65, 82, 83, 108, 132, 158, 167),
    E.EEXIST: (80, 183), E.EXDEV: (17,), 41: (145,), E.EPIPE: (109, 232), E.ENOSPC: (112,), E.EMFILE: (4,),
}.items():
    for _c in _codes:
        ERRNO[_c] = _no


def errno_of(code, table=None):
    table = ERRNO if table is None else table
    if not is_sym(code):
        return table.get(code, E.EINVAL)
    r = E.EINVAL
    by = {}
    for c, n in table.items():
        by.setdefault(n, []).append(c)
    for n, cs in sorted(by.items()):
        r = If(Or(*[eq(code, c) for c in cs]), n, r)
    return wrap(r)


class ErrorTable(dict):
    """a table of error codes, of the code under test, looked up by symbolic codes: one fork per result"""

    def _find(self, code, default):
        by = {}
        for c, n in self.items():
            by.setdefault(n, []).append(c)
        for n, cs in sorted(by.items()):
            if _e.Engine.current.truth(Or(*[eq(code, c) for c in cs])):
                return n
        return default

    def get(self, code, default=None):
        return self._find(code, default) if is_sym(code) else dict.get(self, code, default)

    def __contains__(self, code):
        return self._find(code, self) is not self if is_sym(code) else dict.__contains__(self, code)

    def __getitem__(self, code):
        if not is_sym(code):
            return dict.__getitem__(self, code)
        r = self._find(code, self)
        if r is self:
            raise KeyError(code)
        return r


def symbolic_tables(w):
    """lets the tables of numbers found in the modules of the library be looked up by symbolic numbers"""
    for m in list(w.modules.values()):
        for k, v in list(vars(m).items()):
            if type(v) is dict and len(v) > 8 and all(type(x) is int and type(y) is int for x, y in v.items()):
                setattr(m, k, ErrorTable(v))


NT_ERRNO = ErrorTable(ERRNO)


def winerr(code, msg=None, filename=None):
    e = OSError(NT_ERRNO.get(code, E.EINVAL), msg or "system error", filename)
    e.winerror = code
    return e


class NTError(Exception):
    def __init__(self, code):
        self.code = code


# ------------------------------------------------------------------ integers of a given width


def _inside(v, lo, hi):
    if not is_sym(v):
        return lo <= v < hi
    return _e.Engine.current.truth(And(ge(v, lo), lt(v, hi)))


def unsigned(v, bits):
    if _inside(v, 0, 1 << bits):
        return v
    if not is_sym(v):
        return v % (1 << bits)
    return wrap(ex(v) % (1 << bits))


def signed(v, bits):
    h = 1 << (bits - 1)
    if _inside(v, -h, h):
        return v
    v = unsigned(v, bits)
    return v if _inside(v, 0, h) else v - (1 << bits)


def low(v):
    return v & 0xFFFFFFFF if not is_sym(v) else wrap(ex(v) % (1 << 32))


def high(v):
    return v >> 32 if not is_sym(v) else wrap(ex(v) / (1 << 32))


# ------------------------------------------------------------------ fake ctypes


class ArgumentError(Exception):
    pass


class _SimpleMeta(type):
    def __mul__(cls, n):
        if cls.bits != 8:
            raise EngineError("ctypes array types are not modelled")
        if n < 0:
            raise ValueError("Array length must be >= 0, not %s" % n)
        return CharArray(n)

    __rmul__ = __mul__


class Simple(object, metaclass=_SimpleMeta):
    """an integer or pointer variable"""

    bits, sign, ptr, text = 32, True, False, None

    def __init__(self, value=None):
        self._v = 0
        if value is not None or self.ptr:
            self.value = value if value is not None else (None if self.ptr else 0)

    @classmethod
    def conv(cls, v):
        """what ctypes stores for a Python value (unsigned bit pattern)"""
        if isinstance(v, Simple):
            v = v.value
        if cls.text is not None:
            if v is None or isinstance(v, cls.text):
                return v
            raise TypeError("%s expected instead of %s instance" % (cls.text.__name__, type(v).__name__))
        if v is None and cls.ptr:
            return 0
        if isinstance(v, (Ref, Buffer, Address)) and cls.ptr:
            return v
        if isinstance(v, (bytes, str)) and cls.ptr:
            return v
        if not isinstance(v, int):
            if hasattr(v, "__index__"):
                v = v.__index__()
            else:
                raise TypeError("an integer is required (got type %s)" % type(v).__name__)
        if isinstance(v, bool):
            v = int(v)
        return unsigned(v, cls.bits)

    @property
    def value(self):
        if self.text is not None:
            return self._v
        if self.ptr:
            v = self._v
            if not isinstance(v, int):
                return v
            return None if not is_sym(v) and v == 0 else v
        return signed(self._v, self.bits) if self.sign else self._v

    @value.setter
    def value(self, v):
        self._v = self.conv(v)

    @classmethod
    def from_buffer(cls, *a):
        raise EngineError("ctypes from_buffer() is not modelled")

    from_buffer_copy = from_param = in_dll = from_address = from_buffer


def simple(name, bits, sign, ptr=False, text=None):
    return _SimpleMeta(name, (Simple,), dict(bits=bits, sign=sign, ptr=ptr, text=text))


c_byte, c_ubyte = simple("c_byte", 8, True), simple("c_ubyte", 8, False)
c_short, c_ushort = simple("c_short", 16, True), simple("c_ushort", 16, False)
c_int, c_uint = simple("c_long", 32, True), simple("c_ulong", 32, False)  # LLP64: int and long are the same
c_longlong, c_ulonglong = simple("c_longlong", 64, True), simple("c_ulonglong", 64, False)
c_void_p = simple("c_void_p", 64, False, True)
c_char_p, c_wchar_p = simple("c_char_p", 64, False, True, bytes), simple("c_wchar_p", 64, False, True, str)


class StructMeta(type):
    def __mul__(cls, n):
        raise EngineError("ctypes array types are not modelled")


def _size_align(t):
    if isinstance(t, type) and issubclass(t, Structure):
        l, n, a = t._layout()
        return n, a
    if isinstance(t, Pointer):
        return 8, 8
    if issubclass(t, Simple):
        return t.bits // 8, t.bits // 8
    raise EngineError("ctypes type %r is not modelled" % (t,))


class Structure(object, metaclass=StructMeta):
    """memory as 4-byte words; the fields are views on it"""

    _fields_ = ()

    def __init__(self, *args, **kw):
        object.__setattr__(self, "_w", {})
        object.__setattr__(self, "_o", 0)
        names = [f[0] for f in self._all_fields()]
        if len(args) > len(names):
            raise TypeError("too many initializers")
        for n, v in zip(names, args):
            setattr(self, n, v)
        for n, v in kw.items():
            setattr(self, n, v)

    @classmethod
    def _all_fields(cls):
        out = []
        for c in reversed(cls.__mro__):
            out += list(c.__dict__.get("_fields_", ()))
        return out

    @classmethod
    def _layout(cls):
        off, al, d = 0, 1, {}
        for f in cls._all_fields():
            if len(f) != 2:
                raise EngineError("bit fields are not modelled")
            n, a = _size_align(f[1])
            if cls.__dict__.get("_pack_"):
                a = min(a, cls._pack_)
            off = (off + a - 1) // a * a
            d[f[0]] = (off, f[1], n)
            off += n
            al = max(al, a)
        return d, (off + al - 1) // al * al, al

    def __getattr__(self, name):
        d = type(self)._layout()[0]
        if name not in d:
            raise AttributeError("%r object has no attribute %r" % (type(self).__name__, name))
        off, t, n = d[name]
        off += self._o
        if isinstance(t, type) and issubclass(t, Structure):
            v = t.__new__(t)
            object.__setattr__(v, "_w", self._w)
            object.__setattr__(v, "_o", off)
            return v
        if n not in (4, 8) or off % 4:
            raise EngineError("field of %d bytes is not modelled" % n)
        v = self._w.get(off, 0)
        if n == 8:
            v = v + (self._w.get(off + 4, 0) << 32)
        if isinstance(t, Pointer):
            return v
        s = t()
        s._v = v
        return s.value

    def __setattr__(self, name, value):
        d = type(self)._layout()[0]
        if name not in d:
            object.__setattr__(self, name, value)
            return
        off, t, n = d[name]
        off += self._o
        if isinstance(t, type) and issubclass(t, Structure):
            if type(value) is not t:
                raise TypeError("expected %s instance" % t.__name__)
            for i in range(0, n, 4):
                self._w[off + i] = value._w.get(value._o + i, 0)
            return
        if n not in (4, 8) or off % 4:
            raise EngineError("field of %d bytes is not modelled" % n)
        if isinstance(t, Pointer):
            if value is not None:
                raise EngineError("pointer fields are not modelled")
            v = 0
        else:
            v = t.conv(value)
            if not isinstance(v, int):
                raise EngineError("pointer fields are not modelled")
        if n == 4:
            self._w[off] = v
        else:
            self._w[off], self._w[off + 4] = low(v), high(v)


class CharArray(object):
    """the type c_char * n"""

    def __init__(self, n):
        self.n = n

    def __call__(self, *init):
        if init:
            _fail("initializers of a character array are not modelled")
        return Buffer(self.n)

    def from_buffer_copy(self, data, offset=0):
        if offset:
            _fail("from_buffer_copy() with an offset is not modelled")
        if sym_len(data) < self.n:
            raise ValueError("Buffer size too small (%s instead of at least %s bytes)" % (sym_len(data), self.n))
        if type(data) in (_e.SymBuf, _e.SymArray, _e.SymView):
            data = data.tobytes() if type(data) is not _e.SymBuf else SymBytes.of(data)
        return Buffer(self.n, data)

    def from_buffer(self, *a):
        _fail("ctypes from_buffer() is not modelled")

    from_param = in_dll = from_address = from_buffer


def string_at(obj, size=-1):
    if isinstance(obj, Ref):
        obj = obj._obj
    if isinstance(obj, Address):
        obj = obj.obj
    if not isinstance(obj, Buffer):
        _fail("string_at(%r) is not modelled" % type(obj).__name__)
    if not is_sym(size) and size == -1:
        return obj.value
    _e.Engine.current.check(le(size, obj.size), "string_at(): more bytes are read than the buffer holds")
    return obj.take(size)


class Ref(object):
    """byref(x) / pointer(x)"""

    @property
    def contents(self):
        return self._obj

    def __getitem__(self, i):
        if i != 0 or not isinstance(self._obj, Simple):
            _fail("indexing of a pointer is not modelled")
        return self._obj.value

    def __init__(self, obj, offset=0):
        if offset:
            raise EngineError("byref() with an offset is not modelled")
        self._obj = obj


class Pointer(object):
    """POINTER(type)"""

    def __init__(self, target):
        self.target = target

    def conv(self, v):
        if v is None:
            return None
        if isinstance(v, Ref):
            if type(v._obj) is self.target:
                return v
        elif type(v) is self.target and isinstance(v, Structure):
            return Ref(v)
        raise TypeError("expected LP_%s instance instead of %r" % (self.target.__name__, type(v).__name__))

    def __call__(self, v=None):
        return self.conv(v) if isinstance(v, Ref) or v is None else Ref(v)


_pointers = {}


def POINTER(t):
    if t is None:
        return c_void_p
    if t not in _pointers:
        _pointers[t] = Pointer(t)
    return _pointers[t]


class Buffer(object):
    """create_string_buffer(): `size` bytes of memory"""

    def __init__(self, size, content=None):
        self.size = size
        self.content = _p.Content(0)
        if content is not None:
            b = SymBytes.of(content)
            self.content.patch(0, sym_len(b), b.fn)

    def take(self, n):
        c = self.content.snapshot()
        if type(n) is int and (_e.Engine.current is None or _e.Engine.current.concrete is not None):
            return bytes(int(c.get(i)) for i in range(n))
        return SymBytes(n, lambda i: c.get(i))

    @property
    def raw(self):
        return self.take(self.size)

    def __len__(self):
        return self.size if type(self.size) is int else int(self.size)

    def __getitem__(self, s):
        return self.raw[s]

    @raw.setter
    def raw(self, data):
        b = SymBytes.of(data)
        if sym_len(b) > self.size:
            raise ValueError("byte string too long")
        self.content.patch(0, sym_len(b), b.fn)

    @property
    def value(self):
        """the bytes before the first zero"""
        r = self.raw
        if type(r) is not SymBytes:
            return r.split(b"\0")[0]
        eng = _e.Engine.current
        if eng.truth(Or(eq(r.n, 0), eq(r.fn(0), 0))):
            return b""
        eng.end("value of a character buffer with a first byte which isn't zero")


def create_string_buffer(init, size=None):
    if isinstance(init, bytes):
        return Buffer(sym_len(init) + 1 if size is None else size, init)
    if not isinstance(init, int):
        raise TypeError(init)
    if init < 0:
        raise ValueError("Array length must be >= 0, not %s" % init)
    return Buffer(init)


class Address(int):
    """addressof(x)"""

    def __new__(cls, obj):
        a = int.__new__(cls, 0x10000)
        a.obj = obj
        return a


def addressof(obj):
    return Address(obj)


def sizeof(t):
    if isinstance(t, Buffer):
        return t.size
    return _size_align(t if isinstance(t, (type, Pointer)) else type(t))[0]


def cast(obj, t):
    raise EngineError("ctypes.cast() is not modelled")


H, D, B, PV, L64, INT, WS, CS = "handle", "dword", "bool", "pointer", "int64", "int", "wstr", "str"
PROTO = {  # the true prototypes
    "GetLastError": ([], D), "CloseHandle": ([H], B), "FlushFileBuffers": ([H], B), "SetEndOfFile": ([H], B),
    "GetFileSizeEx": ([H, PV], B), "GetFileSize": ([H, PV], D), "SetFilePointerEx": ([H, L64, PV, D], B), "SetFilePointer": ([H, INT, PV, D], D),
    "GetFileInformationByHandle": ([H, PV], B), "WriteFile": ([H, PV, D, PV, PV], B), "ReadFile": ([H, PV, D, PV, PV], B),
    "LockFileEx": ([H, D, D, D, D, PV], B), "UnlockFileEx": ([H, D, D, D, PV], B), "LockFile": ([H, D, D, D, D], B), "UnlockFile": ([H, D, D, D, D], B),
    "CreateFileW": ([WS, D, D, PV, D, D, H], H), "CreateFileA": ([CS, D, D, PV, D, D, H], H), "GetFileType": ([H], D),
}
WIDTH = {H: (64, False), D: (32, False), B: (32, True), L64: (64, True), INT: (32, True)}


class FuncPtr(object):
    def __init__(self, world, dll, name, dll_keep=False):
        self._world, self._dll, self._name = world, dll, name
        self.argtypes = None
        self.restype = c_int
        self._keep = dll_keep

    def __call__(self, *args):
        k = self._world.kernel
        name = self._name
        if name not in PROTO or self._dll != "kernel32":
            _fail("unmodelled call: %s.%s" % (self._dll, name))
        params, ret = PROTO[name]
        decl = self.argtypes
        if decl is not None and len(args) < len(decl):
            raise TypeError("this function takes at least %d arguments (%d given)" % (len(decl), len(args)))
        if len(args) != len(params):
            k.eng.fail("%s() called with %d arguments" % (name, len(args)))
        vals = []
        for i, (a, p) in enumerate(zip(args, params)):
            t = decl[i] if decl is not None and i < len(decl) else None
            try:
                if t is None:
                    if isinstance(a, (Ref, Buffer, bytes, str, type(None), Simple)):
                        v = a._v if isinstance(a, Simple) else a
                    elif isinstance(a, int):
                        v = unsigned(int(a) if isinstance(a, bool) else a, 32)
                    else:
                        raise TypeError("Don't know how to convert parameter %d" % (i + 1))
                    bits, sign = 32, True
                else:
                    v = t.conv(a)
                    bits, sign = (64, False) if isinstance(t, Pointer) else (t.bits, t.sign)
            except TypeError as e:
                raise ArgumentError("argument %d: TypeError: %s" % (i + 1, e))
            vals.append(self._true(v, bits, sign, p, i))
        k.eng._check_abort()
        r = k.win(name, vals)
        if self._keep:
            self._world.ctypes_last_error = k.last_error
        rt = self.restype
        if rt is None:
            return None
        s = rt()
        s._v = unsigned(r, rt.bits)
        return s.value

    def _true(self, v, bits, sign, p, i):
        """the bits of v, read by the callee with its true type"""
        if p in WIDTH:
            if v is None:
                v = 0
            if not isinstance(v, int):
                self._world.kernel.eng.fail("%s(): argument %d should be a number" % (self._name, i + 1))
            w, s = WIDTH[p]
            if bits < w and sign:
                v = signed(v, bits)  # the upper half of the register isn't defined: any value would do
            return signed(v, w) if s else unsigned(v, w)
        if p in (WS, CS):
            return v
        if isinstance(v, Ref):
            return v._obj
        if isinstance(v, Address):
            return v.obj
        if v is None or isinstance(v, int) and not is_sym(v) and v == 0:
            return None
        if isinstance(v, (Buffer, bytes)):
            return v
        self._world.kernel.eng.fail("%s(): argument %d should be a pointer" % (self._name, i + 1))


def _fail(msg):
    e = EngineError(msg)
    if _e.Engine.current is not None:
        _e.Engine.current._fail(e)
    raise e


class Dll(object):
    def __init__(self, world, name, use_last_error=False, **kw):
        self.__dict__["_world"] = world
        self.__dict__["_keep"] = use_last_error
        self.__dict__["_name"] = name.lower().replace(".dll", "")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = FuncPtr(self._world, self._name, name, self._keep)
        self.__dict__[name] = f
        return f


def words(eng, obj, n, what):
    """the memory of a structure passed to the system, which needs n bytes of it"""
    if not isinstance(obj, Structure):
        eng.fail("%s: not a structure" % what)
    if type(obj)._layout()[1] < n:
        eng.fail("%s: the structure is smaller than the one of the system" % what)
    return obj._w, obj._o


def store(eng, obj, value, size, what):
    """the system writes an integer of `size` bytes"""
    if isinstance(obj, Simple):
        have = obj.bits // 8
        if have < size:
            eng.fail("%s: the system writes %d bytes into a variable of %d bytes" % (what, size, have))
        v = unsigned(value, size * 8)
        if have > size:
            v = obj._v - (obj._v & ((1 << size * 8) - 1)) + v
        obj._v = v
    elif isinstance(obj, Structure):
        w, o = words(eng, obj, size, what)
        v = unsigned(value, size * 8)
        w[o] = low(v)
        if size == 8:
            w[o + 4] = high(v)
    else:
        eng.fail("%s: not a variable" % what)


def load32(eng, obj, what):
    if isinstance(obj, Simple):
        return unsigned(obj._v, 32) if obj.bits <= 32 else low(obj._v)
    w, o = words(eng, obj, 4, what)
    return w.get(o, 0)


# ------------------------------------------------------------------ the system


class FileObj(object):
    def __init__(self, node, access, share, flags=0, inherit=False, path=None):
        self.node, self.access, self.share, self.flags, self.inherit, self.path = node, access, share, flags, inherit, path
        self.pos = 0

    @property
    def r(self):
        return bool(self.access & (GENERIC_READ | 0x10000000 | 1))

    @property
    def w(self):
        return bool(self.access & (GENERIC_WRITE | 0x10000000 | 2))


class Kernel(_p.Kernel):
    def __init__(self, eng, sched, world):
        _p.Kernel.__init__(self, eng, sched)
        self.world = world
        self.block_raises = False
        self.handles = {}
        self.crt = {0: 4, 1: 8, 2: 12}  # C descriptors -> handles
        self.crt_opened = []
        self.last_error = 0
        self.next_handle = 0x140
        self.closed_handles = []
        self.bad_handles = []
        self.win_faults = None  # names of the calls which may fail
        self.win_code = None

    # files

    def inode(self, path, **k):
        n = _p.Kernel.inode(self, path, **k)
        return self.ntnode(n)

    def ntnode(self, n):
        n.attrs = 128
        n.volume, n.file_id, n.links = 0x12345678, 0x0001000000002345 + n.ino, 1
        n.ftimes = [132223104000000000, 132223104000000001, 132223104000000002]  # creation, access, write
        n.locks = []  # [file object (None: other process), kind, start, end], end excluded
        n.nonblocking = False
        n.flushed = 0
        return n

    def wopen(self, node, access=GENERIC_READ | GENERIC_WRITE, share=7, flags=0, inherit=False, path=None):
        h = self.next_handle
        self.next_handle += 4
        self.handles[h] = FileObj(node, access, share, flags, inherit, path)
        return h

    def install(self, inode, flags=_os.O_RDWR, fd=None):
        """a C descriptor opened by somebody else"""
        acc = {_os.O_RDONLY: GENERIC_READ, _os.O_WRONLY: GENERIC_WRITE, _os.O_RDWR: GENERIC_READ | GENERIC_WRITE}[flags & 3]
        h = self.wopen(inode, acc)
        return self.crt_add(h, fd)

    def crt_add(self, h, fd=None):
        if fd is None:
            fd = 0
            while fd in self.crt:
                fd += 1
        self.crt[fd] = h
        return fd

    # entry points

    def win(self, name, args):
        """a call of kernel32: returns its result, sets the last error"""
        if name == "GetLastError":
            return self.last_error
        self.sched.point(name)
        self.eng.stats.transitions += 1
        try:
            r = self._win(name, args)
        except NTError as e:
            self.last_error = e.code
            return -1 if name.startswith("CreateFile") else 0xFFFFFFFF if name in ("GetFileSize", "SetFilePointer") else 0
        return 1 if r is None else r

    def _win(self, name, args):
        if self.win_faults is not None and (name in self.win_faults or "*" in self.win_faults) and self.fault_budget > 0:
            if self.eng.bool("fault_" + name):
                self.fault_budget -= 1
                code = self.win_code() if callable(self.win_code) else self.win_code
                self.faults.append((name, tuple(args), code))
                self.log.append((name, tuple(args), ("err", code, True)))
                if name == "CloseHandle":
                    self._x_CloseHandle(*args)
                raise NTError(code)
        try:
            r = getattr(self, "_x_" + name)(*args)
        except NTError as e:
            self.log.append((name, tuple(args), ("err", e.code, False)))
            raise
        self.log.append((name, tuple(args), ("ok", r)))
        return r

    def _h(self, h):
        if is_sym(h):
            for k, o in self.handles.items():
                if self.eng.truth(eq(h, k)):
                    return o
            raise NTError(6)
        o = self.handles.get(h)
        if o is None:
            self.bad_handles.append(h)
            raise NTError(6)
        return o

    # kernel32

    def _x_CreateFileW(self, path, access, share, sa, disp, flags, template):
        if path is None or isinstance(path, bytes):
            raise NTError(87)
        p = self._path(path)
        if b"\0" in p:
            p = p.split(b"\0")[0]
        inherit = False
        if sa is not None:
            if isinstance(sa, Structure):
                w, o = words(self.eng, sa, 24, "SECURITY_ATTRIBUTES")
                inherit = w.get(o + 16, 0) != 0
                if w.get(o + 8, 0) or w.get(o + 12, 0):
                    self.eng.fail("CreateFile(): unexpected security descriptor")
            else:
                inherit = bool(sa.bInheritHandle)
        if disp not in (1, 2, 3, 4, 5):
            raise NTError(87)
        node = self.fs.get(p)
        err = 0
        created = False
        if node is None:
            if disp in (3, 5):
                raise NTError(2)
            node = self.ntnode(_p.Inode(self))
            node.attrs = READONLY if flags & READONLY else 128
            self.fs[p] = node
            created = True
        else:
            if disp == 1:
                raise NTError(80)
            if node.kind == "dir":
                raise NTError(5)
            if node.attrs & READONLY and access & (GENERIC_WRITE | 0x10000000):
                raise NTError(5)
            for o in self.handles.values():
                if o.node is node:
                    if (o.r and not share & 1) or (o.w and not share & 2):
                        raise NTError(32)
                    if (access & GENERIC_READ and not o.share & 1) or (access & GENERIC_WRITE and not o.share & 2):
                        raise NTError(32)
            if disp in (2, 5):
                self._set_size(node, 0)
            err = 183 if disp in (2, 4) else 0
        h = self.wopen(node, access, share, flags, inherit, p)
        self.opened.append((h, node, dict(access=access, share=share, inherit=inherit, disp=disp, flags=flags), None, created))
        self.last_error = err
        return h

    def _x_CreateFileA(self, path, *a):
        return self._x_CreateFileW(path.decode("latin-1"), *a)

    def _x_DuplicateHandle(self, h, inherit):
        o = self._h(h)
        d = self.next_handle
        self.next_handle += 4
        self.handles[d] = o
        if inherit:
            self.eng.fail("DuplicateHandle(): inheritable duplicate")
        return d

    def _x_CloseHandle(self, h):
        o = self._h(h)
        for k in [k for k, v in self.handles.items() if v is o and (not is_sym(h) and k == h or is_sym(h) and self.eng.truth(eq(h, k)))]:
            del self.handles[k]
        if not any(v is o for v in self.handles.values()):  # the last handle on the file object
            o.node.locks[:] = [l for l in o.node.locks if l[0] is not o]
        self.closed_handles.append(h)

    def _x_FlushFileBuffers(self, h):
        o = self._h(h)
        if not o.w:
            raise NTError(5)
        o.node.flushed += 1

    def _x_SetEndOfFile(self, h):
        o = self._h(h)
        if not o.w:
            raise NTError(5)
        self.resize(o.node, o.pos)

    def resize(self, node, size):
        if self.mutate_hook is not None:
            self.mutate_hook(node, "size")
        # what lies beyond the old end is unspecified
        junk = self.eng.func("junk%d" % node.writes) if getattr(self, "junk", False) else (lambda i: 0)
        node.content.patch(Min(size, node.size), _p.INF, junk)
        node.size = size
        node.writes += 1

    def _x_GetFileSizeEx(self, h, out):
        store(self.eng, out, self._h(h).node.size if self._h(h).node.kind == "reg" else 0, 8, "GetFileSizeEx")

    def _x_GetFileSize(self, h, hi):
        n = self._h(h).node.size
        if hi is not None:
            store(self.eng, hi, high(n), 4, "GetFileSize")
        self.last_error = 0
        return low(n)

    def _seek(self, h, off, method):
        o = self._h(h)
        if o.node.kind != "reg":
            return 0
        if is_sym(method):
            method = int(method)
        if method not in (0, 1, 2):
            raise NTError(87)
        new = off + (0, o.pos, o.node.size)[method]
        if new < 0:
            raise NTError(131)
        if new > 2 ** 63 - 1:
            raise NTError(87)
        o.pos = new
        return new

    def _x_SetFilePointerEx(self, h, off, out, method):
        new = self._seek(h, off, method)
        if out is not None:
            store(self.eng, out, new, 8, "SetFilePointerEx")

    def _x_SetFilePointer(self, h, off, hi, method):
        if hi is not None:
            off = unsigned(off, 32) + signed(load32(self.eng, hi, "SetFilePointer"), 32) * (1 << 32)
        new = self._seek(h, off, method)
        if hi is not None:
            store(self.eng, hi, high(new), 4, "SetFilePointer")
        self.last_error = 0
        return low(new)

    def _x_GetFileType(self, h):
        return {"reg": 1, "chr": 2, "fifo": 3}.get(self._h(h).node.kind, 0)

    def _x_GetFileInformationByHandle(self, h, out):
        n = self._h(h).node
        w, o = words(self.eng, out, 52, "GetFileInformationByHandle")
        vals = [n.attrs]
        for t in n.ftimes:
            vals += [low(t), high(t)]
        vals += [n.volume, high(n.size), low(n.size), n.links, high(n.file_id), low(n.file_id)]
        for i, v in enumerate(vals):
            w[o + 4 * i] = v

    def _locked(self, o, start, end, write):
        """bytes [start, end) are locked against this handle"""
        return Or(*[And(lt(start, e), lt(s, end)) for f, kind, s, e in o.node.locks if (f is not o and (kind == 2 or write)) or (f is o and kind == 1 and write)])

    def _x_ReadFile(self, h, buf, n, nread, ov):
        o = self._h(h)
        node = o.node
        if not o.r:
            raise NTError(5)
        if ov is not None:
            self.eng.fail("ReadFile(): overlapped structure on a synchronous handle")
        if nread is not None:
            store(self.eng, nread, 0, 4, "ReadFile")
        if node.kind == "dir":
            raise NTError(1)
        if node.kind != "reg":
            if self.eagain and self.eng.bool("nodata_read"):
                raise NTError(232)
            if node.eof and self.eng.truth(eq(node.size, 0)):
                raise NTError(109)
            avail = node.size
        else:
            avail = Max(0, sub(node.size, o.pos))
        k = top = wrap(Min(n, avail))
        if not isinstance(buf, Buffer):
            if self.eng.truth(eq(k, 0)):
                return
            self.eng.fail("ReadFile(): not a buffer")
        self.eng.check(le(n, buf.size), "ReadFile(): more bytes are requested than the buffer holds")
        if self.eng.truth(eq(k, 0)):
            return
        if node.kind == "reg" and node.locks and self.eng.truth(self._locked(o, o.pos, o.pos + n, False)):
            raise NTError(33)
        if self._may_split(node, self.partial_reads, top):
            k = self._split("nread", node, top)
        snap = node.content.snapshot()
        pos = ex(o.pos if node.kind == "reg" else getattr(node, "rpos", 0))
        buf.content.patch(0, k, lambda i: snap.get(add(pos, i)))
        if nread is None:
            self.eng.fail("ReadFile(): no variable for the number of bytes")
        store(self.eng, nread, k, 4, "ReadFile")
        if node.kind == "reg":
            o.pos = wrap(add(pos, k))
        else:
            node.rpos = wrap(add(pos, k))
            node.size = wrap(sub(node.size, k))

    def _x_WriteFile(self, h, buf, n, nwritten, ov):
        o = self._h(h)
        node = o.node
        if not o.w:
            raise NTError(5)
        if ov is not None:
            self.eng.fail("WriteFile(): overlapped structure on a synchronous handle")
        if nwritten is None:
            self.eng.fail("WriteFile(): no variable for the number of bytes")
        store(self.eng, nwritten, 0, 4, "WriteFile")
        if isinstance(buf, Buffer):
            size, data = buf.size, buf.content.snapshot().get
        elif isinstance(buf, bytes):
            size, data = sym_len(buf), SymBytes.of(buf).fn
        else:
            self.eng.fail("WriteFile(): not a buffer")
        self.eng.check(le(n, size), "WriteFile(): more bytes are written than the buffer holds")
        if node.kind != "reg":
            if node.eof:
                raise NTError(232)  # the pipe is being closed
            if node.nonblocking and self.eagain and self.eng.bool("full_write"):
                return
            k = n
            if self._may_split(node, self.partial_writes, n):
                k = self._split("nwritten", node, n)
            node.out = getattr(node, "out", [])
            node.out.append((k, SymBytes(k, data)))
            store(self.eng, nwritten, k, 4, "WriteFile")
            return
        if self.eng.truth(eq(n, 0)):
            return
        start = o.pos
        end = wrap(add(start, n))
        if self.eng.truth(gt(end, 2 ** 63 - 1)):
            raise NTError(112)
        if node.locks and self.eng.truth(self._locked(o, start, end, True)):
            raise NTError(33)
        if self.mutate_hook is not None:
            self.mutate_hook(node, "write")
        k = n
        if self._may_split(node, self.partial_writes, n):
            k = self._split("nwritten", node, n)
            end = wrap(add(start, k))
        if node.content.patches and self.eng.truth(gt(start, node.size)):
            node.content.patch(node.size, start, lambda i: 0)  # the valid data length of NTFS: the gap reads as zeros
        node.content.patch(start, end, data)
        node.size = wrap(Max(node.size, end))
        o.pos = end
        node.writes += 1
        store(self.eng, nwritten, k, 4, "WriteFile")
        if self.write_hook is not None:
            self.write_hook(h, node, start, end)

    def _range(self, ov, lo, hi):
        w, o = words(self.eng, ov, 32, "OVERLAPPED") if isinstance(ov, Structure) else (None, None)
        start = ov.Offset + (ov.OffsetHigh << 32) if w is None else w.get(o + 16, 0) + (w.get(o + 20, 0) << 32)
        n = lo + (hi << 32)
        return start, n

    def _x_LockFileEx(self, h, flags, reserved, lo, hi, ov):
        o = self._h(h)
        if ov is None or self.eng.truth(ne(reserved, 0)):
            raise NTError(87)
        if not (o.r or o.w):
            raise NTError(5)
        start, n = self._range(ov, lo, hi)
        end = start + n
        if self.eng.truth(gt(end, TOP + 1)):
            raise NTError(307)  # ERROR_INVALID_LOCK_RANGE
        kind = 2 if flags & 2 else 1
        c = Or(*[And(lt(start, e), lt(s, end)) for f, k2, s, e in o.node.locks if (k2 == 2 or kind == 2) and not (f is o and kind == 1)])
        if self.eng.truth(c):
            if flags & 1:
                raise NTError(33)
            if self.block_raises:
                raise Deadlock("blocked in the system")
            self.eng.reach("blocked in the system")
            self.eng.end("blocked in the system")
        o.node.locks.append([o, kind, start, end])

    def _x_UnlockFileEx(self, h, reserved, lo, hi, ov):
        o = self._h(h)
        if ov is None or self.eng.truth(ne(reserved, 0)):
            raise NTError(87)
        start, n = self._range(ov, lo, hi)
        for l in o.node.locks:
            if l[0] is o and self.eng.truth(And(eq(l[2], start), eq(l[3], start + n))):
                o.node.locks.remove(l)
                return
        raise NTError(158)

    # the C runtime (os, msvcrt)

    def _crt(self, fd):
        if not isinstance(fd, int):
            raise TypeError("an integer is required")
        h = self.crt.get(fd)
        if h is None:
            raise _p.oserr(E.EBADF)
        return h

    def call(self, name, *args, **kw):
        if name in ("open", "lseek", "ftruncate", "read", "lockf", "fcntl", "flock", "stat", "lstat"):
            _fail("unmodelled call: os.%s on Windows" % name)
        return _p.Kernel.call(self, name, *args, **kw)

    def _close(self, fd):
        try:
            h = self._crt(fd)
        except OSError:
            self.bad_closes.append((self.pid, fd))
            raise
        del self.crt[fd]
        try:
            self._x_CloseHandle(h)
        except NTError:
            self.bad_closes.append((self.pid, fd))
            raise _p.oserr(E.EBADF)

    def _write(self, fd, data):
        h = self._crt(fd)
        if type(data) in (SymBuf, SymView):
            data = data.tobytes()
        if type(data) is not SymBytes:
            data = bytes(data)
        o = self._h(h)
        if fd in self.crt_append and o.node.kind == "reg":
            o.pos = o.node.size
        n = c_uint()
        b = create_string_buffer(data)
        try:
            self._x_WriteFile(h, b, sym_len(data), n, None)
        except NTError as e:
            raise winerr(e.code)
        if o.node.kind != "reg" and not is_sym(n.value) and n.value == 0 and self.eng.truth(ne(sym_len(data), 0)):
            raise _p.oserr(E.EAGAIN)
        return n.value

    @property
    def crt_append(self):
        return [fd for fd, h, flags in self.crt_opened if flags & 8 and self.crt.get(fd) == h]

    def _fstat(self, fd):
        h = self._crt(fd)
        if h not in self.handles:
            raise _p.oserr(E.EBADF)
        st = _p.StatResult(self, self.handles[h].node)
        del st.st_blksize, st.st_blocks, st.st_rdev  # there is none on windows
        n = self.handles[h].node
        if hasattr(n, "ftimes"):
            st.st_ctime, st.st_atime, st.st_mtime = [timestamp(t) for t in n.ftimes]
        return st

    def _isatty(self, fd):
        h = self.crt.get(fd)
        return h in self.handles and self.handles[h].node.tty

    def _get_blocking(self, fd):
        h = self._crt(fd)
        if h not in self.handles:
            raise winerr(6)
        n = self.handles[h].node
        if n.kind != "fifo":
            raise winerr(1)
        return not n.nonblocking

    def _set_blocking(self, fd, v):
        self.handles[self._crt(fd)].node.nonblocking = not v

    def _handle_obj(self, h):
        if h not in self.handles:
            raise winerr(6)
        return self.handles[h]

    def _get_handle_inheritable(self, h):
        return bool(self._handle_obj(h).inherit)

    def _set_handle_inheritable(self, h, v):
        self._handle_obj(h).inherit = bool(v)

    def _get_inheritable(self, fd):
        return self._get_handle_inheritable(self._crt(fd))

    def _set_inheritable(self, fd, v):
        self._set_handle_inheritable(self._crt(fd), v)

    def _get_osfhandle(self, fd):
        h = self._crt(fd)
        if h not in self.handles:
            raise _p.oserr(E.EBADF)
        return h

    def _open_osfhandle(self, h, flags):
        if not isinstance(h, int) or not isinstance(flags, int):
            raise TypeError("an integer is required")
        if h not in self.handles:
            raise _p.oserr(E.EBADF)
        fd = self.crt_add(int(h))
        self.crt_opened.append((fd, h, flags))
        return fd


def timestamp(t):
    """seconds since 1970 of a FILETIME"""
    t = t - 116444736000000000
    return t / 10000000 if is_sym(t) else float(t) / 10000000


# ------------------------------------------------------------------ pywin32


class PyError(Exception):
    """pywintypes.error: not an OSError"""

    def __init__(self, winerror=None, funcname=None, strerror=None):
        Exception.__init__(self, winerror, funcname, strerror)
        self.winerror, self.funcname, self.strerror = winerror, funcname, strerror


class PyHandle(object):
    def __init__(self, k, h):
        self.k, self.h = k, h

    def __int__(self):
        return self.h

    def __index__(self):
        return self.h

    def Detach(self):
        h, self.h = self.h, 0
        return h

    def Close(self):
        if self.h:
            self.k.win("CloseHandle", [self.h])
            self.h = 0

    def __del__(self):
        if self.h and self.k.world.alive and self.k is self.k.world.kernel:
            self.Close()


class PyOverlapped(object):
    def __init__(self):
        self.__dict__.update(Offset=0, OffsetHigh=0, hEvent=0, Internal=0, InternalHigh=0, object=None, dword=0)

    def __setattr__(self, n, v):
        if n not in self.__dict__:
            raise AttributeError(n)
        if n in ("Offset", "OffsetHigh"):
            if not isinstance(v, int):
                raise TypeError("an integer is required")
            if not _inside(v, 0, 1 << 32):
                raise OverflowError("Python int too large to convert to C unsigned long")
        self.__dict__[n] = v


class PySecurity(object):
    def __init__(self):
        self.bInheritHandle = False
        self.SECURITY_DESCRIPTOR = None


def _pyint(v, bits, sign, what):
    """an argument of a C extension: values out of range are refused"""
    if isinstance(v, PyHandle):
        v = int(v)
    if not isinstance(v, int):
        raise TypeError("%s: an integer is required" % what)
    if isinstance(v, bool):
        v = int(v)
    lo, hi = (-(1 << bits - 1), 1 << bits - 1) if sign else (0, 1 << bits)
    if not _inside(v, lo, hi):
        raise OverflowError("%s: int out of range" % what)
    return v


def setup_pywin32(w, fk):
    from .world import FakeModule

    def call(name, *args):
        k = w.kernel
        k.eng._check_abort()
        k.sched.point(name)
        k.eng.stats.transitions += 1
        try:
            r = k._win(name, list(args))
        except NTError as e:
            k.last_error = e.code
            raise PyError(e.code, name, "system error")
        return r

    def hnd(h):
        return _pyint(h, 64, False, "handle")

    def create(path, access, share, sa, disp, flags, template):
        if not isinstance(path, str):
            raise TypeError("The object is not a PyUnicode")
        return PyHandle(w.kernel, call("CreateFileW", path, unsigned(access, 32), unsigned(share, 32), sa, disp, unsigned(flags, 32), 0))

    def read(h, n, ov=None):
        if not isinstance(n, int):
            _fail("unmodelled call: win32file.ReadFile into a buffer")
        n = _pyint(n, 32, False, "ReadFile")
        b, k = create_string_buffer(n), c_uint()
        try:
            call("ReadFile", hnd(h), b, n, k, None)
        except PyError as e:
            if not (not is_sym(e.winerror) and e.winerror in (234, 997)):
                raise
        return (0, b.raw[0:k.value])

    def write(h, data, ov=None):
        if not isinstance(data, (bytes, bytearray)) and type(data) is not memoryview:
            raise TypeError("a bytes-like object is required")
        if not isinstance(data, bytes):
            data = data.tobytes() if type(data) in (SymBuf, SymView, memoryview) else bytes(data)
        b, k = create_string_buffer(data), c_uint()
        n = sym_len(data)
        n = _pyint(n, 32, False, "WriteFile")
        call("WriteFile", hnd(h), b, n, k, None)
        return (0, k.value)

    def info(h):
        i = w.nt_info()
        call("GetFileInformationByHandle", hnd(h), i)
        g = lambda n: i._w.get(4 * n, 0)
        return (g(0), None, None, None, g(7), g(8), g(9), g(10), g(11), g(12))

    def size(h):
        v = c_longlong()
        call("GetFileSizeEx", hnd(h), v)
        return v.value

    def seek(h, off, method):
        v = c_longlong()
        call("SetFilePointerEx", hnd(h), _pyint(off, 64, True, "SetFilePointer"), v, method)
        return v.value

    def seteof(h):
        try:
            call("SetEndOfFile", hnd(h))
        except PyError:
            return 0
        return 1

    def lock(h, flags, lo, hi, ov):
        call("LockFileEx", hnd(h), unsigned(_pyint(flags, 32, True, "LockFileEx"), 32), 0, unsigned(_pyint(lo, 32, True, "LockFileEx"), 32),
             unsigned(_pyint(hi, 32, True, "LockFileEx"), 32), ov)

    def unlock(h, lo, hi, ov):
        call("UnlockFileEx", hnd(h), 0, unsigned(_pyint(lo, 32, True, "UnlockFileEx"), 32), unsigned(_pyint(hi, 32, True, "UnlockFileEx"), 32), ov)

    def duplicate(src, h, dst, access, inherit, options):
        if src != -1 or dst != -1 or options != 2:
            _fail("unmodelled call: win32api.DuplicateHandle between processes, or with other rights")
        return PyHandle(w.kernel, call("DuplicateHandle", hnd(h), bool(inherit)))

    consts = dict(
        GENERIC_READ=-2147483648, GENERIC_WRITE=0x40000000, FILE_SHARE_READ=1, FILE_SHARE_WRITE=2, FILE_SHARE_DELETE=4, OPEN_EXISTING=3, OPEN_ALWAYS=4,
        CREATE_NEW=1, CREATE_ALWAYS=2, TRUNCATE_EXISTING=5, FILE_ATTRIBUTE_READONLY=1, FILE_ATTRIBUTE_NORMAL=128, FILE_BEGIN=0, FILE_CURRENT=1, FILE_END=2)
    fk["win32file"] = FakeModule("win32file", dict(
        consts, CreateFile=create, CloseHandle=lambda h: call("CloseHandle", hnd(h)), FlushFileBuffers=lambda h: call("FlushFileBuffers", hnd(h)),
        GetFileInformationByHandle=info, LockFileEx=lock, UnlockFileEx=unlock, GetFileSize=size, SetFilePointer=seek, WriteFile=write, ReadFile=read,
        SetEndOfFile=seteof))
    fk["win32con"] = FakeModule("win32con", dict(consts, DUPLICATE_SAME_ACCESS=2, DUPLICATE_CLOSE_SOURCE=1, LOCKFILE_EXCLUSIVE_LOCK=2, LOCKFILE_FAIL_IMMEDIATELY=1, FILE_FLAG_WRITE_THROUGH=-2147483648))
    fk["win32api"] = FakeModule("win32api", dict(
        error=PyError, GetLastError=lambda: w.kernel.last_error, GetCurrentProcess=lambda: -1, DuplicateHandle=duplicate,
        CloseHandle=lambda h: call("CloseHandle", hnd(h))))
    fk["pywintypes"] = FakeModule("pywintypes", dict(error=PyError, OVERLAPPED=PyOverlapped, SECURITY_ATTRIBUTES=PySecurity))


# ------------------------------------------------------------------ modules


def setup_fakes(w, fk, ostab, fos):
    """w.win_backend: ctypes, pywin32, or ctypes-old (Python without os.set_blocking on Windows)"""
    from .world import FakeModule

    for n in list(ostab):
        if n.startswith(("O_", "F_", "RWF_", "POSIX_")):
            del ostab[n]
    ostab.update(O_RDONLY=0, O_WRONLY=1, O_RDWR=2, O_APPEND=8, O_CREAT=0x100, O_TRUNC=0x200, O_EXCL=0x400, O_TEXT=0x4000, O_BINARY=0x8000, O_NOINHERIT=0x80)
    for n in ("close", "write", "fstat", "isatty", "get_blocking", "set_blocking", "open", "lseek", "ftruncate", "read", "stat", "lstat", "set_inheritable", "get_inheritable",
              "set_handle_inheritable", "get_handle_inheritable"):
        ostab[n] = w._k(n)
    ostab.update(name="nt", SEEK_SET=0, SEEK_CUR=1, SEEK_END=2)
    hidden = {n for n in dir(_os) if n.startswith(("O_", "F_", "RWF_", "POSIX_"))} | {
        "fork", "register_at_fork", "fdatasync", "pread", "pwrite", "fchmod", "fchown", "getuid", "geteuid", "posix_fallocate", "lockf"}
    if w.win_backend == "ctypes-old":
        del ostab["get_blocking"], ostab["set_blocking"]
        hidden |= {"get_blocking", "set_blocking"}
    fos.__dict__["_hidden"] = hidden
    fk["fcntl"] = None
    fk["nt"] = fos
    fk["msvcrt"] = FakeModule("msvcrt", dict(
        get_osfhandle=w._k("get_osfhandle"), open_osfhandle=w._k("open_osfhandle"), setmode=lambda fd, m: 0x8000, LK_LOCK=1, LK_NBLCK=2, LK_UNLCK=0))

    FILETIME = StructMeta("FILETIME", (Structure,), dict(_fields_=[("dwLowDateTime", c_uint), ("dwHighDateTime", c_uint)]))
    w.nt_info = StructMeta("info", (Structure,), dict(_fields_=[("f%d" % i, c_uint) for i in range(13)]))

    def WinError(code=None, descr=None):
        return winerr(w.kernel.last_error if code is None else code, descr)

    table = dict(
        c_byte=c_byte, c_ubyte=c_ubyte, c_short=c_short, c_ushort=c_ushort, c_int=c_int, c_uint=c_uint, c_long=c_int, c_ulong=c_uint, c_longlong=c_longlong,
        c_ulonglong=c_ulonglong, c_int32=c_int, c_uint32=c_uint, c_int64=c_longlong, c_uint64=c_ulonglong, c_size_t=c_ulonglong, c_ssize_t=c_longlong,
        c_void_p=c_void_p, c_char_p=c_char_p, c_wchar_p=c_wchar_p, c_bool=simple("c_bool", 8, False), c_char=c_ubyte, string_at=string_at, get_last_error=lambda: getattr(w, 'ctypes_last_error', 0), py_object=None,
        Structure=Structure, POINTER=POINTER, byref=Ref, pointer=Ref, create_string_buffer=create_string_buffer, c_buffer=create_string_buffer,
        addressof=addressof, sizeof=sizeof, cast=cast, ArgumentError=ArgumentError, WinDLL=lambda name, **k: Dll(w, name, **k), CDLL=lambda name, **k: Dll(w, name, **k),
        WINFUNCTYPE=lambda *a, **k: c_void_p, CFUNCTYPE=lambda *a, **k: c_void_p, WinError=WinError, GetLastError=lambda: w.kernel.last_error,
        FormatError=lambda code=None: "system error",
    )
    ct = FakeModule("ctypes", table)
    ct.__dict__["_strict"] = fk["msvcrt"].__dict__["_strict"] = True
    wt = FakeModule("ctypes.wintypes", dict(
        DWORD=c_uint, BOOL=c_int, HANDLE=c_void_p, LARGE_INTEGER=c_longlong, ULARGE_INTEGER=c_ulonglong, LPCVOID=c_void_p, LPVOID=c_void_p, LONG=c_int,
        ULONG=c_uint, UINT=c_uint, INT=c_int, WORD=c_ushort, SHORT=c_short, USHORT=c_ushort, LPCSTR=c_char_p, LPSTR=c_char_p, LPCWSTR=c_wchar_p,
        LPWSTR=c_wchar_p, FILETIME=FILETIME, LPDWORD=POINTER(c_uint), PDWORD=POINTER(c_uint), PLARGE_INTEGER=POINTER(c_longlong), BYTE=c_ubyte))
    wt.__dict__["_strict"] = True
    ct.__dict__["wintypes"] = wt
    fk["ctypes"], fk["ctypes.wintypes"] = ct, wt
    if w.win_backend == "pywin32":
        setup_pywin32(w, fk)
    else:
        fk["win32file"] = fk["pywintypes"] = fk["win32api"] = fk["win32con"] = None

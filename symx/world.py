"""
symx.world - loads the real rsfile package (from /repo's current sources) so that every call to
the operating system, the clock, and the thread library goes to the models.

Modules are executed natively; only their `__builtins__` dictionary is ours: `__import__` resolves
`os`, `fcntl`, `time`, `threading`, ... to fakes, and `len/int/range/set/bytes` accept proxies.
The stdlib `_pyio` module (buffering and text layers) is loaded the same way, as a private copy.
"""
import ast
import builtins as _b
import collections
import errno as _errno
import functools
import gc
import importlib.util
import math
import re
import struct
import operator
import io as _io
import os as _os
import stat
import sys as _sys
import threading as _threading
import time as _time
import types
import weakref

from . import engine as _e
from . import posix as _p
from .engine import EngineError, SymBytes, SymInt, SymNum, SymSet, SymStr, is_sym
from .sched import Sched, VCondition, VEvent, VLock, VRLock, VSemaphore

SRC = _os.environ.get("RSFILE_SRC", "/repo/src")
PYIO = None


def pyio_path():
    spec = importlib.util.find_spec("_pyio")
    return spec.origin


# ------------------------------------------------------------------ builtins

_real_int, _real_bytes, _real_set, _real_len = int, bytes, set, len


def _floor(x):
    import z3

    return x if type(x) is SymInt else _e.wrap(z3.ToInt(x.z))


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_int)

    def __subclasscheck__(cls, x):
        return issubclass(x, _real_int)

    def __eq__(cls, o):
        return o is _real_int or o is int_shim

    def __hash__(cls):
        return hash(_real_int)


class int_shim(_real_int, metaclass=_IntMeta):
    def __new__(cls, *a, **k):
        if len(a) == 1 and not k and type(a[0]) is SymInt:
            return a[0]
        if len(a) == 1 and not k and type(a[0]) is _e.SymReal:
            z = a[0].z
            import z3

            t = z3.ToInt(z)  # floor
            return _e.wrap(_e.If(z >= 0, t, -z3.ToInt(-z)))
        return _real_int(*a, **k)

    @staticmethod
    def from_bytes(data, byteorder="big", *, signed=False):
        if type(data) in (_e.SymBytes, _e.SymBuf, _e.SymView):
            return _e.unpack_int(SymBytes.of(data), byteorder, signed)
        return _real_int.from_bytes(data, byteorder, signed=signed)


class _StructShim(object):
    """struct, with symbolic integers"""

    error = struct.error
    calcsize = staticmethod(struct.calcsize)

    @staticmethod
    def _items(fmt):
        """(offset, size, code) of the values"""
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        head = fmt[0] if fmt[:1] in tuple("@=<>!") else ""
        out, done = [], head
        for count, code in re.findall(r"(\d*)\s*([a-zA-Z?])", fmt[len(head) :]):
            n = _real_int(count or 1)
            if code in "sp":
                done += count + code
                out.append((struct.calcsize(done) - n, n, code))
                continue
            for _i in range(n):
                done += code
                if code != "x":
                    size = struct.calcsize(head + code)
                    out.append((struct.calcsize(done) - size, size, code))
        return out, struct.calcsize(fmt), "big" if head in (">", "!") else "little"

    def pack(self, fmt, *values):
        if not any(is_sym(v) or type(v) is SymBytes for v in values):
            return struct.pack(fmt, *values)
        items, total, order = self._items(fmt)
        if len(items) != len(values):
            raise struct.error("pack expected %d items for packing (got %d)" % (len(items), len(values)))
        out, at = b"", 0
        for (pos, size, code), v in zip(items, values):
            if pos > at:
                out = out + bytes(pos - at)
            if is_sym(v):
                if code.lower() not in "bhilqn":
                    raise EngineError("struct.pack(%r) of a symbolic value" % code)
                v = _e.pack_int(v, size, order, code.islower(), struct.error)
            elif type(v) is SymBytes:
                raise EngineError("struct.pack() of symbolic bytes")
            else:
                v = struct.pack(("<" if order == "little" else ">") + ("%ds" % size if code == "s" else code), v)
                v = SymBytes.packed([(_real_int.from_bytes(v, order), size, order)])
            out = v if at == 0 and type(out) is bytes and not out else out + v
            at = pos + size
        return out + bytes(total - at) if total > at else out

    def unpack(self, fmt, data):
        if type(data) not in (_e.SymBytes, _e.SymBuf, _e.SymView):
            return struct.unpack(fmt, data)
        data = SymBytes.of(data)
        items, total, order = self._items(fmt)
        if data.n != total:
            raise struct.error("unpack requires a buffer of %d bytes" % total)
        out = []
        for pos, size, code in items:
            part = data[pos : pos + size]
            if code.lower() in "bhilqn" and type(part) is SymBytes:
                out.append(_e.unpack_int(part, order, code.islower()))
            elif code == "s":
                out.append(part)
            else:
                raise EngineError("struct.unpack(%r) of symbolic bytes" % code)
        return tuple(out)

    def unpack_from(self, fmt, data, offset=0):
        if type(data) not in (_e.SymBytes, _e.SymBuf, _e.SymView):
            return struct.unpack_from(fmt, data, offset)
        return self.unpack(fmt, SymBytes.of(data)[offset : offset + struct.calcsize(fmt)])

    def __getattr__(self, name):
        e = EngineError("not modelled: struct.%s" % name)
        if _e.Engine.current is not None:
            _e.Engine.current._fail(e)
        raise e

    class Struct(object):
        def __init__(self, fmt):
            self.format, self.size = fmt, struct.calcsize(fmt)

        def pack(self, *values):
            return _struct_shim.pack(self.format, *values)

        def unpack(self, data):
            return _struct_shim.unpack(self.format, data)

        def unpack_from(self, data, offset=0):
            return _struct_shim.unpack_from(self.format, data, offset)


_struct_shim = _StructShim()


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, x):
        return issubclass(x, float)

    def __eq__(cls, o):
        return o is float or o is float_shim

    def __hash__(cls):
        return hash(float)


class float_shim(float, metaclass=_FloatMeta):
    """floating-point numbers derived from symbolic ones are real numbers"""

    def __new__(cls, *a, **k):
        if len(a) == 1 and not k and type(a[0]) is SymInt:
            import z3

            return _e.wrap(z3.ToReal(a[0].z))
        if len(a) == 1 and not k and type(a[0]) is _e.SymReal:
            return a[0]
        return float(*a, **k)


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_bytes)

    def __subclasscheck__(cls, x):
        return issubclass(x, _real_bytes)

    def __eq__(cls, o):
        return o is _real_bytes or o is bytes_shim

    def __hash__(cls):
        return hash(_real_bytes)


class bytes_shim(_real_bytes, metaclass=_BytesMeta):
    def __new__(cls, *a, **k):
        if len(a) == 1 and not k:
            if type(a[0]) is SymBytes:
                return a[0]
            if type(a[0]) is SymInt:
                return SymBytes(a[0], lambda i: 0)
            if type(a[0]) in (_e.SymBuf, _e.SymView, _e.SymArray):
                return a[0].tobytes()
        return _real_bytes(*a, **k)


def set_shim(*a):
    return _e.make_set(*a)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_set)

    def __eq__(cls, o):
        return o is _real_set or o is set_cls

    def __hash__(cls):
        return hash(_real_set)


class set_cls(_real_set, metaclass=_SetMeta):
    def __new__(cls, *a):
        return _e.make_set(*a)


class _FSetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, frozenset)

    def __hash__(cls):
        return hash(frozenset)

    def __eq__(cls, o):
        return o is frozenset


class fset_cls(frozenset, metaclass=_FSetMeta):
    def __new__(cls, *a):
        r = _e.make_set(*a)
        return r if type(r) is SymSet else frozenset(r)


class range_shim(object):
    """range() whose bound may be symbolic: one branch per iteration instead of concretisation"""

    def __new__(cls, *a):
        if any(is_sym(x) for x in a):
            return _sym_range(*a)
        return range(*a)


def _sym_range(*a):
    start, stop, step = 0, None, 1
    if len(a) == 1:
        (stop,) = a
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    i = start
    n = 0
    while (i < stop) if step > 0 else (i > stop):
        n += 1
        if n > _e._cur().range_limit:
            _e._cur().end("loop bound")
        yield i
        i = i + step


_e.Engine.range_limit = 8


def len_shim(x):
    t = type(x)
    if t is SymBytes or t is SymStr or t is SymSet or t is _e.SymBuf or t is _e.SymView or t is _e.SymArray:
        return x._len()
    return _real_len(x)


def _minmax(real, fold):
    def shim(*a, **k):
        if k or len(a) < 2:
            return real(*a, **k)
        if not any(isinstance(x, _e.SymNum) for x in a):
            return real(*a)
        if any(type(x) is float for x in a):
            r = a[0]
            for x in a[1:]:
                if (x < r) if real is min else (x > r):
                    r = x
            return r
        r = a[0]
        for x in a[1:]:
            r = _e.wrap(fold(r, x))  # no fork: an if-then-else term
        return r

    return shim


max_shim = _minmax(max, _e.Max)
min_shim = _minmax(min, _e.Min)


def print_shim(*a, **k):
    return None


class _BytearrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, bytearray)

    def __eq__(cls, o):
        return o is bytearray or o is bytearray_shim

    def __hash__(cls):
        return hash(bytearray)


class bytearray_shim(bytearray, metaclass=_BytearrayMeta):
    def __new__(cls, *a, **k):
        if not a and not k:
            return _e.SymBuf()
        if len(a) == 1 and not k and type(a[0]) is SymInt:
            return _e.SymBuf(SymBytes(a[0], lambda i: 0))
        if len(a) == 1 and not k and type(a[0]) in (SymBytes, _e.SymBuf, _e.SymView, _e.SymArray):
            r = _e.SymBuf()
            r.extend(a[0])
            return r
        return bytearray(*a, **k)


class _MVMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, memoryview)

    def __eq__(cls, o):
        return o is memoryview or o is memoryview_shim

    def __hash__(cls):
        return hash(memoryview)


class memoryview_shim(metaclass=_MVMeta):
    cast = memoryview.cast

    def __new__(cls, x):
        t = type(x)
        if t is SymBytes or t is _e.SymBuf:
            return _e.SymView(x)
        if t is _e.SymArray:
            return _e.SymView(x, 0, _e.sym_len(x.tobytes()), x.itemsize, x.typecode)
        if t is _e.SymView:
            return x
        return memoryview(x)


def join_shim(x, *a, **k):
    if type(x) is bytes and len(a) == 1 and not k:
        return _e.join_bytes(x, a[0])
    if type(x) in (str, _e.SymStr) and len(a) == 1 and not k:
        return _e.join_str(x, a[0])
    return x.join(*a, **k)


class _JoinRewriter(ast.NodeTransformer):
    """x.join(y) -> __symx_join__(x, y), since methods of bytes literals can't be replaced; lookups in mappings and
    sets by a symbolic key -> comparisons with the keys (hashing would enumerate the values of the key)"""

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and (f.attr in ("join", "get") or f.attr in METHODS and len(node.args) in (1, 2)):
            node.func = ast.copy_location(ast.Name("__symx_%s__" % f.attr, ast.Load()), f)
            node.args.insert(0, f.value)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or isinstance(node.slice, ast.Constant):
            return node
        if isinstance(node.slice, ast.Slice):
            p = [node.slice.lower, node.slice.upper, node.slice.step]
            if all(x is None or isinstance(x, ast.Constant) for x in p):
                return node
            p = [ast.copy_location(ast.Constant(None), node) if x is None else x for x in p]
            node.slice = ast.copy_location(
                ast.Call(ast.copy_location(ast.Name("__symx_slice__", ast.Load()), node), p, []), node
            )
        return ast.copy_location(
            ast.Call(ast.copy_location(ast.Name("__symx_item__", ast.Load()), node), [node.value, node.slice], []), node
        )

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) > 1 and any(isinstance(x, ast.Subscript) for x in node.targets):
            # one assignment per target
            loc = lambda n: ast.copy_location(n, node)
            out = [loc(ast.Assign([loc(ast.Name("__symx_tmp", ast.Store()))], node.value))]
            for x in node.targets:
                out.append(self._store(loc(ast.Assign([x], loc(ast.Name("__symx_tmp", ast.Load()))))))
            return out
        return self._store(node)

    def _store(self, node):
        t = node.targets[0]
        if len(node.targets) != 1 or not isinstance(t, ast.Subscript) or isinstance(t.slice, (ast.Constant, ast.Slice)):
            return node
        c = ast.Call(ast.copy_location(ast.Name("__symx_store__", ast.Load()), node), [node.value, t.value, t.slice], [])
        return ast.copy_location(ast.Expr(ast.copy_location(c, node)), node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if not isinstance(t, ast.Subscript) or isinstance(t.slice, (ast.Constant, ast.Slice)):
            return node
        loc = lambda n: ast.copy_location(n, node)
        c = ast.Call(loc(ast.Name("__symx_aug__", ast.Load())), [t.value, t.slice, loc(ast.Constant(type(node.op).__name__)), node.value], [])
        return loc(ast.Expr(loc(c)))

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Constant, ast.Slice)):
                c = ast.Call(ast.copy_location(ast.Name("__symx_del__", ast.Load()), node), [t.value, t.slice], [])
                out.append(ast.copy_location(ast.Expr(ast.copy_location(c, node)), node))
            else:
                out.append(ast.copy_location(ast.Delete([t]), node))
        return out

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1 or not isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return node
        r = ast.Call(
            ast.copy_location(ast.Name("__symx_in__", ast.Load()), node), [node.left, node.comparators[0]], []
        )
        r = ast.copy_location(r, node)
        if isinstance(node.ops[0], ast.NotIn):
            r = ast.copy_location(ast.UnaryOp(ast.Not(), r), node)
        return r

    def visit_AnnAssign(self, node):
        node.value = self.visit(node.value) if node.value is not None else None
        return node


_NOKEY = object()
_HASHED = (set, frozenset, dict, types.MappingProxyType, collections.OrderedDict, collections.defaultdict, collections.Counter, type({}.keys()))


def _symkey(k):
    t = type(k)
    return t in (_e.SymStr, SymInt, _e.SymReal) or isinstance(k, tuple) and any(_symkey(x) for x in k)


def _bykey(coll, k):
    """must the key be compared with all those of the collection?"""
    if type(coll) not in _HASHED:
        return False
    if _symkey(k):
        return True
    return isinstance(k, (int, float, tuple)) and any(_symkey(x) for x in coll)


def _lookup(coll, k):
    """the key of a hashed collection which is equal to a symbolic one (forking), or None"""
    for x in coll:
        if isinstance(k, tuple):
            if isinstance(x, tuple) and len(x) == len(k) and all(a is b or a == b for a, b in zip(x, k)):
                return (x,)
        elif isinstance(x, str) if isinstance(k, str) else isinstance(x, (int, float, SymInt, _e.SymReal)):
            if k == x:
                return (x,)
    return None


def _storing(f, *a):
    _e.STORING.append(1)
    try:
        return f(*a)
    finally:
        _e.STORING.pop()


def item_shim(d, k):
    if type(k) is slice and type(d) in (bytes, bytearray, memoryview) and (is_sym(k.start) or is_sym(k.stop)):
        if type(d) is memoryview:
            if d.itemsize != 1 or not d.readonly:
                raise EngineError("slice of a memoryview with symbolic bounds")
            return _e.SymView(SymBytes.of(d.tobytes()), 0, len(d), 1, "B")[k]
        return SymBytes.of(bytes(d))[k]
    if _bykey(d, k):
        r = _lookup(d, k)
        if r is not None:
            return _found(d, r[0])
        if type(d) is collections.defaultdict and d.default_factory is not None:
            v = d.default_factory()
            _storing(d.__setitem__, k, v)
            return v
        if type(d) is collections.Counter:
            return 0
        raise KeyError(k)
    return d[k]


def _found(d, key):
    """the value of this very key"""
    if not _symkey(key):
        return d[key]
    for x, v in d.items():
        if x is key:
            return v


def store_shim(v, d, k):
    if _bykey(d, k):
        r = _lookup(d, k)
        _storing(d.__setitem__, k if r is None else r[0], v)
    else:
        d[k] = v


INPLACE = dict(
    Add=operator.iadd, Sub=operator.isub, Mult=operator.imul, MatMult=operator.imatmul, Div=operator.itruediv, FloorDiv=operator.ifloordiv,
    Mod=operator.imod, Pow=operator.ipow, LShift=operator.ilshift, RShift=operator.irshift, BitOr=operator.ior, BitXor=operator.ixor,
    BitAnd=operator.iand)


def aug_shim(d, k, op, v):
    store_shim(INPLACE[op](item_shim(d, k), v), d, k)


def del_shim(d, k):
    if _bykey(d, k):
        r = _lookup(d, k)
        if r is None:
            raise KeyError(k)
        _storing(d.__delitem__, r[0])
    else:
        del d[k]


def get_shim(d, *a, **kw):
    if a and _bykey(d, a[0]):
        r = _lookup(d, a[0])
        return _found(d, r[0]) if r is not None else d.get(_NOKEY, *a[1:], **kw)
    return d.get(*a, **kw)


def in_shim(k, coll):
    if _bykey(coll, k):
        return _lookup(coll, k) is not None
    return k in coll


def _method_shim(name):
    """pop, setdefault, add, discard, remove of mappings and sets"""

    def shim(d, *a, **kw):
        m = getattr(d, name)
        if a and not kw and _bykey(d, a[0]):
            r = _lookup(d, a[0])
            if r is not None:
                return _storing(m, r[0], *a[1:])
            if name in ("setdefault", "add"):
                return _storing(m, *a)
            return m(_NOKEY, *a[1:])
        return m(*a, **kw)

    shim.__name__ = name
    return shim


METHODS = {n: _method_shim(n) for n in ("pop", "setdefault", "add", "discard", "remove")}


# ------------------------------------------------------------------ fake modules

OS_CONST = {
    n: getattr(_os, n)
    for n in dir(_os)
    if (n.startswith(("O_", "SEEK_", "F_", "RWF_", "POSIX_FADV_")) and isinstance(getattr(_os, n), _real_int))
}
OS_PASS = (
    "fspath", "PathLike", "strerror", "error", "name", "path", "linesep", "sep", "altsep", "extsep", "pathsep",
    "curdir", "pardir", "devnull", "defpath", "fsencode", "fsdecode", "environ", "stat_result", "get_exec_path",
    "supports_fd", "supports_dir_fd", "supports_follow_symlinks",
)
OS_UNIX = (
    "open", "close", "read", "write", "lseek", "ftruncate", "truncate", "fstat", "stat", "lstat", "isatty", "dup",
    "fsync", "fdatasync", "set_inheritable", "get_inheritable", "unlink", "pread", "pwrite", "remove", "rename", "replace", "access",
    "chmod", "fchmod", "umask", "dup2", "get_blocking", "set_blocking", "posix_fallocate",
)


class FakeModule(types.ModuleType):
    def __init__(self, name, table):
        types.ModuleType.__init__(self, name)
        self.__dict__["_table"] = table
        self.__dict__["__all__"] = [k for k in table if not k.startswith("_")]

    def __getattr__(self, name):
        try:
            return self.__dict__["_table"][name]
        except KeyError:
            pass
        if name.startswith("__"):
            raise AttributeError(name)
        real = self.__dict__.get("_real")
        if real is not None and hasattr(real, name) and name not in self.__dict__.get("_hidden", ()):
            v = getattr(real, name)
            if callable(v) and not isinstance(v, type):
                full = "%s.%s" % (self.__name__, name)

                def unmodelled(*a, **k):
                    e = EngineError("unmodelled call: %s" % full)
                    if _e.Engine.current is not None:
                        _e.Engine.current._fail(e)
                    raise e

                unmodelled.__name__ = name
                return unmodelled
            return v
        if self.__dict__.get("_strict"):
            e = EngineError("not modelled: %s.%s" % (self.__name__, name))
            if _e.Engine.current is not None:
                _e.Engine.current._fail(e)
            raise e
        raise AttributeError("module %r has no attribute %r" % (self.__name__, name))


class World(object):
    """the real package loaded over the models; `begin(eng)` starts a fresh path"""

    REAL_OK = frozenset(
        """abc codecs errno io warnings functools contextlib array locale collections itertools operator types
        enum dataclasses typing weakref inspect traceback string re math struct numbers copy builtins atexit
        __future__ collections.abc importlib logging binascii queue heapq bisect textwrap""".split()
    )

    def __init__(self, platform="unix", win_backend="ctypes", src=None, pyver=None):
        self.platform = platform
        self.win_backend = win_backend
        self.src = src or SRC
        self.all_locks = []
        self.sched = None
        self.kernel = None
        self.eng = None
        self.alive = False
        self.modules = {}
        self.files = set()
        self._frozen = None
        self.warnings = []
        self._fakes = self._make_fakes()
        self._builtins = self._make_builtins()
        self.sched = Sched(_NullEngine())
        self.kernel = _p.Kernel(_NullEngine(), self.sched)
        self.pyio = self._load_module("_pyio", pyio_path())
        self._fakes["io"].__dict__["BytesIO"] = self.pyio.BytesIO  # over bytearrays, hence over symbolic bytes
        self._guard_del()
        self.rsfile = self._import("rsfile")
        for sub in ("rsfile_utilities", "rsfile_registries", "rsfileio_abstract", "rsfile_factories", "rsfile_streams"):
            self._import("rsfile." + sub)
        self.import_locks = list(self.all_locks)
        self._snapshot()
        gc.collect()
        gc.freeze()

    # ---------------------------------------------------------------- import

    def _make_builtins(self):
        d = dict(_b.__dict__)
        d.update(
            __import__=self._import_hook,
            int=int_shim,
            float=float_shim,
            bytes=bytes_shim,
            set=set_cls,
            frozenset=fset_cls,
            range=range_shim,
            len=len_shim,
            max=max_shim,
            min=min_shim,
            print=print_shim,
            bytearray=bytearray_shim,
            memoryview=memoryview_shim,
            __symx_join__=join_shim,
            __symx_get__=get_shim,
            __symx_item__=item_shim,
            __symx_slice__=slice,
            __symx_aug__=aug_shim,
            __symx_in__=in_shim,
            __symx_store__=store_shim,
            __symx_del__=del_shim,
            **{"__symx_%s__" % n: f for n, f in METHODS.items()},
            open=self._blocked_open,
        )
        if self.platform == "windows":
            d["WindowsError"] = self._winerror_class()
        return d

    def _blocked_open(self, *a, **k):
        raise EngineError("builtin open() called by the code under test")

    def _winerror_class(self):
        from . import nt

        return nt.WindowsError

    def _import_hook(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[: -(level - 1)]
            base = ".".join(parts)
            name = base + ("." + name if name else "")
        if name == "rsfile" or name.startswith("rsfile."):
            mod = self._import(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(mod, f):
                        try:
                            self._import(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return mod
            return self.modules[name.partition(".")[0]]
        if name == "_pyio":
            return self.pyio
        if name in self._fakes:
            m = self._fakes[name]
            if m is None:
                raise ModuleNotFoundError("No module named %r" % name)
            if "." in name and not fromlist:
                return self._fakes[name.partition(".")[0]]
            return m
        if name in self.REAL_OK or name.split(".")[0] in ("encodings", "importlib", "concurrent"):
            return _b.__import__(name, globals, locals, fromlist, 0)
        if name.split(".")[0] in _sys.builtin_module_names or name in _sys.stdlib_module_names:
            return _b.__import__(name, globals, locals, fromlist, 0)
        raise ModuleNotFoundError("No module named %r" % name)

    def _import(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = self._import(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        rel = name.replace(".", "/")
        for cand, pkg in ((rel + "/__init__.py", True), (rel + ".py", False)):
            path = _os.path.join(self.src, cand)
            if _os.path.isfile(path):
                break
        else:
            raise ModuleNotFoundError("No module named %r" % name)
        m = self._load_module(name, path, pkg)
        if "." in name:
            setattr(self.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        return m

    def _load_module(self, name, path, pkg=False):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [_os.path.dirname(path)]
        m.__dict__["__builtins__"] = self._builtins
        self.modules[name] = m
        if name.startswith("rsfile"):
            self.files.add(path)
        code = _compile(path)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        return m

    def _guard_del(self):
        """finalizers of a path that is over must not reach the models of the next one"""
        base = self.pyio.IOBase
        orig = base.__del__
        world = self

        def __del__(self):
            if world.alive and world.eng.aborting is None:
                orig(self)

        base.__del__ = __del__

    # ---------------------------------------------------------------- fakes

    def _k(self, name):
        def f(*a, **k):
            return self.kernel.call(name, *a, **k)

        f.__name__ = name
        return f

    def _make_path(self):
        """os.path: the textual functions, and those which ask about files over the model"""
        t = {n: getattr(_os.path, n) for n in dir(_os.path) if not n.startswith("_")}
        for n in "getatime getmtime getctime getsize exists lexists isfile isdir islink ismount samefile sameopenfile samestat realpath abspath expanduser relpath".split():
            t.pop(n, None)

        def stat_of(p):
            return self.kernel.call("stat", p)

        def exists(p):
            try:
                stat_of(p)
            except (OSError, ValueError):
                return False
            return True

        def kind(v):
            def f(p):
                try:
                    return bool(stat_of(p).st_mode & 0o170000 == v)
                except (OSError, ValueError):
                    return False

            return f

        def abspath(p):
            p = _os.fspath(p)
            return _os.path.normpath(_os.path.join(_p.CWD if isinstance(p, bytes) else _p.CWD.decode(), p))

        def samestat(a, b):
            return a.st_ino == b.st_ino and a.st_dev == b.st_dev

        t.update(
            exists=exists, lexists=exists, isfile=kind(stat.S_IFREG), isdir=kind(stat.S_IFDIR), islink=lambda p: False, ismount=lambda p: False,
            getsize=lambda p: stat_of(p).st_size, getmtime=lambda p: stat_of(p).st_mtime, getatime=lambda p: stat_of(p).st_atime,
            getctime=lambda p: stat_of(p).st_ctime, samefile=lambda a, b: samestat(stat_of(a), stat_of(b)), samestat=samestat,
            sameopenfile=lambda a, b: samestat(self.kernel.call("fstat", a), self.kernel.call("fstat", b)),
            abspath=abspath, realpath=lambda p, **k: abspath(p), expanduser=lambda p: p,
        )
        m = FakeModule("os.path", t)
        m.__dict__["_real"] = _os.path
        return m

    def _make_fakes(self):
        w = self
        fk = {}
        sttab = {n: getattr(stat, n) for n in dir(stat) if not n.startswith("__")}
        sttab["S_IFMT"] = lambda m: m & 0o170000
        sttab["S_IMODE"] = lambda m: m & 0o7777
        for n in ("DIR", "CHR", "BLK", "REG", "FIFO", "LNK", "SOCK"):
            sttab["S_IS" + n] = lambda m, v=getattr(stat, "S_IF" + n.replace("FIFO", "IFO")): (m & 0o170000) == v
        fk["stat"] = FakeModule("stat", sttab)
        ostab = dict(OS_CONST)
        for n in OS_PASS:
            if hasattr(_os, n):
                ostab[n] = getattr(_os, n)
        ostab["getpid"] = lambda: w.kernel.pid
        ostab["getppid"] = lambda: w.kernel.pid - 100 if w.kernel.pid > 100 else 50
        if self.platform == "unix":
            for n in OS_UNIX:
                ostab[n] = self._k(n)
            ostab["fork"] = lambda: (_ for _ in ()).throw(EngineError("fork() by the code under test"))
            ostab["name"] = "posix"
            ostab["register_at_fork"] = self._register_at_fork
            ostab["SEEK_SET"], ostab["SEEK_CUR"], ostab["SEEK_END"] = 0, 1, 2
            if self.win_backend == "nofdatasync":  # like MacOS X
                del ostab["fdatasync"]
        fos = FakeModule("os", ostab)
        fos.__dict__["_real"] = _os
        if self.win_backend == "nofdatasync":
            fos.__dict__["_hidden"] = {"fdatasync"}
        if self.platform == "windows":
            from . import nt

            nt.setup_fakes(self, fk, ostab, fos)
        else:
            fc = dict(
                lockf=self._k("lockf"), fcntl=self._k("fcntl"), flock=self._k("flock"),
                LOCK_SH=1, LOCK_EX=2, LOCK_NB=4, LOCK_UN=8, F_GETFD=1, F_SETFD=2, F_GETFL=3, F_SETFL=4, FD_CLOEXEC=1,
                F_DUPFD=0, F_DUPFD_CLOEXEC=1030,
            )
            fk["fcntl"] = FakeModule("fcntl", fc)
            fk["msvcrt"] = None
            fk["win32file"] = fk["pywintypes"] = fk["win32api"] = fk["win32con"] = None
        fk["os"] = fk["posix"] = fos
        fk["os.path"] = ostab["path"] = self._make_path()
        if self.platform == "unix":
            ostab["getcwd"] = lambda: _p.CWD.decode()
            ostab["getcwdb"] = lambda: _p.CWD

        tt = dict(
            time=lambda: w.sched.time(), sleep=lambda d: w.sched.sleep(d), monotonic=lambda: w.sched.time(),
            perf_counter=lambda: w.sched.time(),
        )
        fk["time"] = FakeModule("time", tt)
        fk["time"].__dict__["_real"] = _time

        def vlock():
            return VLock(w)

        th = dict(
            Lock=lambda: VLock(w), RLock=lambda: VRLock(w), Condition=lambda lock=None: VCondition(w, lock),
            Event=lambda: VEvent(w), Semaphore=lambda v=1: VSemaphore(w, v), BoundedSemaphore=lambda v=1: VSemaphore(w, v),
            get_ident=lambda: w.sched.cur.ident, current_thread=lambda: w.sched.cur, get_native_id=lambda: w.sched.cur.ident,
            local=_threading.local, main_thread=lambda: w.sched.main,
            active_count=lambda: 1 + sum(1 for t in w.sched.threads if not t.done),
        )
        fk["threading"] = FakeModule("threading", th)
        fk["threading"].__dict__["_real"] = _threading
        fk["_thread"] = FakeModule("_thread", dict(allocate_lock=vlock, get_ident=th["get_ident"], RLock=th["RLock"], LockType=VLock))
        mp = dict(
            RLock=lambda: VRLock(w, "mp"), Lock=lambda: VLock(w, "mp"),
            current_process=lambda: types.SimpleNamespace(name="p", pid=w.kernel.pid),
        )
        fk["multiprocessing"] = FakeModule("multiprocessing", mp)
        st = dict(platform="win32" if self.platform == "windows" else "linux")
        fsys = FakeModule("sys", st)
        for n in dir(_sys):
            if n not in st and not n.startswith("__"):
                fsys.__dict__.setdefault(n, getattr(_sys, n))
        fsys.__dict__["platform"] = st["platform"]
        fk["sys"] = fsys
        fk["warnings"] = FakeModule("warnings", dict(warn=self._warn, catch_warnings=None, simplefilter=lambda *a, **k: None))
        fk["_io"] = FakeModule("_io", dict(FileIO=_io.FileIO))
        fk["operator"] = FakeModule("operator", dict(index=lambda x: x if type(x) is SymInt else operator.index(x)))
        fk["operator"].__dict__.update({n: v for n, v in operator.__dict__.items() if not n.startswith("__") and n != "index"})
        fk["math"] = FakeModule("math", dict(
            isinf=lambda x: False if is_sym(x) else math.isinf(x), isnan=lambda x: False if is_sym(x) else math.isnan(x),
            isfinite=lambda x: True if is_sym(x) else math.isfinite(x), trunc=int_shim, fabs=lambda x: abs(x) if is_sym(x) else math.fabs(x),
            floor=lambda x: _floor(x) if is_sym(x) else math.floor(x), ceil=lambda x: -_floor(-x) if is_sym(x) else math.ceil(x)))
        fk["math"].__dict__.update({n: v for n, v in math.__dict__.items() if not n.startswith("__") and n not in fk["math"].__dict__["_table"]})
        fk["struct"] = FakeModule("struct", dict(
            {n: getattr(_struct_shim, n) for n in ("error", "calcsize", "pack", "unpack", "unpack_from", "Struct")}, __name__="struct"))
        fio = FakeModule("io", {n: getattr(_io, n) for n in dir(_io)})
        fio.__dict__["__all__"] = list(_io.__all__)
        fk["io"] = fio
        return fk

    def _warn(self, *a, **k):
        self.warnings.append(a)

    _fork_hooks = ()

    def _register_at_fork(self, **k):
        self._fork_hooks = list(self._fork_hooks) + [k]

    # ---------------------------------------------------------------- state reset

    def _snapshot(self):
        self._snap = self.memory()

    def memory(self, *objects):
        """a copy of the memory of the process, as far as the package is concerned (plus these objects)"""
        seen = {}

        def snap(v):
            t = type(v)
            if issubclass(type(v), _CONTAINERS):
                if id(v) in seen:
                    return
                if issubclass(type(v), _MAPS):
                    seen[id(v)] = (v, dict(v.items()))
                    for x in list(v.values()):
                        snap(x)
                elif issubclass(type(v), (list, collections.deque)):
                    seen[id(v)] = (v, list(v))
                    for x in list(v):
                        snap(x)
                elif isinstance(v, _threading.local):
                    seen[id(v)] = (v, dict(v.__dict__))
                else:
                    seen[id(v)] = (v, set(v))
                return
            if isinstance(v, functools._lru_cache_wrapper):
                seen[id(v)] = (v, None)
                return
            mod = getattr(t, "__module__", None)
            if isinstance(v, type):
                if getattr(v, "__module__", "").startswith("rsfile") and id(v) not in seen:
                    d = {k: x for k, x in v.__dict__.items() if not k.startswith("__") and not k.startswith("_abc")}
                    seen[id(v)] = (v, d)
                    for x in d.values():
                        snap(x)
                return
            if isinstance(mod, str) and mod.startswith("rsfile") and hasattr(v, "__dict__") and id(v) not in seen:
                seen[id(v)] = (v, dict(v.__dict__))
                for x in list(v.__dict__.values()):
                    snap(x)

        for name, m in self.modules.items():
            if name.startswith("rsfile"):
                seen[id(m.__dict__)] = (m.__dict__, dict(m.__dict__))
                for k, v in list(m.__dict__.items()):
                    if not k.startswith("__"):
                        snap(v)
        for o in objects:
            seen[id(o)] = (o, dict(o.__dict__))
            for x in list(o.__dict__.values()):
                snap(x)
        return list(seen.values())

    def _restore(self, memory=None):
        for v, s in self._snap if memory is None else memory:
            if s is None:
                v.cache_clear()
            elif issubclass(type(v), _MAPS):
                if len(v) != len(s) or any(k not in v or v[k] is not s[k] for k in s):
                    v.clear()
                    v.update(s)
            elif issubclass(type(v), list):
                v[:] = s
            elif isinstance(v, collections.deque):
                v.clear()
                v.extend(s)
            elif isinstance(v, _threading.local):
                v.__dict__.clear()
                v.__dict__.update(s)
            elif issubclass(type(v), _CONTAINERS):
                v.clear()
                v.update(s)
            elif isinstance(v, type):
                d = v.__dict__
                for k, x in s.items():
                    if d.get(k) is not x:
                        setattr(v, k, x)
                for k in [k for k in d if k not in s and not k.startswith("__") and not k.startswith("_abc")]:
                    delattr(v, k)
            else:
                d = v.__dict__
                if d.keys() != s.keys() or any(d[k] is not s[k] for k in s):
                    d.clear()
                    d.update(s)

    def begin(self, eng):
        self.eng = eng
        self.sched = Sched(eng)
        self.kernel = self._new_kernel(eng)
        self._restore()
        self.all_locks[:] = self.import_locks
        for l in self.import_locks:
            l._reset()
        self.warnings = []
        # the registry remembers the pid at import time
        self.kernel.pid = 100
        self.alive = True

    def _new_kernel(self, eng):
        if self.platform == "windows":
            from . import nt

            return nt.Kernel(eng, self.sched, self)
        return _p.Kernel(eng, self.sched)

    def end(self):
        self.alive = False
        gc.collect()

    def collect(self):
        """run pending finalizers (as CPython would)"""
        gc.collect()


_MAPS = (dict, weakref.WeakKeyDictionary, weakref.WeakValueDictionary)
_CONTAINERS = _MAPS + (list, set, collections.deque, weakref.WeakSet, _threading.local)


class _NullEngine(object):
    aborting = None
    concrete = None

    class stats(object):
        transitions = 0

    def _check_abort(self):
        return None


_codes = {}


def _compile(path):
    with open(path, "rb") as f:
        src = f.read()
    key = (path, src)
    if key not in _codes:
        tree = _JoinRewriter().visit(ast.parse(src, path))
        _codes[key] = compile(tree, path, "exec", dont_inherit=True)
    return _codes[key]

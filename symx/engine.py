"""
symx.engine - dynamic symbolic execution of real Python code on top of z3.

The code under test is executed natively by CPython; symbolic inputs are proxy
objects (`SymInt`, `SymStr`, `SymBytes`...).  Whenever control flow depends on a
proxy, `Engine.branch` asks z3 which outcomes are feasible under the current path
condition and explores all of them (depth-first, by re-execution of the harness).
A property is an expression handed to `Engine.check`: z3 either shows that its
negation is unsatisfiable under the path condition (it holds for *all* values of
the symbolic variables on that path), or yields a model: the counterexample.

The same harness can be run with `concrete={name: value}`: every symbolic variable
is then a plain Python value.  That is how counterexamples are replayed.
"""
import gc
import time as _time
from array import array

import z3
import z3.z3 as _z3impl

_z3impl.Z3_DEBUG = False  # argument checks of the z3 bindings (not of the solver)

INT_T = int


class Stop(BaseException):
    """Control-flow exceptions: never caught by `except Exception`."""


class PathEnd(Stop):
    """This path is over (infeasible assumption, or out of the stated bounds)."""

    def __init__(self, reason):
        Stop.__init__(self, reason)
        self.reason = reason


class PropertyViolated(Stop):
    def __init__(self, message, model, details=None):
        Stop.__init__(self, message)
        self.message = message
        self.model = model
        self.details = details


class EngineError(Stop):
    """The check could not decide (solver unknown, unmodelled call, nondeterminism...)."""


# ------------------------------------------------------------------ expressions


def is_sym(x):
    return isinstance(x, SymNum)


def ex(x):
    """python int / float / SymNum / z3 -> z3 or python value usable in z3 expressions"""
    if type(x) is SymInt or type(x) is SymReal:
        return x.z
    return x


def _isz(x):
    return isinstance(x, z3.ExprRef)


def is_concrete(x):
    x = ex(x)
    return not _isz(x)


def And(*a):
    a = [ex(x) for x in a]
    r = []
    for x in a:
        if _isz(x):
            r.append(x)
        elif not x:
            return False
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*a):
    a = [ex(x) for x in a]
    r = []
    for x in a:
        if _isz(x):
            r.append(x)
        elif x:
            return True
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(a):
    a = ex(a)
    return z3.Not(a) if _isz(a) else (not a)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    c = ex(c)
    if not _isz(c):
        return a if c else b
    a, b = ex(a), ex(b)
    if _isz(a) and _isz(b) and a.eq(b):
        return a
    if not _isz(a) and not _isz(b) and a == b:
        return a
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    if not _isz(a) and not _isz(b):
        if isinstance(a, int) and isinstance(b, int):
            a = z3.IntVal(a)
        else:
            a = z3.RealVal(a)
    return z3.If(c, a, b)


def _cmp(op):
    def f(a, b):
        a, b = ex(a), ex(b)
        return op(a, b)

    return f


_eq_cache = {}


def eq(a, b):
    a, b = ex(a), ex(b)
    if type(b) is INT_T and _isz(a):
        k = (a.get_id(), b)
        r = _eq_cache.get(k)
        if r is None:
            if len(_eq_cache) > 100000:
                _eq_cache.clear()
            r = _eq_cache[k] = (a == b, a)  # keeps `a` alive: ids are not reused
        return r[0]
    return a == b


_simp_cache = {}


def _simplify(c):
    k = c.get_id()
    r = _simp_cache.get(k)
    if r is None:
        if len(_simp_cache) > 50000:
            _simp_cache.clear()
        r = _simp_cache[k] = (z3.simplify(c), c)
    return r[0]


_var_cache = {}


def _var(mk, name):
    k = (mk, name)
    r = _var_cache.get(k)
    if r is None:
        r = _var_cache[k] = mk(name)
    return r


ne = _cmp(lambda a, b: a != b)
lt = _cmp(lambda a, b: a < b)
le = _cmp(lambda a, b: a <= b)
gt = _cmp(lambda a, b: a > b)
ge = _cmp(lambda a, b: a >= b)
add = _cmp(lambda a, b: a + b)
sub = _cmp(lambda a, b: a - b)


def Min(a, b):
    return If(le(a, b), a, b)


def Max(a, b):
    return If(ge(a, b), a, b)


def Iff(a, b):
    a, b = ex(a), ex(b)
    if not _isz(a) and not _isz(b):
        return bool(a) == bool(b)
    if not _isz(a):
        a = z3.BoolVal(bool(a))
    if not _isz(b):
        b = z3.BoolVal(bool(b))
    return a == b


def wrap(z):
    """z3 arithmetic expression -> SymInt/SymReal (python values unchanged)"""
    if not _isz(z):
        return z
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z) if z.is_int() else SymReal(z)


def _cur():
    e = Engine.current
    if e is None:
        raise EngineError("symbolic value used outside of an exploration")
    return e


def _real(z):
    return z3.ToReal(z) if _isz(z) and z.is_int() else z


class SymNum(object):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def _b(self, cond):
        if _isz(cond):
            return _cur().branch(cond)
        return bool(cond)

    @staticmethod
    def _ok(o):
        return isinstance(o, (int, float, SymNum)) or _isz(o)

    def __lt__(self, o):
        if type(o) is float:
            return 0.0 < o if o - o != 0.0 else self._b(_real(self.z) < o)
        return self._b(self.z < ex(o)) if self._ok(o) else NotImplemented

    def __le__(self, o):
        if type(o) is float:
            return 0.0 <= o if o - o != 0.0 else self._b(_real(self.z) <= o)
        return self._b(self.z <= ex(o)) if self._ok(o) else NotImplemented

    def __gt__(self, o):
        if type(o) is float:
            return 0.0 > o if o - o != 0.0 else self._b(_real(self.z) > o)
        return self._b(self.z > ex(o)) if self._ok(o) else NotImplemented

    def __ge__(self, o):
        if type(o) is float:
            return 0.0 >= o if o - o != 0.0 else self._b(_real(self.z) >= o)
        return self._b(self.z >= ex(o)) if self._ok(o) else NotImplemented

    def __eq__(self, o):
        if isinstance(o, bool):
            o = int(o)
        if type(o) is float:
            return 0.0 == o if o - o != 0.0 else self._b(_real(self.z) == o)
        return self._b(self.z == ex(o)) if self._ok(o) else NotImplemented

    def __ne__(self, o):
        if isinstance(o, bool):
            o = int(o)
        if type(o) is float:
            return 0.0 != o if o - o != 0.0 else self._b(_real(self.z) != o)
        return self._b(self.z != ex(o)) if self._ok(o) else NotImplemented

    def __bool__(self):
        return self._b(self.z != 0)

    def __hash__(self):
        if STORING:
            return 0x5157B01  # a key which was found to differ from all the others of the collection
        return hash(_cur().concretize(self))

    def _bin(self, o, f):
        if isinstance(o, bool):
            o = int(o)
        if not self._ok(o):
            return NotImplemented
        if type(o) is float:
            return f(0.0, o) if o - o != 0.0 else wrap(f(_real(self.z), o))
        return wrap(f(self.z, ex(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __neg__(self):
        return wrap(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EngineError("symbolic value pickled")


class SymReal(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) in (int, float):
            return wrap(self.z / z3.RealVal(o))
        return NotImplemented

    def __floordiv__(self, o):
        if type(o) in (int, float) and o > 0:
            return wrap(z3.ToReal(z3.ToInt(self.z / z3.RealVal(o))))
        return NotImplemented

    def __float__(self):
        raise EngineError("float() of a symbolic real")

    def __round__(self, n=None):
        if n is not None:
            raise EngineError("round() of a symbolic real to a number of digits")
        h = self.z + z3.RealVal("1/2")
        t = z3.ToInt(h)
        return wrap(z3.If(z3.And(z3.ToReal(t) == h, t % 2 != 0), t - 1, t))

    def is_integer(self):
        return _cur().truth(z3.ToReal(z3.ToInt(self.z)) == self.z)

    def __int__(self):
        t = z3.ToInt(self.z)
        return int(wrap(If(self.z >= 0, t, -z3.ToInt(-self.z))))  # truncation, one fork per value


def _unmodelled(obj, kind, name):
    """__getattr__ of the proxies: a method of the real type which has no model must not look like an error of the code"""
    if hasattr(kind, name) and not name.startswith("__"):
        e = EngineError("unmodelled: %s.%s on a symbolic value" % (kind.__name__, name))
        if Engine.current is not None:
            Engine.current._fail(e)
        raise e
    raise AttributeError("%r object has no attribute %r" % (kind.__name__, name))


def _pow2(n):
    return n > 0 and (n & (n - 1)) == 0


STORING = []  # not empty while a symbolic key is stored in a mapping (world.store_shim)


class SymInt(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __mul__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return SymBytes.repeat(o, self)
        if isinstance(o, (int, float)) or is_sym(o):
            return self._bin(o, lambda a, b: a * b)
        return NotImplemented

    __rmul__ = __mul__

    def _posdiv(self, o):
        o = ex(o)
        if _isz(o):
            # symbolic divisor: only handled when it is certainly positive
            if not _cur().must(o > 0):
                raise EngineError("division by a symbolic value of unknown sign")
        elif o <= 0:
            raise EngineError("division by non-positive constant")
        return o

    def __floordiv__(self, o):
        return wrap(self.z / self._posdiv(o))

    def __mod__(self, o):
        return wrap(self.z % self._posdiv(o))

    def __rfloordiv__(self, o):
        return wrap(z3.IntVal(o) / self._posdiv(self))

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return wrap(z3.IntVal(o) % self._posdiv(self))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        return wrap(z3.ToReal(self.z) / z3.RealVal(o))

    def __and__(self, o):
        if type(o) is not INT_T and not isinstance(o, bool):
            return NotImplemented
        o = INT_T(o)
        if o < 0:
            # x & ~m  ==  x - (x & m)
            return self - (self & ~o)
        if o == 0:
            return 0
        if o >= 1 << 30:
            # within a word: a comparison is easier to decide than a division
            half = 1 << (o.bit_length() - 1)
            if o == half and _cur().must(z3.And(self.z >= 0, self.z < 2 * half)):
                return wrap(z3.If(self.z >= half, z3.IntVal(half), z3.IntVal(0)))
            if o == 2 * half - 1 and _cur().must(z3.And(self.z >= 0, self.z < 4 * half)):
                return wrap(z3.If(self.z >= 2 * half, self.z - 2 * half, self.z))
        if _pow2(o + 1):
            return wrap(self.z % (o + 1))
        res = 0
        bit = 0
        while (1 << bit) <= o:
            if o & (1 << bit):
                # take a run of consecutive bits
                hi = bit
                while o & (1 << hi):
                    hi += 1
                res = res + ((self.z / (1 << bit)) % (1 << (hi - bit))) * (1 << bit)
                bit = hi
            else:
                bit += 1
        return wrap(res)

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymInt:
            # numbers without common bits, one of which has its low bits cleared
            for k in (32, 16, 8):
                for a, b in ((self, o), (o, self)):
                    m = 1 << k
                    if _cur().must(z3.And(a.z % m == 0, b.z >= 0, b.z < m)):
                        return wrap(a.z + b.z)
            raise EngineError("symbolic | symbolic")
        return self + (INT_T(o) - (self & INT_T(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return (self | o) - (self & o)

    __rxor__ = __xor__

    def __invert__(self):
        return wrap(-self.z - 1)

    def __rshift__(self, o):
        return wrap(self.z / (1 << INT_T(o)))

    def __lshift__(self, o):
        return wrap(self.z * (1 << INT_T(o)))

    def __index__(self):
        return _cur().concretize(self)

    def __round__(self, n=None):
        if n is not None:
            raise EngineError("round() of a symbolic integer to a number of digits")
        return self

    __trunc__ = __floor__ = __ceil__ = __round__

    def __pow__(self, o, mod=None):
        if type(o) is not INT_T or not 0 <= o <= 4 or mod is not None:
            raise EngineError("power of a symbolic integer")
        r = 1
        for _i in range(o):
            r = self * r
        return r

    def __rpow__(self, o):
        return o ** _cur().concretize(self)

    __int__ = __index__

    def __float__(self):
        return float(_cur().concretize(self))

    def bit_length(self):
        return _cur().concretize(self).bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return pack_int(self, INT_T(length), byteorder, signed, OverflowError)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


def sym_len(x):
    t = type(x)
    if t is SymBytes or t is SymStr or t is SymSet or t is SymBuf or t is SymView or t is SymArray:
        return x._len()
    return len(x)


def _digits(v, at, k):
    """the number made of k bytes of an integer, from the given one on"""
    if not _isz(v):
        return (v >> (8 * at)) & ((1 << (8 * k)) - 1)
    return ((v / (1 << (8 * at))) if at else v) % (1 << (8 * k))


def pack_int(v, n, order, signed, error):
    """int.to_bytes()"""
    if v < (-(1 << (8 * n - 1)) if signed else 0) or v >= 1 << (8 * n - bool(signed)):
        raise error("int too big to convert" if v > 0 else "can't convert negative int to unsigned")
    v = ex(v)
    return SymBytes.packed([(If(lt(v, 0), add(v, 1 << (8 * n)), v) if signed else v, n, order)])


def unpack_int(data, order, signed):
    n = 8 * INT_T(data.n)
    v = ex(data.number(order))
    return wrap(If(ge(v, 1 << (n - 1)), sub(v, 1 << n), v)) if signed else wrap(v)


class SymBytes(object):
    """Immutable byte string of symbolic length; `fn(i)` is the (symbolic) byte at index i."""

    __slots__ = ("n", "fn", "words")

    def __init__(self, n, fn):
        self.n = n
        self.fn = fn
        self.words = None  # for the bytes of integers: (integer, number of bytes, byte order) of the parts

    @staticmethod
    def packed(words):
        def fn(i):
            i = ex(i)
            if _isz(i):
                raise EngineError("symbolic index in the bytes of an integer")
            for v, k, order in words:
                if i < k:
                    return _digits(v, i if order == "little" else k - 1 - i, 1)
                i -= k
            return 0

        r = SymBytes(sum(k for _v, k, _o in words), fn)
        r.words = words
        return r

    def number(self, order):
        """int.from_bytes()"""
        n = INT_T(self.n)
        words = self.words
        if words is None or any(o != order and k > 1 for _v, k, o in words):
            words = [(self.fn(i), 1, order) for i in range(n)]
        r = shift = 0
        for v, k, _o in words if order == "little" else reversed(words):
            r = add(r, v * (1 << shift) if not _isz(v) else v * z3.IntVal(1 << shift) if shift else v)
            shift += 8 * k
        return wrap(r)

    def __getattr__(self, name):
        return _unmodelled(self, bytes, name)

    @property
    def __class__(self):
        return bytes

    @staticmethod
    def repeat(pattern, n):
        pattern = bytes(pattern)
        if not pattern:
            return b""
        if len(set(pattern)) != 1:
            raise EngineError("repeat of multi-byte pattern a symbolic number of times")
        v = pattern[0]
        total = n * len(pattern)
        total = 0 if total < 0 else total
        return SymBytes(total, lambda i: v)

    @staticmethod
    def of(data):
        if type(data) is SymBytes:
            return data
        if type(data) in (SymBuf, SymView, SymArray):
            data = data.tobytes()
            if type(data) is SymBytes:
                return data
        data = bytes(data)

        def fn(i):
            i = ex(i)
            if not _isz(i):
                return data[i] if 0 <= i < len(data) else 0
            if not data:
                return 0
            # runs of equal bytes; the bytes outside of the range don't matter
            if not runs:
                k = 0
                while k < len(data):
                    v = data[k : k + 1]
                    e = len(data) if data.count(v, k) == len(data) - k else k + len(data[k:]) - len(data[k:].lstrip(v))
                    runs.append((e, v[0]))
                    k = e
            r = runs[-1][1]
            for e, v in reversed(runs[:-1]):
                r = If(i < e, v, r)
            return r

        runs = []
        return SymBytes(len(data), fn)

    def _len(self):
        return self.n

    def __len__(self):
        return INT_T(self.n)

    def __bool__(self):
        return bool(self.n != 0)

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        a, b = self, SymBytes.of(o)
        if a.words is not None and b.words is not None:
            return SymBytes.packed(a.words + b.words)
        na = a.n
        return SymBytes(a.n + b.n, lambda i: If(lt(i, na), a.fn(i), b.fn(sub(i, na))))

    def __radd__(self, o):
        return SymBytes.of(o) + self

    def __getitem__(self, s):
        if isinstance(s, slice):
            if s.step not in (None, 1):
                raise EngineError("stepped slice of symbolic bytes")
            n = self.n

            def clip(v, default):
                if v is None:
                    return default
                if v < 0:
                    v = v + n
                    if v < 0:
                        return 0
                return n if v > n else v

            a = clip(s.start, 0)
            b = clip(s.stop, n)
            if b <= a:
                return b""
            if self.words is not None and not is_sym(a) and not is_sym(b):
                words, at = [], 0
                for v, k, order in self.words:
                    lo, hi = max(a - at, 0), min(b - at, k)
                    if lo < hi:
                        words.append((_digits(v, lo if order == "little" else k - hi, hi - lo) if hi - lo < k else v, hi - lo, order))
                    at += k
                return SymBytes.packed(words)
            fn = self.fn
            return SymBytes(b - a, lambda i: fn(add(a, i)))
        if s < 0:
            s = s + self.n
        if s < 0 or s >= self.n:
            raise IndexError("index out of range")
        return wrap(self.fn(ex(s)))

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            o = SymBytes.of(o)
            if self.n != o.n:
                return False
            n = INT_T(self.n)
            return all(_cur().truth(eq(self.fn(i), o.fn(i))) for i in range(n))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def tobytes(self):
        return self

    def __hash__(self):
        raise EngineError("hash of symbolic bytes")

    def __repr__(self):
        return "<symbytes>"

    def __iter__(self):
        for i in range(INT_T(self.n)):
            yield wrap(self.fn(i))


def join_bytes(sep, parts):
    """bytes.join() for possibly symbolic parts"""
    parts = list(parts)
    if type(sep) is bytes and any(type(x) is SymBytes for x in parts):
        r = None
        for x in parts:
            if type(x) is SymView:
                x = x.tobytes()
            if r is None:
                r = x
            else:
                if sep:
                    r = r + sep
                if type(x) is not SymBytes and not len(x):
                    continue
                if type(r) is not SymBytes and not len(r):
                    r = x
                    continue
                r = r + x
        return r
    return sep.join(parts)


def join_str(sep, parts):
    """str.join() for possibly symbolic parts"""
    parts = list(parts)
    if not all(isinstance(x, str) for x in parts) or not any(type(x) is SymStr for x in parts + [sep]):
        return sep.join(parts)
    out = []
    for i, x in enumerate(parts):
        out += (SymStr.codes(sep) if i else []) + list(SymStr.codes(x))
    return SymStr.make(out)


class SymBuf(object):
    """bytearray of symbolic content and length (keeps a real bytearray as long as everything is concrete)"""

    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = bytearray() if d is None else d

    def __getattr__(self, name):
        if type(self.d) is bytearray and not name.startswith("__"):
            return getattr(self.d, name)
        return _unmodelled(self, bytearray, name)

    @property
    def __class__(self):
        return bytearray

    @staticmethod
    def data(x):
        """bytes or SymBytes out of anything that supports the buffer protocol"""
        t = type(x)
        if t is SymBytes or t is bytes:
            return x
        if t is SymBuf or t is SymView or t is SymArray:
            return x.tobytes()
        return bytes(x)

    def tobytes(self):
        return self.d if type(self.d) is SymBytes else bytes(self.d)

    def _len(self):
        return self.d.n if type(self.d) is SymBytes else len(self.d)

    def __len__(self):
        return INT_T(self._len())

    def __bool__(self):
        return bool(self._len() != 0)

    def extend(self, b):
        b = SymBuf.data(b)
        if type(self.d) is SymBytes:
            self.d = self.d + b
        elif type(b) is SymBytes:
            self.d = SymBytes.of(bytes(self.d)) + b if len(self.d) else b
        else:
            self.d += b

    def __iadd__(self, b):
        self.extend(b)
        return self

    def __getitem__(self, s):
        if type(self.d) is not SymBytes and _slice_is_sym(s):
            r = SymBytes.of(bytes(self.d))[s]
        else:
            r = self.d[s]
        return SymBuf(bytearray(r) if type(r) is bytes else r) if isinstance(s, slice) else r

    def __delitem__(self, s):
        if type(self.d) is not SymBytes and not _slice_is_sym(s):
            del self.d[s]
            return
        d = self.d if type(self.d) is SymBytes else SymBytes.of(bytes(self.d))
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise EngineError("unmodelled deletion in a symbolic bytearray")
        if s.start in (None, 0) and s.stop is not None:
            r = d[s.stop:]
        elif s.stop is None:
            r = d[: s.start]
        else:
            r = d[: s.start] + d[s.stop:]
        self.d = bytearray(r) if type(r) is bytes else r

    def __setitem__(self, s, v):
        v = SymBuf.data(v)
        if type(self.d) is not SymBytes and type(v) is not SymBytes and not _slice_is_sym(s):
            self.d[s] = v
            return
        d = self.d if type(self.d) is SymBytes else SymBytes.of(bytes(self.d))
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise EngineError("unmodelled assignment in a symbolic bytearray")
        a = 0 if s.start is None else s.start
        b = d.n if s.stop is None else s.stop
        r = d[:a] + v + d[b:] if not (type(a) is int and a == 0) else v + d[b:]
        self.d = bytearray(r) if type(r) is bytes else r

    def clear(self):
        self.d = bytearray()

    def __eq__(self, o):
        return SymBytes.of(self.tobytes()) == SymBuf.data(o)

    def __iter__(self):
        return iter(self.d)

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def __repr__(self):
        return "<symbytearray>"


class SymArray(SymBuf):
    """array.array whose bytes are a SymBuf's"""

    __slots__ = ("typecode", "itemsize")

    def __init__(self, typecode, itemsize, d):
        SymBuf.__init__(self, d)
        self.typecode = typecode
        self.itemsize = itemsize

    def __getattr__(self, name):
        return _unmodelled(self, array, name)

    @property
    def __class__(self):
        return array

    def _len(self):
        return SymBuf._len(self) // self.itemsize

    def __getitem__(self, s):
        raise EngineError("unmodelled access to an array")

    __setitem__ = __delitem__ = extend = __iadd__ = clear = __iter__ = __getitem__

    def __hash__(self):
        raise TypeError("unhashable type: 'array.array'")

    def __repr__(self):
        return "<symarray>"


class SymView(object):
    """memoryview of a SymBytes or SymBuf; `a` and `b` are in bytes"""

    __slots__ = ("obj", "a", "b", "itemsize", "format")

    def __init__(self, obj, a=0, b=None, itemsize=1, format="B"):
        self.obj = obj
        self.a = a
        self.b = sym_len(obj) if b is None else b
        self.itemsize = itemsize
        self.format = format

    def __getattr__(self, name):
        return _unmodelled(self, memoryview, name)

    @property
    def __class__(self):
        return memoryview

    @property
    def nbytes(self):
        return self.b - self.a

    @property
    def readonly(self):
        return not isinstance(self.obj, (bytearray, array))

    ndim = 1
    c_contiguous = contiguous = True

    def cast(self, f):
        if f not in ("B", "b", "c"):
            raise EngineError("unmodelled cast of a memoryview")
        if self.format not in ("B", "b", "c") and f != "B":
            raise EngineError("unmodelled cast of a memoryview")
        return SymView(self.obj, self.a, self.b, 1, f)

    def _len(self):
        n = self.b - self.a
        return n if self.itemsize == 1 else n // self.itemsize

    def __len__(self):
        return INT_T(self._len())

    def __bool__(self):
        return bool(self.b - self.a != 0)

    def _clip(self, s):
        n = self._len()

        def c(v, default):
            if v is None:
                return default
            if v < 0:
                v = v + n
                if v < 0:
                    return 0
            return n if v > n else v

        x, y = c(s.start, 0), c(s.stop, n)
        if y < x:
            y = x
        return self.a + x * self.itemsize, self.a + y * self.itemsize

    def __getitem__(self, s):
        if not isinstance(s, slice):
            if self.format != "B":
                raise EngineError("unmodelled access to an item of a memoryview")
            return self.tobytes()[s]
        x, y = self._clip(s)
        return SymView(self.obj, x, y, self.itemsize, self.format)

    def __setitem__(self, s, v):
        if self.readonly:
            raise TypeError("cannot modify read-only memory")
        if not isinstance(s, slice):
            raise EngineError("unmodelled assignment to an item of a memoryview")
        x, y = self._clip(s)
        fmt = v.format if type(v) in (SymView, memoryview) else v.typecode if isinstance(v, array) else "B"
        v = SymBuf.data(v)
        if sym_len(v) != y - x or fmt != self.format:
            raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
        SymBuf.__setitem__(self.obj, slice(x, y), v)

    def tobytes(self):
        d = self.obj.tobytes()
        if type(d) is not SymBytes and (is_sym(self.a) or is_sym(self.b)):
            d = SymBytes.of(d)
        return d[self.a:self.b]

    def __iter__(self):
        if self.format != "B":
            raise EngineError("unmodelled iteration over a memoryview")
        return iter(self.tobytes())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def release(self):
        return None

    def __repr__(self):
        return "<symview>"


def _slice_is_sym(s):
    return is_sym(s.start) or is_sym(s.stop) if isinstance(s, slice) else is_sym(s)


class SymStr(object):
    """String of concrete length whose characters are symbolic code points (< 128)."""

    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = list(cs)  # ints or SymInt code points

    def __getattr__(self, name):
        return _unmodelled(self, str, name)

    @property
    def __class__(self):
        return str

    @staticmethod
    def make(cs):
        cs = list(cs)
        if all(type(c) is int for c in cs):
            return "".join(map(chr, cs))
        return SymStr(cs)

    @staticmethod
    def codes(s):
        if type(s) is SymStr:
            return s.cs
        return [ord(c) for c in s]

    def _len(self):
        return len(self.cs)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield SymStr.make([c])

    def __getitem__(self, i):
        r = self.cs[i]
        return SymStr.make(r if isinstance(i, slice) else [r])

    def __add__(self, o):
        return SymStr.make(self.cs + SymStr.codes(o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return SymStr.make(SymStr.codes(o) + self.cs) if isinstance(o, str) else NotImplemented

    def _eqexpr(self, o):
        oc = SymStr.codes(o)
        if len(oc) != len(self.cs):
            return False
        return And(*[eq(a, b) for a, b in zip(self.cs, oc)])

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return _cur().truth(self._eqexpr(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self):
        self.cs = [INT_T(c) for c in self.cs]
        return "".join(map(chr, self.cs))

    def __contains__(self, sub_):
        oc = SymStr.codes(sub_)
        n = len(oc)
        return _cur().truth(
            Or(*[And(*[eq(a, b) for a, b in zip(self.cs[i : i + n], oc)]) for i in range(len(self.cs) - n + 1)])
        )

    @staticmethod
    def _up(c):
        return wrap(If(And(ge(c, 97), le(c, 122)), sub(c, 32), c))

    @staticmethod
    def _lo(c):
        return wrap(If(And(ge(c, 65), le(c, 90)), add(c, 32), c))

    def upper(self):
        return SymStr.make([self._up(c) for c in self.cs])

    def lower(self):
        return SymStr.make([self._lo(c) for c in self.cs])

    casefold = lower

    def isupper(self):
        has = Or(*[And(ge(c, 65), le(c, 90)) for c in self.cs])
        bad = Or(*[And(ge(c, 97), le(c, 122)) for c in self.cs])
        return _cur().truth(And(has, Not(bad)))

    def islower(self):
        has = Or(*[And(ge(c, 97), le(c, 122)) for c in self.cs])
        bad = Or(*[And(ge(c, 65), le(c, 90)) for c in self.cs])
        return _cur().truth(And(has, Not(bad)))

    def replace(self, a, b, count=-1):
        ac = SymStr.codes(a)
        if len(ac) != 1 or count != -1:
            raise EngineError("replace() on a symbolic string")
        out = []
        for c in self.cs:
            if _cur().truth(eq(c, ac[0])):
                out.extend(SymStr.codes(b))
            else:
                out.append(c)
        return SymStr.make(out)

    def count(self, a):
        ac = SymStr.codes(a)
        if len(ac) != 1:
            raise EngineError("count() on a symbolic string")
        r = 0
        for c in self.cs:
            r = add(r, If(eq(c, ac[0]), 1, 0))
        return wrap(r)

    def find(self, a):
        ac = SymStr.codes(a)
        for i in range(len(self.cs) - len(ac) + 1):
            if _cur().truth(And(*[eq(x, y) for x, y in zip(self.cs[i : i + len(ac)], ac)])):
                return i
        return -1

    def index(self, a):
        r = self.find(a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def startswith(self, a):
        if isinstance(a, tuple):
            return any(self.startswith(x) for x in a)
        oc = SymStr.codes(a)
        return len(oc) <= len(self.cs) and SymStr(self.cs[: len(oc)]) == SymStr.make(oc)

    def endswith(self, a):
        oc = SymStr.codes(a)
        return len(oc) <= len(self.cs) and (not oc or SymStr(self.cs[-len(oc) :]) == SymStr.make(oc))

    def translate(self, table):
        if type(table) is not dict:
            raise EngineError("translate() on a symbolic string")
        out = []
        for c in self.cs:
            for k, v in table.items():
                if _cur().truth(eq(c, k)):
                    out.extend([] if v is None else [v] if isinstance(v, int) else SymStr.codes(v))
                    break
            else:
                out.append(c)
        return SymStr.make(out)

    def rfind(self, a):
        ac = SymStr.codes(a)
        for i in reversed(range(len(self.cs) - len(ac) + 1)):
            if _cur().truth(And(*[eq(x, y) for x, y in zip(self.cs[i : i + len(ac)], ac)])):
                return i
        return -1

    def partition(self, a):
        i = self.find(a)
        return (SymStr.make(self.cs), "", "") if i < 0 else (self[:i], a, self[i + len(a) :])

    def rpartition(self, a):
        i = self.rfind(a)
        return ("", "", SymStr.make(self.cs)) if i < 0 else (self[:i], a, self[i + len(a) :])

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != -1:
            raise EngineError("split() on a symbolic string")
        out, rest = [], self
        while True:
            i = rest.find(sep)
            if i < 0:
                return out + [rest]
            out.append(rest[:i])
            rest = rest[i + len(sep) :]

    def removeprefix(self, a):
        return self[len(a) :] if self.startswith(a) else self

    def removesuffix(self, a):
        return self[: -len(a)] if a and self.endswith(a) else self

    def _strip(self, chars, left, right):
        if chars is None:
            raise EngineError("strip() of a symbolic string")
        cs, member = list(self.cs), SymStr.codes(chars)
        hit = lambda c: _cur().truth(Or(*[eq(c, m) for m in member]))
        while left and cs and hit(cs[0]):
            cs.pop(0)
        while right and cs and hit(cs[-1]):
            cs.pop()
        return SymStr.make(cs)

    def strip(self, chars=None):
        return self._strip(chars, 1, 1)

    def lstrip(self, chars=None):
        return self._strip(chars, 1, 0)

    def rstrip(self, chars=None):
        return self._strip(chars, 0, 1)

    def isalpha(self):
        return bool(self.cs) and _cur().truth(And(*[Or(And(ge(c, 97), le(c, 122)), And(ge(c, 65), le(c, 90))) for c in self.cs]))

    def isdigit(self):
        return bool(self.cs) and _cur().truth(And(*[And(ge(c, 48), le(c, 57)) for c in self.cs]))

    def encode(self, *a):
        return self.concretize().encode(*a)

    def __repr__(self):
        return "<symstr>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symstr>"


def _same(a, b):
    """expression: two set elements are equal"""
    if type(a) is SymStr:
        return a._eqexpr(b) if isinstance(b, str) else False
    if type(b) is SymStr:
        return b._eqexpr(a) if isinstance(a, str) else False
    if is_sym(a) or is_sym(b):
        return eq(a, b)
    return a == b


def _member(x, coll):
    return Or(*[_same(x, it) for it in coll])


class SymSet(object):
    """set of possibly symbolic elements; `raw` may contain duplicates until iterated"""

    __slots__ = ("raw", "dedup")

    def __init__(self, items):
        self.raw = list(items)
        self.dedup = False

    def __getattr__(self, name):
        return _unmodelled(self, set, name)

    @property
    def __class__(self):
        return set

    @property
    def items(self):
        if not self.dedup:
            out = []
            for it in self.raw:
                if not _cur().truth(_member(it, out)):
                    out.append(it)
            self.raw = out
            self.dedup = True
        return self.raw

    def __contains__(self, x):
        return _cur().truth(_member(x, self.raw))

    def _len(self):
        r = 0
        for i, it in enumerate(self.raw):
            r = add(r, If(_member(it, self.raw[:i]), 0, 1))
        return wrap(r)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(list(self.items))

    def __bool__(self):
        return bool(self.raw)

    @staticmethod
    def _coll(o):
        return o.raw if type(o) is SymSet else list(o)

    def _all_in(self, o):
        o = self._coll(o)
        return And(*[_member(i, o) for i in self.raw])

    def __sub__(self, o):
        o = self._coll(o)
        return SymSet([i for i in self.raw if not _cur().truth(_member(i, o))])

    def __rsub__(self, o):
        return SymSet([i for i in o if not _cur().truth(_member(i, self.raw))])

    def __and__(self, o):
        o = self._coll(o)
        return SymSet([i for i in self.raw if _cur().truth(_member(i, o))])

    __rand__ = __and__

    def __or__(self, o):
        return SymSet(self.raw + self._coll(o))

    __ror__ = __or__

    def __xor__(self, o):
        o = SymSet(self._coll(o))
        return (self - o) | (o - self)

    __rxor__ = __xor__

    def __le__(self, o):
        return _cur().truth(self._all_in(o))

    def __ge__(self, o):
        return _cur().truth(And(*[_member(i, self.raw) for i in self._coll(o)]))

    def __lt__(self, o):
        return self <= o and not self >= o

    def __gt__(self, o):
        return self >= o and not self <= o

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self <= o and self >= o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def difference(self, *os_):
        r = self
        for o in os_:
            r = r - o
        return r

    def intersection(self, *os_):
        r = self
        for o in os_:
            r = r & o
        return r

    def union(self, *os_):
        r = self
        for o in os_:
            r = r | o
        return r

    symmetric_difference = __xor__

    def issubset(self, o):
        return self <= o

    def issuperset(self, o):
        return self >= o

    def isdisjoint(self, o):
        o = self._coll(o)
        return not _cur().truth(Or(*[_member(i, o) for i in self.raw]))

    def copy(self):
        return SymSet(self.raw)

    def add(self, x):
        self.raw = self.raw + [x]
        self.dedup = False

    def update(self, *os_):
        for o in os_:
            self.raw = self.raw + self._coll(o)
        self.dedup = False

    def discard(self, x):
        self.raw = [i for i in self.raw if not _cur().truth(_same(i, x))]

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)


def make_set(items=()):
    if type(items) is SymSet:
        return items.copy()
    items = list(items)
    if any(type(i) is SymStr or is_sym(i) for i in items):
        return SymSet(items)
    if items and all(type(i) is str and len(i) == 1 for i in items):
        return SymSet(sorted(set(items)))  # set of characters: so that `symbolic_char in SET` is one branch
    return set(items)


# ----------------------------------------------------------------------- engine


def _func_values(m, f):
    fi = None
    for d in m.decls():
        if d.eq(f):
            fi = m[d]
    if fi is None:
        return {"else": 0, "at": []}
    if not isinstance(fi, z3.FuncInterp):
        raise EngineError("unexpected function interpretation")
    at = [[fi.entry(i).arg_value(0).as_long(), fi.entry(i).value().as_long()] for i in range(fi.num_entries())]
    e = fi.else_value()
    e = e.as_long() if e is not None and z3.is_int_value(e) else 0
    return {"else": e, "at": at}


class _Dec(object):
    __slots__ = ("cond", "taken", "pending", "alt_model", "options", "index")

    def __init__(self, cond, taken, pending, alt_model=None, options=None, index=0):
        self.options = options  # for a free choice: the constraints of its options
        self.index = index
        self.cond = cond
        self.taken = taken  # z3 expression actually asserted
        self.pending = pending  # the other side is still to be explored
        self.alt_model = alt_model  # a model of the other side, when pending


_options = {}


def _bool_options(z):
    k = (z.get_id(), 2, True)
    if k not in _options:
        _options[k] = (z, z3.Not(z))
    return _options[k]


def _choice_options(z, n):
    k = (z.get_id(), n, False)
    if k not in _options:
        _options[k] = tuple(z == i for i in range(n))
    return _options[k]


class Stats(object):
    FIELDS = ("paths", "queries", "assert_queries", "assertions", "decisions", "ended", "concretizations", "transitions")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.end_reasons = {}
        self.reached = {}

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, v in o.end_reasons.items():
            self.end_reasons[k] = self.end_reasons.get(k, 0) + v
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v


class Engine(object):
    current = None

    def __init__(self, concrete=None, query_timeout_ms=60000, max_concretize=64):
        self.concrete = concrete
        self.stats = Stats()
        self.vars = {}  # name -> z3 const (this path)
        self.values = {}  # name -> value (concrete mode: the ones really used)
        self.trace = []
        self.idx = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.model = None
        self.model_fresh = False
        self.counters = {}
        self.aborting = None
        self.max_concretize = max_concretize
        self.depth_limit = 20000
        self.fresh_from = 0  # decisions with index >= fresh_from are new on this path

    # --- symbolic variables

    def fresh_name(self, name):
        k = self.counters.get(name, 0)
        self.counters[name] = k + 1
        return name if k == 0 else "%s#%d" % (name, k)

    def _lookup(self, name, default):
        v = self.concrete.get(name, default)
        self.values[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        name = self.fresh_name(name)
        if self.concrete is not None:
            return self._lookup(name, lo if lo is not None else (hi if hi is not None and hi < 0 else 0))
        z = _var(z3.Int, name)
        self.vars[name] = z
        c = []
        if lo is not None:
            c.append(z >= ex(lo))
        if hi is not None:
            c.append(z <= ex(hi))
        if c:
            self.assume(z3.And(*c))
        return SymInt(z)

    def real(self, name, lo=None, hi=None):
        name = self.fresh_name(name)
        if self.concrete is not None:
            return self._lookup(name, lo if lo is not None else 0.0)
        z = _var(z3.Real, name)
        self.vars[name] = z
        c = []
        if lo is not None:
            c.append(z >= ex(lo))
        if hi is not None:
            c.append(z <= ex(hi))
        if c:
            self.assume(z3.And(*c))
        return SymReal(z)

    def bool(self, name):
        """a symbolic boolean, forked into a real Python bool"""
        name = self.fresh_name(name)
        if self.concrete is not None:
            return bool(self._lookup(name, False))
        z = _var(z3.Bool, name)
        self.vars[name] = z
        return self._free(z, _bool_options(z)) == 0

    def boolvar(self, name):
        """a symbolic boolean left symbolic (to be used in expressions only)"""
        name = self.fresh_name(name)
        if self.concrete is not None:
            return bool(self._lookup(name, False))
        z = _var(z3.Bool, name)
        self.vars[name] = z
        return z

    def func(self, name):
        """an arbitrary content: a function from any integer to a byte"""
        name = self.fresh_name(name)
        if self.concrete is not None:
            t = self._lookup(name, {"else": 0, "at": []})
            d = {k: v for k, v in t["at"]}
            dv = t["else"]

            def get(i):
                v = d.get(i, dv)
                return v if 0 <= v <= 255 else 0

            return get
        f = _var(lambda n: z3.Function(n, z3.IntSort(), z3.IntSort()), name)
        self.vars[name] = f

        def fn(i):
            i = ex(i)
            v = f(i if _isz(i) else z3.IntVal(i))
            return z3.If(z3.And(v >= 0, v <= 255), v, z3.IntVal(0))

        return fn

    def data(self, name, n):
        """arbitrary bytes of length n"""
        f = self.func(name)
        if self.concrete is not None:
            if n > 1 << 20:
                self.end("concrete replay with huge data")
            return bytes(f(i) for i in range(n))
        return SymBytes(n, lambda i: f(ex(i)))

    def choose(self, name, options):
        """fork over a finite list of options (a symbolic index, every value of which is explored)"""
        options = list(options)
        name = self.fresh_name(name)
        if self.concrete is not None:
            i = self._lookup(name, 0)
            return options[i if 0 <= i < len(options) else 0]
        if len(options) == 1:
            return options[0]
        z = _var(z3.Int, name)
        self.vars[name] = z
        return options[self._free(z, _choice_options(z, len(options)))]

    def _free(self, z, constraints):
        """fork over the values of a fresh variable: all of them are feasible, so no query is needed"""
        self._check_abort()
        if self.idx < len(self.trace):
            d = self.trace[self.idx]
            if d.cond is not z or len(d.options) != len(constraints):
                self._fail(EngineError("nondeterministic replay: expected %s, got choice %s" % (d.cond, z)))
            self.idx += 1
            return d.index
        if len(self.trace) > self.depth_limit:
            self._fail(EngineError("path too deep"))
        self.stats.decisions += 1
        self.solver.push()
        self.solver.add(constraints[0])
        self.trace.append(_Dec(z, constraints[0], True, self.model, constraints, 0))
        self.idx += 1
        return 0

    def memo(self, key, fn):
        """cache an expression across paths (its variables must be the same on every path)"""
        if self.concrete is not None:
            return fn()
        m = self.__dict__.setdefault("_memo", {})
        if key not in m:
            m[key] = fn()
        return m[key]

    # --- path condition

    STEPS = 5000  # calls to the system, pauses and lock operations of one path (less than 1000 in practice)
    steps = most_steps = 0

    def _check_abort(self):
        if self.aborting is not None:
            raise self.aborting
        self.steps += 1
        if self.steps > self.STEPS:
            self.steps = -10 ** 9
            self.fail("an operation never ends", "%d system calls and pauses" % self.steps)

    def _solve(self, *extra):
        t = _time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += _time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self._fail(EngineError("solver returned unknown: %s" % self.solver.reason_unknown()))
        return r == z3.sat

    def _fail(self, exc):
        self.aborting = exc
        raise exc

    def _model_says(self, cond):
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _push(self, cond, taken, pending, alt=None):
        self.solver.push()
        self.solver.add(taken)
        self.trace.append(_Dec(cond, taken, pending, alt))
        self.idx += 1

    def branch(self, cond):
        """decide a z3 boolean; explores both outcomes when both are feasible"""
        self._check_abort()
        if not _isz(cond):
            return bool(cond)
        cond = _simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.idx < len(self.trace):
            d = self.trace[self.idx]
            if d.cond is not cond and not d.cond.eq(cond):
                self._fail(EngineError("nondeterministic replay: expected %s, got %s" % (d.cond, cond)))
            self.idx += 1
            return d.taken is d.cond
        if len(self.trace) > self.depth_limit:
            self._fail(EngineError("path too deep"))
        self.stats.decisions += 1
        ncond = z3.Not(cond)
        m = self._model_says(cond)
        alt = None
        if m is None:
            t = self._solve(cond)
            if t:
                self.model = self.solver.model()
                f = self._solve(ncond)
                if f:
                    alt = self.solver.model()
            else:
                f = True
                self.model = None
        elif m:
            t, f = True, self._solve(ncond)
            if f:
                alt = self.solver.model()
        else:
            f = True
            alt = self.model
            t = self._solve(cond)
            if t:
                self.model = self.solver.model()
        if t:
            self._push(cond, cond, f, alt)
            return True
        self._push(cond, ncond, False)
        return False

    def truth(self, cond):
        cond = ex(cond)
        if _isz(cond):
            return self.branch(cond)
        return bool(cond)

    def assume(self, cond):
        self._check_abort()
        cond = ex(cond)
        if not _isz(cond):
            if not cond:
                self.end("assumption")
            return
        cond = _simplify(cond)
        if z3.is_true(cond):
            return
        if self.idx < len(self.trace):
            d = self.trace[self.idx]
            if d.cond is not cond and not d.cond.eq(cond):
                self._fail(EngineError("nondeterministic replay: expected %s, got assumption %s" % (d.cond, cond)))
            self.idx += 1
            return
        m = self._model_says(cond)
        if m is not True:
            if not self._solve(cond):
                self._push(cond, cond, False)
                self.end("assumption")
            self.model = self.solver.model()
        self._push(cond, cond, False)

    def end(self, reason):
        self._fail(PathEnd(reason))

    def must(self, cond):
        """is cond implied by the path condition? (no branching; the answer is recorded in the trace)"""
        cond = ex(cond)
        if not _isz(cond):
            return bool(cond)
        cond = _simplify(cond)
        if z3.is_true(cond):
            return True
        if self.idx < len(self.trace):
            d = self.trace[self.idx]
            if d.alt_model not in (True, False) or not d.cond.eq(cond):
                self._fail(EngineError("nondeterministic replay in must()"))
            self.idx += 1
            return d.alt_model
        if self._model_says(cond) is False:
            r = False
        else:
            r = not self._solve(z3.Not(cond))
        self.solver.push()
        self.trace.append(_Dec(cond, z3.BoolVal(True), False, r))
        self.idx += 1
        return r

    def concretize(self, v):
        """fork over every feasible value of v"""
        self._check_abort()
        z = v.z if is_sym(v) else v
        if not _isz(z):
            return z
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        self.stats.concretizations += 1
        n = 0
        while True:
            if self.idx < len(self.trace):
                val = self._conc_memo.get(self.idx)
                if val is None:
                    self._fail(EngineError("nondeterministic replay in concretize"))
            else:
                if self.model is None:
                    if not self._solve():
                        self._fail(EngineError("inconsistent path condition"))
                    self.model = self.solver.model()
                val = self.model.eval(z, model_completion=True).as_long()
                self._conc_memo[self.idx] = val
            if self.branch(z == val):
                return val
            n += 1
            if n > self.max_concretize:
                self._fail(EngineError("too many values when concretizing %s" % z))

    # --- properties

    def reach(self, tag):
        """vacuity guard: note that this point of the harness was reached on a feasible path"""
        self.stats.reached[tag] = self.stats.reached.get(tag, 0) + 1

    def check(self, prop, message, details=None):
        """the property assertion: must hold for all values allowed by the path condition"""
        self._check_abort()
        prop = ex(prop)
        self.stats.assertions += 1
        if not _isz(prop):
            if prop:
                return
            if self.concrete is not None:
                self._fail(PropertyViolated(message, dict(self.values), details))
            if not self._solve():
                self._fail(EngineError("violation on an infeasible path: " + message))
            self._fail(PropertyViolated(message, self.model_values(self.solver.model()), details))
        if self.idx < len(self.trace):
            # the rest of the replayed prefix only strengthens the path condition, and this very
            # assertion was discharged on the path that created the prefix
            return
        self.stats.assert_queries += 1
        self.solver.push()
        self.solver.add(z3.Not(prop))
        bad = self._solve()
        m = self.solver.model() if bad else None
        self.solver.pop()
        if bad:
            self._fail(PropertyViolated(message, self.model_values(m), details))

    def fail(self, message, details=None):
        self.check(False, message, details)

    def model_values(self, m):
        out = {}
        for name, z in self.vars.items():
            if isinstance(z, z3.FuncDeclRef):
                out[name] = _func_values(m, z)
                continue
            v = m.eval(z, model_completion=True)
            if z3.is_int_value(v):
                out[name] = v.as_long()
            elif z3.is_rational_value(v):
                f = v.as_fraction()
                out[name] = float(f)
            elif z3.is_true(v) or z3.is_false(v):
                out[name] = z3.is_true(v)
            else:
                out[name] = str(v)
        return out

    def path_model(self):
        if not self._solve():
            return None
        return self.model_values(self.solver.model())

    # --- exploration

    def explore(self, run, max_paths=200000, deadline=None, on_path=None):
        """run(engine): executes the harness once.  Returns None, or the PropertyViolated."""
        self._conc_memo = {}
        while True:
            if deadline is not None and _time.monotonic() > deadline:
                raise EngineError("time budget exhausted after %d paths" % self.stats.paths)
            if self.stats.paths >= max_paths:
                raise EngineError("path budget exhausted (%d)" % max_paths)
            self.idx = 0
            self.vars = {}
            self.counters = {}
            self.aborting = None
            self.most_steps = max(self.steps, self.most_steps)
            self.steps = 0
            Engine.current = self
            try:
                run(self)
                self.stats.paths += 1
                if on_path is not None:
                    on_path(self)
            except PathEnd as e:
                self.stats.ended += 1
                self.stats.end_reasons[e.reason] = self.stats.end_reasons.get(e.reason, 0) + 1
            except PropertyViolated as e:
                return e
            finally:
                Engine.current = None
            if self.aborting is not None and not isinstance(self.aborting, PathEnd):
                # swallowed by the code under test (bare except without raise)
                if isinstance(self.aborting, PropertyViolated):
                    return self.aborting
                raise self.aborting
            if self.idx < len(self.trace):
                raise EngineError("nondeterministic replay: path ended early")
            # backtrack
            while self.trace and not self.trace[-1].pending:
                self.trace.pop()
                self.solver.pop()
            if not self.trace:
                return None
            d = self.trace.pop()
            self.solver.pop()
            if d.options is not None:
                i = d.index + 1
                self.solver.push()
                self.solver.add(d.options[i])
                self.trace.append(_Dec(d.cond, d.options[i], i + 1 < len(d.options), d.alt_model, d.options, i))
                self.model = d.alt_model
                for k in [k for k in self._conc_memo if k >= len(self.trace)]:
                    del self._conc_memo[k]
                continue
            neg = z3.Not(d.cond)
            self.solver.push()
            self.solver.add(neg)
            self.trace.append(_Dec(d.cond, neg, False))
            self.model = d.alt_model
            for k in [k for k in self._conc_memo if k >= len(self.trace)]:
                del self._conc_memo[k]

    def run_concrete(self, run):
        """replay with concrete values; returns the PropertyViolated or None"""
        Engine.current = self
        self.aborting = None
        try:
            run(self)
        except PropertyViolated as e:
            return e
        except PathEnd:
            return None
        finally:
            Engine.current = None
        if isinstance(self.aborting, PropertyViolated):
            return self.aborting
        if self.aborting is not None and not isinstance(self.aborting, PathEnd):
            raise self.aborting
        return None

"""A file as the properties describe it: an array of bytes with a position (the oracle of C12-C15, C18, C20)."""
from symx.engine import And, If, Implies, Max, Min, Not, Or, SymBytes, add, eq, ex, ge, is_sym, le, lt, ne, sub, sym_len, wrap
from symx.posix import INF, Content


class RefFile(object):
    def __init__(self, base, size, append=False):
        self.content = Content(lambda i: If(lt(i, size), base(i), 0))
        self.size = size
        self.pos = size if append else 0
        self.append = append

    def write(self, data):
        n = sym_len(data)
        if type(n) is int and n == 0:
            return
        if self.append:
            self.pos = self.size
        end = wrap(add(self.pos, n))
        self.content.patch(self.pos, end, SymBytes.of(data).fn)
        # an empty write changes neither the size nor the position
        self.size = wrap(If(eq(n, 0), self.size, Max(self.size, end)))
        self.pos = end

    def avail(self):
        return Max(0, sub(self.size, self.pos))

    def read(self, n=None):
        """returns (length, function of the index)"""
        k = self.avail() if n is None else Min(n, self.avail())
        snap = self.content.snapshot()
        p = ex(self.pos)
        self.pos = wrap(add(self.pos, k))
        return wrap(k), lambda i: snap.get(add(p, i))

    def seek(self, off, whence=0):
        base = (0, self.pos, self.size)[whence]
        self.pos = wrap(add(base, off))
        return self.pos

    def truncate(self, n):
        self.content.patch(Min(n, self.size), INF, lambda i: 0)
        self.size = n


def same_data(eng, got, length, fn, msg, name="y"):
    """got (bytes) is exactly the data [fn(0), ..., fn(length-1)]"""
    eng.check(got is not None and isinstance(got, bytes), msg + ": not bytes", repr(got))
    eng.check(eq(sym_len(got), length), msg + ": wrong length")
    y = eng.int(name, 0)
    g = SymBytes.of(got)
    eng.check(Implies(lt(y, length), eq(g.fn(y), fn(y))), msg + ": wrong bytes")


def same_file(eng, node, ref, msg, name="x"):
    """the file holds exactly the bytes of the reference"""
    eng.check(eq(node.size, ref.size), msg + ": wrong size")
    x = eng.int(name, 0)
    eng.check(Implies(lt(x, ref.size), eq(node.content.get(x), ref.content.get(x))), msg + ": wrong bytes")

"""Symbolic execution of Python code by operator overloading.

Symbolic integers are z3 bit-vectors wide enough for every value they can take (their
bounds are tracked, so that no operation wraps around).  A branch on a symbolic condition
asks z3 which outcomes are possible and explores all of them by running the harness again
with the chosen outcomes.  Where Python needs a plain integer (an index, a hash) the value is
enumerated through the solver."""
import sys, time
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3


class Infeasible(BaseException):
    """The path ends here: an assumption cannot hold."""


class Unsupported(BaseException):
    pass


class PathTimeout(BaseException):
    pass


CTX = None  # the running path
ENUM_LIMIT = 64


def width_for(lo, hi):
    return max(lo.bit_length() + 1 if lo < 0 else 1, hi.bit_length() + 1 if hi > 0 else 1, (-lo - 1).bit_length() + 1 if lo < 0 else 1)


def ext(e, w):
    d = w - e.size()
    return z3.SignExt(d, e) if d > 0 else (z3.Extract(w - 1, 0, e) if d < 0 else e)


def mk(e, lo, hi):
    if lo == hi:
        return lo
    return SymInt(ext(e, width_for(lo, hi)), lo, hi)


def lift(x, w):
    if isinstance(x, SymInt):
        return ext(x.e, w)
    return z3.BitVecVal(x, w)


def lohi(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    return x, x


def is_int(x):
    return isinstance(x, (int, SymInt))


def norm(x):
    return x.as_int() if isinstance(x, SymBool) else int(x) if isinstance(x, bool) else x


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def as_int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return conj(self, o)
        return self.as_int() & o

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return disj(self, o)
        return self.as_int() | o
    __rand__ = __and__
    __ror__ = __or__

    def __xor__(self, o):
        return self != o if isinstance(o, (bool, SymBool)) else self.as_int() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else neg(self)
        return self.as_int() == o

    def __ne__(self, o):
        return neg(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o): return self.as_int() + o
    def __radd__(self, o): return o + self.as_int()
    def __sub__(self, o): return self.as_int() - o
    def __mul__(self, o): return self.as_int() * o
    __rmul__ = __mul__
    def __lshift__(self, o): return self.as_int() << o
    def __rshift__(self, o): return self.as_int() >> o
    def __lt__(self, o): return self.as_int() < o
    def __le__(self, o): return self.as_int() <= o
    def __gt__(self, o): return self.as_int() > o
    def __ge__(self, o): return self.as_int() >= o
    def __repr__(self): return "<symbolic bool>"


def bexpr(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return (x != 0).e if isinstance(x != 0, SymBool) else z3.BoolVal(bool(x != 0))
    return z3.BoolVal(bool(x))


def simp(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def neg(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.e))
    return not x


def conj(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(es[0] if len(es) == 1 else z3.And(*es))


def disj(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(es[0] if len(es) == 1 else z3.Or(*es))


def ite(c, a, b):
    """c ? a : b without forking"""
    if not isinstance(c, SymBool):
        return a if c else b
    (l1, h1), (l2, h2) = lohi(a), lohi(b)
    lo, hi = min(l1, l2), max(h1, h2)
    w = width_for(lo, hi)
    return mk(z3.If(c.e, lift(a, w), lift(b, w)), lo, hi)


class SymInt:
    __slots__ = ("e", "lo", "hi", "wide")

    def __init__(self, e, lo, hi, wide=False):
        self.e, self.lo, self.hi, self.wide = e, lo, hi, wide

    # arithmetic
    def _bin(self, o, f, bounds):
        o = norm(o)
        if not is_int(o):
            return NotImplemented
        lo, hi = bounds(self.lo, self.hi, *lohi(o))
        l, h = lohi(o)
        w = max(width_for(lo, hi), width_for(self.lo, self.hi), width_for(l, h))
        return mk(f(lift(self, w), lift(o, w)), lo, hi)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b, c, d: (a + c, b + d))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b, c, d: (a - d, b - c))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b, c, d: (c - b, d - a))

    def __mul__(self, o):
        def b(a, b, c, d):
            p = (a * c, a * d, b * c, b * d)
            return min(p), max(p)
        return self._bin(o, lambda x, y: x * y, b)
    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self.lo >= 0 else ite(self < 0, -self, self)

    def __invert__(self):
        return -1 - self

    def __and__(self, o):
        def b(a, b, c, d):
            if a >= 0 and c >= 0:
                return 0, min(b, d)
            if a >= 0:
                return 0, b
            if c >= 0:
                return 0, d
            n = max(width_for(a, b), width_for(c, d))
            return -(1 << (n - 1)), (1 << (n - 1)) - 1
        return self._bin(o, lambda x, y: x & y, b)
    __rand__ = __and__

    def _ob(a, b, c, d):
        n = max(width_for(a, b), width_for(c, d)) - 1
        return (0 if a >= 0 and c >= 0 else -(1 << n)), (1 << n) - 1

    def __or__(self, o):
        return self._bin(o, lambda x, y: x | y, SymInt._ob)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda x, y: x ^ y, SymInt._ob)
    __rxor__ = __xor__

    def __lshift__(self, o):
        o = norm(o)
        if isinstance(o, SymInt):
            o = o.__index__()
        if o < 0:
            raise ValueError("negative shift count")
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        o = norm(o)
        if isinstance(o, SymInt):
            o = o.__index__()
        if o < 0:
            raise ValueError("negative shift count")
        w = max(self.e.size(), 1)
        if o >= w:
            return mk(z3.If(self.e < 0, z3.BitVecVal(-1, w), z3.BitVecVal(0, w)), self.lo >> o, self.hi >> o)
        return mk(self.e >> o, self.lo >> o, self.hi >> o)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __floordiv__(self, o):
        return divmod(self, o)[0]

    def __mod__(self, o):
        return divmod(self, o)[1]

    def __divmod__(self, o):
        o = norm(o)
        if isinstance(o, SymInt):
            o = o.__index__()
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0 or self.lo < 0:
            v = self.__index__()
            return divmod(v, o)
        if o & (o - 1) == 0:
            return self >> (o.bit_length() - 1), self & (o - 1)
        w = max(self.e.size(), width_for(0, o))
        a, b = lift(self, w), z3.BitVecVal(o, w)
        return mk(z3.UDiv(a, b), self.lo // o, self.hi // o), mk(z3.URem(a, b), 0, min(o - 1, self.hi))

    def __rfloordiv__(self, o): return o // self.__index__()
    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("string formatting of a symbolic integer")
        return o % self.__index__()
    def __truediv__(self, o): return self.__index__() / o
    def __rtruediv__(self, o): return o / self.__index__()
    def __pow__(self, o, m=None): return pow(self.__index__(), o, m)
    def __rpow__(self, o): return o ** self.__index__()

    # comparison
    def _cmp(self, o, f, decided):
        o = norm(o)
        if not is_int(o):
            if isinstance(o, float):
                return f(self.__index__(), o)
            return NotImplemented
        l, h = lohi(o)
        d = decided(self.lo, self.hi, l, h)
        if d is not None:
            return d
        w = max(width_for(self.lo, self.hi), width_for(l, h))
        return SymBool(f(lift(self, w), lift(o, w)))

    def __eq__(self, o):
        if isinstance(o, (int, SymInt, SymBool)):
            return self._cmp(o, lambda a, b: a == b, lambda a, b, c, d: False if b < c or d < a else None)
        return False

    def __ne__(self, o):
        return neg(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b, c, d: True if b < c else False if a >= d else None)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b, c, d: True if b <= c else False if a > d else None)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b, c, d: True if a > d else False if b <= c else None)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b, c, d: True if a >= d else False if b < c else None)

    def __bool__(self):
        return bool(self != 0)

    # plain integers
    def __index__(self):
        return CTX.concretize(self, "index")
    __int__ = __index__
    def __trunc__(self): return self.__index__()
    def __float__(self): return float(self.__index__())

    def __hash__(self):
        v = None if self.wide else CTX.concretize(self, "hash")
        return hash(v) if v is not None else 0x51B0

    def bit_length(self): return self.__index__().bit_length()
    def bit_count(self): return self.__index__().bit_count()
    def to_bytes(self, n=1, order="big", *, signed=False):
        n = int(n)
        lim = (1 << (8 * n - 1)) if signed else (1 << (8 * n))
        if disj(self >= lim, self < (-lim if signed else 0)):
            raise OverflowError("int too big to convert")
        b = [(self >> (8 * i)) & 0xFF for i in range(n)]
        return SymBytes(b if order == "little" else b[::-1])
    def __repr__(self): return "<symbolic int>"
    __str__ = __repr__
    def __format__(self, spec): return "<symbolic int>"


def sym_concrete(x):
    return not isinstance(x, (SymInt, SymBool))


class SymBytes:
    """bytes, bytearray, mmap or memoryview with symbolic elements"""

    def __init__(self, items, mutable=False):
        self.b = list(items)
        self.mutable = mutable

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return len(self.b) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.b[i], self.mutable)
        if isinstance(i, SymInt) and self._inside(i):
            r = self.b[-1]
            for k in range(len(self.b) - 2, -1, -1):
                r = ite(i == k, self.b[k], r)
            return r
        return self.b[i]

    def _inside(self, i):
        """an index that takes several values, all of them places"""
        if not self.b or len(self.b) > 64:
            return False
        if conj(i >= 0, i < len(self.b)):
            return True
        return False

    def __setitem__(self, i, v):
        if not self.mutable:
            raise TypeError("'bytes' object does not support item assignment")
        if isinstance(i, SymInt) and isinstance(v, (int, SymInt)) and self._inside(i):
            for k in range(len(self.b)):
                self.b[k] = ite(i == k, v, self.b[k])
            return
        self.b[i] = v

    def __iter__(self):
        return iter(self.b)

    def __eq__(self, o):
        if not isinstance(o, (SymBytes, bytes, bytearray, memoryview)):
            return False
        if len(o) != len(self.b):
            return False
        return conj(*[a == c for a, c in zip(self.b, o)])

    def __ne__(self, o):
        return neg(self == o)

    def __hash__(self):
        return hash(bytes(int(x) for x in self.b))

    def __add__(self, o):
        return SymBytes(self.b + list(o), self.mutable)

    def __radd__(self, o):
        return SymBytes(list(o) + self.b, self.mutable)

    def __contains__(self, x):
        return bool(disj(*[a == x for a in self.b]))

    def __bytes__(self):
        return bytes(int(x) for x in self.b)

    def __buffer__(self, flags):
        raise Unsupported("the buffer of symbolic bytes")

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_text(self, encoding, errors)

    def find(self, sub, start=0, end=None):
        if is_int(sub):
            sub = [sub]
        end = len(self.b) if end is None else min(end, len(self.b))
        if start < 0:
            start = max(0, start + len(self.b))
        for i in range(start, end - len(sub) + 1):
            if conj(*[a == c for a, c in zip(self.b[i:i + len(sub)], sub)]):
                return i
        return -1

    def count(self, x): return sum(1 for a in self.b if a == x)
    def append(self, x): self.b.append(x)
    def extend(self, xs): self.b.extend(xs)
    def tobytes(self): return SymBytes(self.b)
    def tolist(self): return list(self.b)
    def ljust(self, n, fill=b" "): return SymBytes(self.b + [fill[0]] * max(0, n - len(self.b)), self.mutable)
    def hex(self): return bytes(self).hex()
    def read(self, n=-1):
        p = getattr(self, "pos", 0)
        e = len(self.b) if n is None or n < 0 else min(len(self.b), p + n)
        self.pos = e
        return SymBytes(self.b[p:e])
    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else p + (getattr(self, "pos", 0) if whence == 1 else len(self.b))
        return self.pos
    def tell(self): return getattr(self, "pos", 0)
    def size(self): return len(self.b)
    def close(self): pass
    def release(self): pass
    def cast(self, *a):
        if a and a[0] in ("B", "b", "c"):
            return self
        raise Unsupported("cast of a view")
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __repr__(self): return "<symbolic bytes>"


class SparseBytes:
    """A large read-only buffer of which only some extents exist: [(offset, SymBytes)]"""

    def __init__(self, extents, size):
        self.x, self.n = extents, size

    def __len__(self):
        return self.n

    def __bool__(self):
        return self.n > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, o, s = i.indices(self.n)
            if s != 1:
                raise Unsupported("step")
            if o <= a:
                return SymBytes([])
            for off, b in self.x:
                if off <= a and o <= off + len(b):
                    return b[a - off:o - off]
            if o - a > 1 << 16:  # a view of a large part
                return SparseBytes([(off - a, b) for off, b in self.x if off + len(b) > a], o - a) if all(
                    off >= a or off + len(b) <= a for off, b in self.x) else _cut(self, a, o)
            return SymBytes([self._at(k) for k in range(a, o)])
        i = i.__index__()
        return self._at(i + self.n if i < 0 else i)

    def _at(self, k):
        for off, b in self.x:
            if off <= k < off + len(b):
                return b[k - off]
        return 0

    def __iter__(self):
        return (self._at(k) for k in range(self.n))

    def close(self): pass
    def size(self): return self.n
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __repr__(self): return "<symbolic file>"


def _cut(s, a, o):
    x = []
    for off, b in s.x:
        if off + len(b) <= a:
            continue
        x.append((off - a, b) if off >= a else (0, b[a - off:]))
    return SparseBytes(x, o - a)


class SymStr:
    """Text decoded from symbolic bytes (raw: the bytes it stands for, None if they are lost)"""

    def __init__(self, raw, lossy=False):
        self.raw, self.lossy = raw, lossy

    def encode(self, encoding="utf-8", errors="strict"):
        return self.raw

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return conj(not self.lossy, not o.lossy, self.raw == o.raw)
        if isinstance(o, str):
            return conj(not self.lossy, self.raw == o.encode("utf-8", "surrogateescape"))
        return False

    def __ne__(self, o):
        return neg(self == o)

    def __hash__(self):
        return hash(bytes(self.raw).decode("utf-8", "surrogateescape"))

    def __fspath__(self):
        raise Unsupported("path of symbolic text")

    def __len__(self):
        return len(self.raw)

    def __str__(self):
        raise Unsupported("text of symbolic bytes")

    def __repr__(self):
        return "<symbolic text>"


def valid_utf8(b):
    """Whether the bytes are valid UTF-8 (no fork)"""
    n = len(b)
    ok = [False] * (n + 1)
    ok[n] = True
    rng = lambda x, lo, hi: conj(x >= lo, x <= hi)
    for i in range(n - 1, -1, -1):
        alts = [conj(b[i] < 0x80, ok[i + 1])]
        if i + 1 < n:
            alts.append(conj(rng(b[i], 0xC2, 0xDF), rng(b[i + 1], 0x80, 0xBF), ok[i + 2]))
        if i + 2 < n:
            t = conj(rng(b[i + 2], 0x80, 0xBF), ok[i + 3])
            alts.append(conj(disj(conj(b[i] == 0xE0, rng(b[i + 1], 0xA0, 0xBF)), conj(b[i] == 0xED, rng(b[i + 1], 0x80, 0x9F)),
                                  conj(rng(b[i], 0xE1, 0xEF), b[i] != 0xED, rng(b[i + 1], 0x80, 0xBF))), t))
        if i + 3 < n:
            t = conj(rng(b[i + 2], 0x80, 0xBF), rng(b[i + 3], 0x80, 0xBF), ok[i + 4])
            alts.append(conj(disj(conj(b[i] == 0xF0, rng(b[i + 1], 0x90, 0xBF)), conj(b[i] == 0xF4, rng(b[i + 1], 0x80, 0x8F)),
                                  conj(rng(b[i], 0xF1, 0xF3), rng(b[i + 1], 0x80, 0xBF))), t))
        ok[i] = disj(*alts)
    return ok[0]


def decode_text(b, encoding="utf-8", errors="strict"):
    if not isinstance(b, SymBytes):
        return bytes(b).decode(encoding, errors)
    if all(isinstance(x, int) for x in b.b):
        return bytes(b.b).decode(encoding, errors)
    enc = encoding.lower().replace("_", "-")
    if enc in ("utf-8", "utf8"):
        good = valid_utf8(b.b)
    elif enc in ("ascii", "us-ascii"):
        good = conj(*[x < 0x80 for x in b.b])
    else:
        raise Unsupported("decoding " + encoding)
    if errors in ("surrogateescape",):
        return SymStr(SymBytes(b.b))
    if good:
        return SymStr(SymBytes(b.b))
    if errors == "strict":
        raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
    return SymStr(SymBytes(b.b), lossy=True)


class Run:
    """One execution along a given prefix of decisions."""

    def __init__(self, ex, prefix):
        self.ex, self.prefix, self.pos = ex, prefix, 0
        self.taken = []
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("timeout", 20000)
        self.model = None
        self.inputs = []  # (name, SymInt, bits)
        self.counts = {}
        self.known = {}
        self.incomplete = []

    # solver
    def check(self, *extra):
        ex = self.ex
        t = time.time()
        r = self.solver.check(*extra)
        ex.solver_s += time.time() - t
        ex.queries += 1
        if r == z3.sat:
            ex.sat += 1
        elif r == z3.unsat:
            ex.unsat += 1
        else:
            ex.unknown += 1
            self.incomplete.append("the solver gave no answer")
        return r

    def add(self, e):
        self.solver.add(e)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(e, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def get_model(self):
        if self.model is None:
            if self.check() != z3.sat:
                raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def feasible(self, e):
        """(possible, model)"""
        r = self.check(e)
        if r == z3.sat:
            return True, self.solver.model()
        return r != z3.unsat, None

    def fresh(self, name):
        k = self.counts.get(name, 0)
        self.counts[name] = k + 1
        return "%s#%d" % (name, k)

    # A decision is (value, forced): a forced one needs no constraint.
    def branch(self, e):
        s = z3.simplify(e)
        if z3.is_true(s) or z3.is_false(s):
            return z3.is_true(s)
        key = s.get_id()
        if key in self.known:
            return self.known[key][1]
        if self.pos < len(self.prefix):
            d, forced = self.prefix[self.pos]
            self.pos += 1
            if not forced:
                self.add(s if d else z3.Not(s))
        else:
            m = self.get_model()
            d = z3.is_true(m.eval(s, model_completion=True))
            poss, om = self.feasible(z3.Not(s) if d else s)
            forced = not poss
            if poss:
                self.ex.forks += 1
                self.ex.push(self.taken + [(not d, False)])
                self.solver.add(s if d else z3.Not(s))
        self.taken.append((d, forced))
        self.known[key] = (s, d)
        return d

    def concretize(self, x, why):
        s = z3.simplify(x.e)
        if z3.is_bv_value(s):
            return s.as_signed_long()
        key = ("c", s.get_id())
        if key in self.known:
            return self.known[key][1]
        wkey = ("w", s.get_id())
        if why == "hash" and wkey in self.known:
            return None
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
            self.taken.append((v, forced))
            if v is None:
                self.known[wkey] = (s, None)
                return None
            if not forced:
                self.add(s == v)
            self.known[key] = (s, v)
            return v
        limit = ENUM_LIMIT if why == "index" else 16
        vals = []
        m = self.get_model()
        self.solver.push()
        while True:
            vals.append(m.eval(s, model_completion=True).as_signed_long())
            if len(vals) > limit:
                break
            self.solver.add(s != vals[-1])
            r = self.check()
            if r != z3.sat:
                break
            m = self.solver.model()
        self.solver.pop()
        if len(vals) > limit and why == "hash":  # equal hashes, told apart by comparison
            self.taken.append((None, True))
            self.known[wkey] = (s, None)
            return None
        if len(vals) > limit:
            self.incomplete.append("more than %d values where a plain integer is needed" % limit)
            vals = vals[:limit]
        forced = len(vals) == 1
        for v in vals[1:]:
            self.ex.forks += 1
            self.ex.push(self.taken + [(v, False)])
        if not forced:
            self.add(s == vals[0])
        self.taken.append((vals[0], forced))
        self.known[key] = (s, vals[0])
        return vals[0]


def inputs_of(run, model):
    r = []
    for name, s, bits in run.inputs:
        v = model.eval(s.e, model_completion=True).as_signed_long()
        r.append((name, v))
    return r

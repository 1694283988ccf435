"""Stand-ins for the parts of the standard library through which symbolic bytes pass: the
integer and text types, ctypes, struct and mmap.  Everything else is the real thing."""
import builtins, importlib, importlib.abc, importlib.machinery, importlib.util, os, sys, types
import ctypes as real_ctypes, struct as real_struct, mmap as real_mmap, pathlib
from engine import *
import engine

real_int, real_str, real_bytes, real_isinstance, real_bytearray, real_memoryview = int, str, bytes, isinstance, bytearray, memoryview


# ---- builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return real_isinstance(x, (real_int, SymInt, SymBool))
    def __subclasscheck__(cls, c):
        return issubclass(c, (real_int, SymInt))
    def __eq__(cls, o):
        return o is cls or o is real_int
    def __hash__(cls):
        return hash(real_int)


class int_(metaclass=_IntMeta):
    def __new__(cls, x=0, *a, **k):
        if real_isinstance(x, SymInt):
            return x
        if real_isinstance(x, SymBool):
            return x.as_int()
        return real_int(x, *a, **k)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if not real_isinstance(b, SymBytes):
            b = list(b)
            if all(real_isinstance(x, real_int) for x in b):
                return real_int.from_bytes(real_bytes(b), byteorder, signed=signed)
        return from_le(list(b) if byteorder == "little" else list(b)[::-1], signed)
    bit_length = real_int.bit_length
    to_bytes = staticmethod(lambda x, *a, **k: x.to_bytes(*a, **k))


def from_le(b, signed=False):
    if all(real_isinstance(x, real_int) for x in b):
        return real_int.from_bytes(real_bytes(b), "little", signed=signed)
    n = 8 * len(b)
    e = z3.Concat(*[z3.Extract(7, 0, lift(x, 9)) for x in reversed(b)]) if len(b) > 1 else z3.Extract(7, 0, lift(b[0], 9))
    e = z3.simplify(e)
    if signed:
        return SymInt(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return SymInt(z3.ZeroExt(1, e), 0, (1 << n) - 1)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return real_isinstance(x, (real_str, SymStr))
    def __subclasscheck__(cls, c):
        return issubclass(c, (real_str, SymStr))
    def __getattr__(cls, n):
        return getattr(real_str, n)
    def __eq__(cls, o):
        return o is cls or o is real_str
    def __hash__(cls):
        return hash(real_str)


class str_(metaclass=_StrMeta):
    def __new__(cls, x="", encoding=None, errors=None):
        if real_isinstance(x, (SymStr, SymPath)):
            return x if real_isinstance(x, SymStr) else x.s
        if real_isinstance(x, SymBytes):
            if encoding is None and errors is None:
                raise Unsupported("text of symbolic bytes")
            return decode_text(x, encoding or "utf-8", errors or "strict")
        if encoding is not None or errors is not None:
            return real_str(x, encoding or "utf-8", errors or "strict")
        return real_str(x)


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return real_isinstance(x, cls.real) or (real_isinstance(x, SymBytes) and x.mutable == cls.mut)
    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)
    def __getattr__(cls, n):
        return getattr(cls.__dict__["real"], n)
    def __eq__(cls, o):
        return o is cls or o is cls.real
    def __hash__(cls):
        return hash(cls.real)


def _make_bytes(real, mut, a, k):
    if len(a) == 1 and not k:
        x = a[0]
        if real_isinstance(x, (SymInt,)):
            return real(x.__index__())
        if real_isinstance(x, SymBytes):
            return SymBytes(x.b, mut)
        if not real_isinstance(x, (real_int, real_bytes, real_bytearray, real_str)) and hasattr(x, "__iter__"):
            xs = list(x)
            if any(real_isinstance(v, (SymInt, SymBool)) for v in xs):
                return SymBytes([norm(v) for v in xs], mut)
            return real(xs)
    return real(*a, **k)


class bytes_(metaclass=_BytesMeta):
    real, mut = real_bytes, False
    def __new__(cls, *a, **k):
        return _make_bytes(real_bytes, False, a, k)


class bytearray_(metaclass=_BytesMeta):
    real, mut = real_bytearray, True
    def __new__(cls, *a, **k):
        return _make_bytes(real_bytearray, True, a, k)


def memoryview_(x):
    return x if real_isinstance(x, (SymBytes, SparseBytes)) else real_memoryview(x)


_MAP = {}


def _types(t):
    if real_isinstance(t, tuple):
        return tuple(_types(x) for x in t)
    return _MAP.get(t, t) if real_isinstance(t, type) else t


def isinstance_(x, t):
    return real_isinstance(x, _types(t))


# ---- paths
class SymPath:
    def __init__(self, s):
        self.s = s
    def __eq__(self, o):
        if real_isinstance(o, SymPath):
            return self.s == o.s
        return self.s == real_str(o)
    def __ne__(self, o):
        return neg(self == o)
    def __hash__(self):
        return hash(pathlib.Path(real_bytes(self.s.raw).decode("utf-8", "surrogateescape")))
    def __str__(self):
        raise Unsupported("text of symbolic bytes")
    def __repr__(self):
        return "<symbolic path>"


class _PathMeta(type(pathlib.Path)):
    def __instancecheck__(cls, x):
        return real_isinstance(x, (pathlib.PurePath, SymPath))


def make_path(*a):
    if len(a) == 1 and real_isinstance(a[0], SymStr):
        return SymPath(a[0])
    return pathlib.Path(*a)


# ---- ctypes
def _buf(b, offset, n):
    if offset < 0:
        raise ValueError("offset cannot be negative")
    if len(b) - offset < n:
        raise ValueError("Buffer size too small (%d instead of at least %d bytes)" % (len(b), n + offset))
    return list(b[offset:offset + n])


class CType:
    size = align = 0
    def __class_getitem__(cls, n):
        return cls

    @classmethod
    def from_buffer_copy(cls, b, offset=0):
        if real_isinstance(offset, SymInt):
            offset = offset.__index__()
        return cls._load(_buf(b, offset, cls.size))
    from_buffer = from_buffer_copy


class _SimpleMeta(type):
    def __mul__(cls, n):
        return array_type(cls, n)
    __rmul__ = __mul__


class Simple(CType, metaclass=_SimpleMeta):
    signed = False
    order = "little"

    def __init__(self, value=0):
        self.value = value

    @classmethod
    def _load(cls, b):
        o = cls.__new__(cls)
        o.value = cls._value(b)
        return o

    @classmethod
    def _value(cls, b):
        return from_le(b if cls.order == "little" else b[::-1], cls.signed)

    def __repr__(self):
        return "%s(%r)" % (type(self).__name__, self.value)


class c_char(Simple):
    size = align = 1
    @classmethod
    def _value(cls, b):
        return SymBytes(b) if any(real_isinstance(x, SymInt) for x in b) else real_bytes(b)


class c_bool(Simple):
    size = align = 1
    @classmethod
    def _value(cls, b):
        return from_le(b) != 0


def _simple(name, size, signed):
    return type(Simple)(name, (Simple,), dict(size=size, align=size, signed=signed))


def array_type(t, n):
    n = real_int(n)

    class Array(CType, metaclass=_SimpleMeta):
        size, align = t.size * n, t.align
        _type_, _length_ = t, n

        @classmethod
        def _load(cls, b):
            o = cls.__new__(cls)
            o.raw_ = b
            o.items = [t._value(b[i * t.size:(i + 1) * t.size]) if issubclass(t, Simple) else t._load(b[i * t.size:(i + 1) * t.size]) for i in range(n)]
            return o

        @classmethod
        def _value(cls, b):
            if t is c_char:  # bytes up to the terminator
                out = []
                for x in b:
                    if x == 0:
                        break
                    out.append(x)
                return SymBytes(out) if any(real_isinstance(x, SymInt) for x in out) else real_bytes(out)
            return cls._load(b)
        value = property(lambda s: s._value(s.raw_))
        raw = property(lambda s: SymBytes(s.raw_))

        def __getitem__(self, i):
            return self.items[i]

        def __len__(self):
            return n

        def __iter__(self):
            return iter(self.items)
    return Array


class _StructMeta(_SimpleMeta):
    def __init__(cls, name, bases, ns):
        super().__init__(name, bases, ns)
        fields = []
        for k in reversed(cls.__mro__):
            f = k.__dict__.get("_fields_")
            if f:
                fields += list(f)
        pack = getattr(cls, "_pack_", None)
        off, al = 0, 1
        lay = []
        for f in fields:
            if len(f) > 2:
                raise Unsupported("bit fields")
            fname, t = f
            a = min(t.align, pack) if pack else t.align
            off = (off + a - 1) // a * a
            lay.append((fname, t, off))
            off += t.size
            al = max(al, a)
        cls.layout_, cls.align = lay, al
        cls.size = (off + al - 1) // al * al
        for fname, t, o in lay:
            setattr(cls, fname + "__field", types.SimpleNamespace(offset=o, size=t.size))


class Structure(CType, metaclass=_StructMeta):
    order_ = "little"

    def __init__(self, *a, **k):
        for (fname, t, o), v in zip(self.layout_, list(a) + [None] * len(self.layout_)):
            setattr(self, fname, v if v is not None else k.get(fname, 0))

    @classmethod
    def _load(cls, b):
        o = cls.__new__(cls)
        for fname, t, off in cls.layout_:
            part = b[off:off + t.size]
            if cls.order_ == "big":
                part = part[::-1]
            setattr(o, fname, t._value(part) if hasattr(t, "_value") else t._load(part))
        return o


class BigEndianStructure(Structure):
    order_ = "big"


def sizeof(t):
    if real_isinstance(t, type):
        return t.size
    return type(t).size


def make_ctypes():
    m = types.ModuleType("ctypes")
    m.Structure = m.LittleEndianStructure = Structure
    m.BigEndianStructure = BigEndianStructure
    m.sizeof = sizeof
    m.alignment = lambda t: (t if real_isinstance(t, type) else type(t)).align
    m.c_char, m.c_bool, m.Array = c_char, c_bool, CType
    for names, size, signed in [("c_int8 c_byte", 1, True), ("c_uint8 c_ubyte", 1, False), ("c_int16 c_short", 2, True), ("c_uint16 c_ushort", 2, False),
                                ("c_int32 c_int", 4, True), ("c_uint32 c_uint", 4, False), ("c_int64 c_long c_longlong c_ssize_t", 8, True),
                                ("c_uint64 c_ulong c_ulonglong c_size_t", 8, False)]:
        for n in names.split():
            setattr(m, n, _simple(n, size, signed))
    m.__getattr__ = lambda n: (_ for _ in ()).throw(Unsupported("ctypes." + n)) if not n.startswith("__") else (_ for _ in ()).throw(AttributeError(n))
    return m


# ---- struct
_FMT = {"b": (1, 1), "B": (1, 0), "h": (2, 1), "H": (2, 0), "i": (4, 1), "I": (4, 0), "l": (8, 1), "L": (8, 0), "q": (8, 1), "Q": (8, 0), "n": (8, 1), "N": (8, 0)}


def _parse(fmt):
    if real_isinstance(fmt, real_bytes):
        fmt = fmt.decode()
    native = not fmt or fmt[0] not in "<>=!"
    order = "big" if fmt[:1] in (">", "!") else "little"
    body = fmt[1:] if fmt[:1] in ("<", ">", "=", "!", "@") else fmt
    native = native or fmt[:1] == "@"
    out, off, num = [], 0, ""
    for c in body.replace(" ", ""):
        if c.isdigit():
            num += c
            continue
        k = real_int(num) if num else 1
        if c in ("s", "x"):
            if c == "s":
                out.append(("s", off, k, 0))
            off += k
        else:
            size, sg = _FMT[c]
            if not native and c in "lL":
                size = 4
            for _ in range(k):
                if native:
                    off = (off + size - 1) // size * size
                out.append((order, off, size, sg))
                off += size
        num = ""
    return out, off


class Struct_:
    def __init__(self, fmt):
        self.format = fmt
        self.f, self.size = _parse(fmt)

    def unpack_from(self, b, offset=0):
        if real_isinstance(offset, SymInt):
            offset = offset.__index__()
        if len(b) - offset < self.size:
            raise real_struct.error("unpack_from requires a buffer of at least %d bytes" % (offset + self.size))
        d = list(b[offset:offset + self.size])
        r = []
        for o, off, size, sg in self.f:
            p = d[off:off + size]
            if o == "s":
                r.append(SymBytes(p) if any(real_isinstance(x, SymInt) for x in p) else real_bytes(p))
            else:
                r.append(from_le(p if o == "little" else p[::-1], sg))
        return tuple(r)

    def unpack(self, b):
        if len(b) != self.size:
            raise real_struct.error("unpack requires a buffer of %d bytes" % self.size)
        return self.unpack_from(b)

    def iter_unpack(self, b):
        if not self.size or len(b) % self.size:
            raise real_struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % self.size)
        for o in range(0, len(b), self.size):
            yield self.unpack_from(b, o)

    def pack(self, *a):
        return real_struct.pack(self.format, *a)


def make_struct():
    m = types.ModuleType("struct")
    m.error, m.Struct, m.pack = real_struct.error, Struct_, real_struct.pack
    m.calcsize = lambda f: Struct_(f).size
    m.unpack = lambda f, b: Struct_(f).unpack(b)
    m.unpack_from = lambda f, b, offset=0: Struct_(f).unpack_from(b, offset)
    m.iter_unpack = lambda f, b: Struct_(f).iter_unpack(b)
    return m


# ---- files
class SymFile:
    """What open(..., "rb") would have returned"""
    name = "trace.tdag"

    def __init__(self, data):
        self.data, self.pos = data, 0
    def fileno(self): return self
    def read(self, n=-1):
        e = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        r = self.data[self.pos:e]
        self.pos = e
        return r
    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else self.pos + p if whence == 1 else len(self.data) + p
        return self.pos
    def tell(self): return self.pos
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def make_mmap():
    m = types.ModuleType("mmap")
    for n in dir(real_mmap):
        if n.isupper():
            setattr(m, n, getattr(real_mmap, n))

    class mmap_:
        def __new__(cls, fd, length, *a, **k):
            if real_isinstance(fd, SymFile):
                return fd.data if not length else fd.data[:length]
            return real_mmap.mmap(fd, length, *a, **k)
    m.mmap = mmap_
    return m


# ---- loading the real modules over these
def install(repo):
    """Modules of the polytracker package see the stand-ins; all others the real things."""
    _MAP.update({real_int: int_, real_str: str_, real_bytes: bytes_, real_bytearray: bytearray_})
    mods = {"ctypes": make_ctypes(), "struct": make_struct(), "mmap": make_mmap()}

    class _P(pathlib.Path().__class__, metaclass=_PathMeta):
        def __new__(cls, *a, **k):
            return make_path(*a)
    pl = types.ModuleType("pathlib")
    for n in dir(pathlib):
        setattr(pl, n, getattr(pathlib, n))
    pl.Path = pl.PosixPath = _P
    mods["pathlib"] = pl
    ns = dict(vars(builtins))
    ns.update({"int": int_, "str": str_, "bytes": bytes_, "bytearray": bytearray_, "memoryview": memoryview_, "isinstance": isinstance_})

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in mods:
            return mods[name]
        return builtins.__import__(name, globals, locals, fromlist, level)
    ns["__import__"] = imp

    class Loader(importlib.machinery.SourceFileLoader):
        def exec_module(self, module):
            module.__dict__["__builtins__"] = ns
            super().exec_module(module)

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path, target=None):
            if name != "polytracker" and not name.startswith("polytracker."):
                return None
            rel = os.path.join(repo, *name.split("."))
            for f, pkg in ((rel + "/__init__.py", True), (rel + ".py", False)):
                if os.path.exists(f):
                    return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[rel] if pkg else None)
            return None
    sys.meta_path.insert(0, Finder())

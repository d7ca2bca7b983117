"""Runtime for instrumented code: Python operations lifted to symbolic proxies."""
import builtins
import marshal
import operator
import re
import struct
import types
import z3
from symex import core, data
from symex.core import (SymBase, SymInt, SymBool, is_sym, Unsupported, concretize, ite, eq, lt, b_and, b_or, not_)
from symex.data import (SymBytesBase, SymBytes, SymByteArray, SymFloat, SymView, is_byteslike, blen, cells_of,
                        mkbytes)

_BUILTIN = type(len)
_CMETHOD = type(re.compile('').sub)     # (a subclass)
_METHWRAP = type(''.__add__)
_METHDESC = type(str.join)


def deep_sym(x, depth=3):
    if isinstance(x, SymBase):
        return True
    if depth and type(x) in (tuple, list):
        for y in x:
            if deep_sym(y, depth - 1):
                return True
    elif depth and type(x) is dict:
        for y in list(x.values()):
            if deep_sym(y, depth - 1):
                return True
    return False


# ---------------------------------------------------------------------------
# range

class SymRange(object):
    """range() with a symbolic bound: each step forks on whether there is another item"""
    __slots__ = ('a', 'b', 'step')

    def __init__(self, a, b, step):
        self.a = a
        self.b = b
        self.step = step

    def __iter__(self):
        i = self.a
        while True:
            more = (i < self.b) if self.step > 0 else (i > self.b)
            if not bool(more):
                return
            yield i
            i = i + self.step
            engine_loop()

    def _symlen(self):
        if self.step == 1:
            d = core.sub(core.as_int(self.b), core.as_int(self.a))
            return ite(lt(d, 0), 0, d)
        if self.step == -1:
            d = core.sub(core.as_int(self.a), core.as_int(self.b))
            return ite(lt(d, 0), 0, d)
        raise Unsupported('len of a stepped symbolic range')

    def __len__(self):
        return concretize(self._symlen())

    def __getitem__(self, i):
        return self.a + i * self.step


LOOP_LIMIT = [5000]


def engine_loop():
    pass


def sym_range(*args):
    args = [core.as_int(a) for a in args]
    for a in args:
        if a is NotImplemented:
            raise TypeError('range() needs integers')
    if len(args) == 1:
        a, b, s = 0, args[0], 1
    elif len(args) == 2:
        a, b = args
        s = 1
    else:
        a, b, s = args
        s = concretize(s)
    if s == 0:
        raise ValueError('range() arg 3 must not be zero')
    if not is_sym(a) and not is_sym(b):
        return range(a, b, s)
    return SymRange(a, b, s)


# ---------------------------------------------------------------------------
# struct

_FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
        'l': (8, True), 'L': (8, False), 'q': (8, True), 'Q': (8, False), 'f': (4, None), 'd': (8, None),
        'x': (1, 'pad'), '?': (1, False), 'c': (1, 'char'), 'n': (8, True), 'N': (8, False)}


def parse_fmt(fmt):
    if isinstance(fmt, SymBytesBase):
        fmt = data.concrete_bytes(fmt)
    if isinstance(fmt, (bytes, bytearray)):
        fmt = bytes(fmt).decode('ascii')
    order = '@'
    i = 0
    if fmt and fmt[0] in '@=<>!':
        order = fmt[0]
        i = 1
    off = 0
    out = []
    m = re.findall(r'(\d*)([a-zA-Z?])', fmt[i:])
    for cnt, ch in m:
        if ch not in _FMT:
            raise Unsupported('struct format %r' % fmt)
        size, kind = _FMT[ch]
        if order in '=<>!' and ch in 'lL':
            size = 4
        for _ in range(int(cnt) if cnt else 1):
            if order == '@':
                off = (off + size - 1) // size * size
            if kind != 'pad':
                out.append((off, size, kind, ch))
            off += size
    return out, off, order in '>!'


class _StructError(object):
    pass


def struct_calcsize(fmt):
    if isinstance(fmt, SymBytesBase):
        fmt = data.concrete_bytes(fmt)
    return struct.calcsize(fmt)


def _decode_field(cells, kind, size, big):
    if big:
        cells = cells[::-1]
    v = core.concat_le(cells)
    return _finish_field(v, kind, size)


def _finish_field(v, kind, size):
    if kind is None:
        if not is_sym(v):
            if size == 8:
                return struct.unpack('<d', struct.pack('<Q', v))[0]
            return struct.unpack('<f', struct.pack('<I', v))[0]
        return SymFloat(v, 8 * size)
    if kind == 'char':
        return mkbytes(core.split_le(v, 1))
    if kind is True:
        return core.wrap(v, 8 * size, True)
    return v


def struct_unpack_from(fmt, buffer, offset=0):
    fields, total, big = parse_fmt(fmt)
    n = blen(buffer)
    off = core.as_int(offset)
    if off is NotImplemented:
        raise TypeError('offset must be an integer')
    if is_sym(off) or is_sym(n):
        if bool(off < 0):
            if bool(off + total > 0):
                raise struct.error('not enough data to unpack')
            if bool(off + n < 0):
                raise struct.error('offset out of range')
            off = off + n
        if bool(off + total > n):
            raise struct.error('unpack_from requires a buffer')
    else:
        if off < 0:
            if off + total > 0 or off + n < 0:
                raise struct.error('offset out of range')
            off += n
        if off + total > n:
            raise struct.error('unpack_from requires a buffer')
    cells = cells_of(buffer)
    if is_sym(off):
        off = data.refine(off, 0, len(cells) - total)
    out = []
    for (fo, size, kind, ch) in fields:
        if big:
            out.append(_decode_field(data.read_cells(cells, off + fo, size), kind, size, True))
        else:
            out.append(_finish_field(data.read_word(cells, off + fo, size), kind, size))
    return tuple(out)


def struct_unpack(fmt, buffer):
    fields, total, big = parse_fmt(fmt)
    n = blen(buffer)
    if not bool(n == total):
        raise struct.error('unpack requires a buffer of %d bytes' % total)
    return struct_unpack_from(fmt, buffer)


def _pack_cells(fmt, args):
    fields, total, big = parse_fmt(fmt)
    if len(fields) != len(args):
        raise struct.error('pack expected %d items' % len(fields))
    cells = [0] * total
    for (fo, size, kind, ch), v in zip(fields, args):
        if kind is None:
            if not isinstance(v, (SymFloat, float, int)) and not hasattr(v, '__float__'):
                raise struct.error('required argument is not a float')
            c = core.split_le(data.float_bits(v, size * 8), size)
        elif kind == 'char':
            c = list(cells_of(v))
            if len(c) != 1:
                raise struct.error('char format requires a bytes object of length 1')
        elif ch == '?':
            c = core.split_le(core.ite(to_bool(v), 1, 0), 1)
        else:
            if isinstance(v, SymFloat) or isinstance(v, float):
                raise struct.error('required argument is not an integer')
            x = core.as_int(v)
            if x is NotImplemented:
                if hasattr(v, '__index__'):
                    x = operator.index(v)
                else:
                    raise struct.error('required argument is not an integer')
            bits = 8 * size
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if kind else (0, (1 << bits) - 1)
            xl, xh = core.rng(x)
            if xl < lo or xh > hi:
                if bool(b_or(x < lo, x > hi)):
                    raise struct.error('argument out of range')
            c = core.split_le(x, size)
        if big:
            c = c[::-1]
        cells[fo:fo + size] = c
    return cells, total


def struct_pack(fmt, *args):
    return mkbytes(_pack_cells(fmt, args)[0])


def struct_pack_into(fmt, buffer, offset, *args):
    if type(buffer) is bytearray:
        raise Unsupported('uninstrumented bytearray')
    if not isinstance(buffer, SymByteArray):
        raise TypeError('argument must be read-write bytes-like object')
    # CPython packs after having checked the offset
    off = core.as_int(offset)
    if off is NotImplemented:
        raise TypeError('offset must be an integer')
    fields, total, big = parse_fmt(fmt)
    if len(fields) != len(args):
        raise struct.error('pack_into expected %d items' % len(fields))
    inside = False
    if buffer.tail is not None:
        # stay in the materialised part when possible
        if core.CUR.holds(b_and(off >= 0, off + total <= len(buffer.cells))):
            inside = True
    if inside:
        cells = buffer.cells
    else:
        n = buffer.length()
        if is_sym(off) or is_sym(n):
            if bool(off < 0):
                if bool(off + total > 0):
                    raise struct.error('no space to pack')
                if bool(off + n < 0):
                    raise struct.error('offset out of range')
                off = off + n
            if bool(off + total > n):
                raise struct.error('pack_into requires a buffer')
        else:
            if off < 0:
                if off + total > 0 or off + n < 0:
                    raise struct.error('offset out of range')
                off += n
            if off + total > n:
                raise struct.error('pack_into requires a buffer')
        cells = buffer.settle()
    vals, total = _pack_cells(fmt, args)
    data.write_cells(cells, off, vals)


# ---------------------------------------------------------------------------
# builtins

def to_bool(x):
    """truth value as a bool or SymBool, without forking"""
    if isinstance(x, SymBool) or x is True or x is False:
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, SymFloat):
        return not_(x._iszero())
    if isinstance(x, SymBytesBase):
        return x.length() != 0
    return bool(x)


def s_len(x):
    if isinstance(x, SymBase) or isinstance(x, SymRange):
        m = getattr(x, '_symlen', None)
        if m is None:
            raise TypeError('object has no len()')
        return m()
    t = type(x)
    f = getattr(t, '__len__', None)
    if f is not None and isinstance(f, types.FunctionType):
        n = f(x)
        if is_sym(n):
            if bool(n < 0):
                raise ValueError('__len__() should return >= 0')
        return len(x) if not is_sym(n) and type(n) is not int else _checklen(n)
    return len(x)


def _checklen(n):
    if not is_sym(n) and n < 0:
        raise ValueError('__len__() should return >= 0')
    return n


def s_range(*args):
    if deep_sym(args, 1):
        return sym_range(*args)
    return range(*args)


class _Slot(object):
    pass


def s_bytes(*args, **kw):
    if not args:
        return bytes(*args, **kw)
    x = args[0]
    if isinstance(x, SymByteArray):
        if x.tail is not None:
            return data.SymPad(list(x.cells), x.tail, x.tailzero)
        return mkbytes(x.cells)
    if isinstance(x, SymBytesBase):
        return x
    if isinstance(x, (SymInt, SymBool)):
        if bool(x < 0):
            raise ValueError('negative count')
        return data.repeat(b'\x00', x)
    if isinstance(x, SymStrType()):
        return x.encode(*args[1:], **kw)
    if isinstance(x, (list, tuple)) and deep_sym(x, 1):
        return mkbytes([data.wrap_byte(c) for c in x])
    return bytes(*args, **kw)


def s_bytearray(*args, **kw):
    if not args:
        return SymByteArray([])
    x = args[0]
    if isinstance(x, (SymInt,)):
        if bool(x < 0):
            raise ValueError('negative count')
        r = SymByteArray([])
        r.tail = x
        return r
    if isinstance(x, int):
        if x < 0:
            raise ValueError('negative count')
        return SymByteArray([0] * x)
    if isinstance(x, str):
        return SymByteArray(list(x.encode(*args[1:], **kw)))
    if is_byteslike(x):
        return SymByteArray(list(cells_of(x)))
    return SymByteArray([data.wrap_byte(c) for c in x])


def SymStrType():
    from symex import symstr
    return symstr.SymStr


def s_isinstance(x, cls):
    if isinstance(x, SymBase):
        if type(cls) is tuple:
            return any(s_isinstance(x, c) for c in cls)
        c = pyclass(x)
        if cls in (int, float, bytes, bytearray, str, bool, object) or isinstance(cls, type):
            return issubclass(c, cls)
        return isinstance(x, cls)
    return isinstance(x, cls)


def pyclass(x):
    if isinstance(x, SymInt):
        return x.cls or int
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymBase):
        return x.__class__
    return type(x)


def s_type(*args):
    if len(args) == 1:
        return pyclass(args[0])
    return type(*args)


def s_int(*args, **kw):
    if args:
        x = args[0]
        if isinstance(x, SymInt):
            if x.cls is not None:
                y = SymInt(x.e, x.w, x.lo, x.hi, x.tz, x.src)
                return y
            return x
        if isinstance(x, SymBool):
            return x._int()
        if isinstance(x, SymBase):
            raise Unsupported('int() of %r' % x)
    return int(*args, **kw)


def s_boolf(*args):
    if not args:
        return False
    x = args[0]
    if isinstance(x, SymBase):
        return to_bool(x)
    r = to_bool_user(x)
    return r


def to_bool_user(x):
    return bool(x)


def s_str(*args, **kw):
    if args and isinstance(args[0], SymBase):
        x = args[0]
        if isinstance(x, SymStrType()):
            return x
        if TOKENS is not None and len(args) == 1 and not kw and \
                not (isinstance(x, SymInt) and x.cls is not None and isinstance(x.cls.__str__, types.FunctionType)):
            return token(x)
        if isinstance(x, SymInt):
            if x.cls is not None:
                f = x.cls.__str__
                if isinstance(f, types.FunctionType):
                    return f(x)
            return opaque(x)
        if isinstance(x, SymBool):
            return str(bool(x))
        if isinstance(x, SymBytesBase) and len(args) + len(kw) > 1:
            return x.decode(*args[1:], **kw)
        return opaque(x)
    if len(args) == 1 and not kw and not isinstance(args[0], type):
        f = type(args[0]).__str__
        if f is object.__str__ and isinstance(type(args[0]).__repr__, types.FunctionType):
            return s_repr(args[0])
        if isinstance(f, types.FunctionType):
            r = f(args[0])
            if isinstance(r, (str, SymStrType())):
                return r
            raise TypeError('__str__ returned non-string')
    return str(*args, **kw)


# while code is generated: name -> value, for the symbolic values which the code contains
TOKENS = None


def token(x):
    """text which denotes x in generated code: a name which is bound to x when the code runs"""
    if isinstance(x, SymBool):
        return repr(bool(x))
    if type(x).__name__ == 'SymFloat':
        if bool(core.not_(x == x)):
            return 'nan'
        for v in ('inf', '-inf'):
            if bool(x == float(v)):
                return v
    for k, v in TOKENS.items():
        if v is x:
            return k
    name = '_vsym_%d_' % len(TOKENS)
    TOKENS[name] = x
    return name


def some_float(x):
    """a value with many digits, to see what becomes of it where text is made of it with a limited precision; what this does
    to the other values is not known"""
    for v in (1000.00006103515625 if x.w == 32 else 0.1 + 0.2, -2.0000001192092896, 1.7e300 / 3, -1.0 / 3, 0.1):
        if x.w == 32:
            v = struct.unpack('<f', struct.pack('<f', v))[0] if abs(v) < 1e38 else v
        if bool(x == v):
            return v
    raise Unsupported('text of a number with a format')


def opaque(x):
    if TOKENS is not None:
        return token(x)
    return '<sym>'


def s_repr(x):
    if isinstance(x, SymBase):
        if TOKENS is not None:
            return token(x)
        if isinstance(x, SymInt) and x.cls is not None and isinstance(x.cls.__repr__, types.FunctionType):
            return x.cls.__repr__(x)
        from symex import symstr
        return symstr.sym_repr(x)
    f = type(x).__repr__
    if isinstance(f, types.FunctionType):
        # it might give symbolic text
        r = f(x)
        if isinstance(r, (str, SymStrType())):
            return r
        raise TypeError('__repr__ returned non-string')
    return repr(x)


def s_ord(x):
    if isinstance(x, SymBytesBase):
        c = cells_of(x)
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return c[0]
    if isinstance(x, SymStrType()):
        return x.ord()
    return ord(x)


def s_chr(x):
    if isinstance(x, SymInt):
        from symex import symstr
        return symstr.chr_(x)
    return chr(x)


def _minmax(args, kw, less):
    if kw:
        raise Unsupported('min/max with key')
    if len(args) == 1:
        args = list(args[0])
    r = args[0]
    for a in args[1:]:
        if is_sym(r) or is_sym(a):
            c = (a < r) if less else (a > r)
            r = ite(c, a, r)
        else:
            if (a < r) if less else (a > r):
                r = a
    return r


def s_min(*args, **kw):
    if deep_sym(args, 2):
        return _minmax(args, kw, True)
    return min(*args, **kw)


def s_max(*args, **kw):
    if deep_sym(args, 2):
        return _minmax(args, kw, False)
    return max(*args, **kw)


def s_abs(x):
    if isinstance(x, SymInt):
        return ite(x < 0, -x, x)
    return abs(x)


def s_divmod(a, b):
    if is_sym(a) or is_sym(b):
        a, b = core.as_int(a), core.as_int(b)
        return core.floordiv(a, b), core.mod(a, b)
    return divmod(a, b)


def s_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


_UF = {}


def uf(name, *sizes):
    key = (name,) + sizes
    f = _UF.get(key)
    if f is None:
        f = _UF[key] = z3.Function('uf_%s_%s' % (name, '_'.join(map(str, sizes))),
                                   *([z3.BitVecSort(s) for s in sizes] + [z3.BitVecSort(64)]))
    return f


def hash64(e):
    return SymInt.make(e, 64, -(1 << 63), (1 << 63) - 1)


def s_hash(x):
    if isinstance(x, SymBase):
        from symex import hashing
        return hashing.sym_hash(x)
    if type(x) in (bytes, str, float) and core.CUR is not None:
        from symex import hashing
        return hashing.sym_hash(x)
    if type(x) is tuple and core.CUR is not None:
        from symex import hashing
        return hashing.tuple_hash([s_hash(y) for y in x])
    t = type(x)
    f = getattr(t, '__hash__', None)
    if isinstance(f, types.FunctionType):
        h = f(x)
        if is_sym(h):
            from symex import hashing
            return hashing.finish(h)
        return hash(x) if False else _pyhash(h)
    return hash(x)


def _pyhash(h):
    return -2 if h == -1 else h if -(1 << 63) <= h < (1 << 63) else hash(h)


def s_getattr(o, name, *d):
    if isinstance(name, SymBase):
        name = str(name)
    return getattr(o, name, *d)


def s_list(*args):
    if args:
        return list(iter_of(args[0]))
    return []


def s_tuple(*args):
    if args and not isinstance(args[0], tuple):
        return tuple(iter_of(args[0]))
    return tuple(*args)


def iter_of(x):
    return x


def s_sorted(x, **kw):
    return sorted(x, **kw)


def s_from_bytes(b, byteorder='big', signed=False):
    if isinstance(b, SymBytesBase):
        return data.int_from_bytes(b, byteorder, signed)
    return int.from_bytes(b, byteorder, signed=signed)


def s_index(x):
    if isinstance(x, (SymInt,)):
        return x
    return operator.index(x)


def s_memoryview(x):
    if isinstance(x, SymBytesBase):
        return x
    return memoryview(x)


def marshal_dumps(x, *a):
    if deep_sym(x):
        return Marshalled(x)
    return marshal.dumps(x, *a)


class Marshalled(object):
    """opaque result of marshal.dumps on symbolic values: only marshal.loads can look inside"""
    def __init__(self, x):
        self.x = _marshal_copy(x)


def _marshal_copy(x):
    if type(x) is tuple:
        return tuple(_marshal_copy(y) for y in x)
    if type(x) is list:
        return [_marshal_copy(y) for y in x]
    if isinstance(x, SymByteArray):
        return mkbytes(x.settle())
    if isinstance(x, SymBytesBase) or isinstance(x, SymBase):
        return x
    if x is None or isinstance(x, (int, str, bytes, float, bool)):
        if type(x) not in (int, str, bytes, float, bool, type(None)):
            raise ValueError('unmarshallable object')
        return x
    raise ValueError('unmarshallable object')


def marshal_loads(x, *a):
    if isinstance(x, Marshalled):
        return _marshal_copy(x.x)
    return marshal.loads(x, *a)


def s_enumerate(it, start=0):
    return enumerate(it, start)


def s_any(it):
    for x in it:
        if x:
            return True
    return False


def s_all(it):
    for x in it:
        if not x:
            return False
    return True


def s_callable(x):
    return callable(x)


def s_id(x):
    return id(x)


import six
SHIMS = {
    len: s_len, range: s_range, bytes: s_bytes, bytearray: s_bytearray, isinstance: s_isinstance,
    type: s_type, int: s_int, bool: s_boolf, str: s_str, repr: s_repr, ord: s_ord, chr: s_chr, min: s_min,
    max: s_max, abs: s_abs, divmod: s_divmod, sum: s_sum, hash: s_hash, list: s_list, tuple: s_tuple,
    memoryview: s_memoryview, any: s_any, all: s_all,
    struct.unpack_from: struct_unpack_from, struct.unpack: struct_unpack, struct.pack: struct_pack,
    struct.pack_into: struct_pack_into, struct.calcsize: struct_calcsize,
    marshal.dumps: marshal_dumps, marshal.loads: marshal_loads, operator.index: s_index,
    operator.lt: lambda a, b: a < b, operator.eq: lambda a, b: a == b,
}
# never replaced when the arguments are concrete
_ALWAYS = (bytearray, struct.pack_into, struct.unpack_from, struct.unpack, marshal.loads, len, hash, bytes)


def _path_shims():
    from symex import paths
    SHIMS.update(paths.shims())
    SHIMS['paths'] = None


def _shim_of(f):
    if 'paths' not in SHIMS:
        _path_shims()
    try:
        return SHIMS.get(f)
    except TypeError:
        return None


def call(f, /, *args, **kw):
    s = _shim_of(f)
    if s is not None:
        return s(*args, **kw)
    t = type(f)
    if t is _BUILTIN or t is _CMETHOD:
        o = f.__self__
        to = type(o)
        if to in (str, bytes, bytearray):
            if args and (deep_sym(args)):
                return _str_method(o, f.__name__, args, kw)
        elif to is slice and f.__name__ == 'indices':
            if is_sym(args[0]) or deep_sym((o.start, o.stop, o.step)):
                return slice_indices(o, args[0])
        elif to is dict:
            if args and (isinstance(args[0], SymBase) or _symdict(o) or _symkey(args[0])):
                return _dict_method(o, f.__name__, args, kw)
        elif o is int and f.__name__ == 'from_bytes':
            return s_from_bytes(*args, **kw)
        elif to is list:
            if f.__name__ == 'extend' and args and isinstance(args[0], SymBytesBase):
                return o.extend(cells_of(args[0]))
        elif to is struct.Struct:
            return _struct_method(o, f.__name__, args, kw)
        elif isinstance(o, re.Pattern):
            if deep_sym(args):
                from symex import symstr
                return symstr.regex_method(o, f.__name__, args, kw)
    elif isinstance(f, type):
        if args:
            if issubclass(f, int) and f is not int and isinstance(args[0], (SymInt, SymBool)) and len(args) == 1:
                return int_subclass(f, args[0])
            if issubclass(f, (str, bytes)) and isinstance(args[0], SymBase):
                raise Unsupported('%s(symbolic)' % f.__name__)
            if issubclass(f, BaseException) and deep_sym(args):
                return f(*[opaque(a) if deep_sym(a) else a for a in args])
    elif t is _METHDESC:
        if deep_sym(args):
            return _method_descr(f, args, kw)
    return f(*args, **kw)


def _struct_method(o, name, args, kw):
    if name == 'pack':
        return struct_pack(o.format, *args)
    if name == 'unpack':
        return struct_unpack(o.format, *args)
    if name == 'unpack_from':
        return struct_unpack_from(o.format, *args, **kw)
    if name == 'pack_into':
        return struct_pack_into(o.format, *args)
    return getattr(o, name)(*args, **kw)


def _method_descr(f, args, kw):
    o = args[0]
    if isinstance(o, SymBase):
        return getattr(o, f.__name__)(*args[1:], **kw)
    if type(o) in (str, bytes, bytearray):
        return _str_method(o, f.__name__, args[1:], kw)
    return f(*args, **kw)


def int_subclass(cls, x):
    x = core.as_int(x)
    if not isinstance(x, SymInt):
        return cls(x)
    init = cls.__dict__.get('__new__') or cls.__init__
    if isinstance(init, types.FunctionType):
        raise Unsupported('int subclass with __init__')
    y = SymInt(x.e, x.w, x.lo, x.hi, x.tz, x.src)
    y.cls = cls
    return y


def _str_method(o, name, args, kw):
    if isinstance(o, (bytes, bytearray)):
        if name == 'join':
            return data.join(o, args[0])
        if isinstance(args[0], SymBytesBase) or deep_sym(args):
            p = data.SymBytes(list(o))
            return getattr(p, name)(*args, **kw)
    else:
        from symex import symstr
        return symstr.str_method(o, name, args, kw)
    raise Unsupported('%s.%s' % (type(o).__name__, name))


def _dict_method(o, name, args, kw):
    k = args[0]
    if name == 'get':
        d = args[1] if len(args) > 1 else None
        kk = _dict_find(o, k)
        return d if kk is _MISSING else _dict_value(o, kk)
    if _symdict(o):
        if name == '__contains__':
            return _dict_find(o, k) is not _MISSING
        if name == 'setdefault':
            kk = _dict_find(o, k)
            if kk is not _MISSING:
                return _dict_value(o, kk)
            _dict_set(o, k, args[1] if len(args) > 1 else None)
            return _dict_value(o, k)
        raise Unsupported('dict.%s with symbolic keys' % name)
    if name in ('setdefault', 'pop', '__contains__'):
        kk = concretize_key(k)
        return getattr(o, name)(kk, *args[1:], **kw)
    return getattr(o, name)(*args, **kw)


class _MISSING(object):
    pass


def _dict_find(d, k):
    for kk in d:
        if type(kk) is str and isinstance(k, SymInt):
            continue
        if bool(kk == k):
            return kk
    return _MISSING


# dictionaries with symbolic strings as keys (their Python hash is not meaningful): id -> dictionary
_SYMDICTS = {}


def _symkey(k):
    return isinstance(k, (SymBytesBase, SymStrType())) or type(k) is tuple and deep_sym(k)


def _symdict(o):
    return _SYMDICTS and id(o) in _SYMDICTS


def _dict_value(o, key):
    if not _symdict(o):
        return o[key]
    for k, v in o.items():
        if k is key:
            return v
    raise KeyError('<sym>')


def _dict_set(o, k, v):
    """for keys which are symbolic strings, or contain symbolic values"""
    kk = _dict_find(o, k)
    if kk is _MISSING:
        kk = k
        if _symkey(k):
            if len(_SYMDICTS) > 1000:
                _SYMDICTS.clear()       # (of other paths)
            _SYMDICTS[id(o)] = o
    core.RAW_HASH = True
    try:
        o[kk] = v
    finally:
        core.RAW_HASH = False


def concretize_key(k):
    if isinstance(k, SymInt):
        return concretize(k)
    if isinstance(k, SymBytesBase):
        return data.concrete_bytes(k)
    raise Unsupported('symbolic key')


def slice_indices(s, n):
    if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
        step = concretize(s.step)
        n = concretize(n)
        return slice(None if s.start is None else concretize(s.start),
                     None if s.stop is None else concretize(s.stop), step).indices(n)
    if not is_sym(n) and n < 0:
        raise ValueError('length should not be negative')
    if is_sym(n) and bool(n < 0):
        raise ValueError('length should not be negative')
    a = 0 if s.start is None else data.norm_index(s.start, n)
    b = n if s.stop is None else data.norm_index(s.stop, n)
    return (a, b, 1)


# ---------------------------------------------------------------------------
# subscripts

def getitem(o, i):
    t = type(o)
    if isinstance(o, SymBytesBase):
        return data.getitem(o, i)
    if isinstance(i, SymBase) or (type(i) is slice and deep_sym((i.start, i.stop, i.step))):
        if t in (bytes, bytearray):
            return data.getitem(o, i)
        if t is str:
            from symex import symstr
            return symstr.SymStr([ord(c) for c in o])[i]
        if t in (list, tuple):
            if type(i) is slice:
                a, n = data.slice_bounds(i, len(o))
                a, n = concretize(a), concretize(n)
                return o[a:a + n]
            if isinstance(i, (SymInt, SymBool)):
                return seq_index(o, i)
        if t is dict:
            kk = _dict_find(o, i)
            if kk is _MISSING:
                raise KeyError('<sym>')
            return _dict_value(o, kk)
        if isinstance(o, (list, tuple)):
            return seq_index(o, i)
    if t is dict and (_symdict(o) or type(i) is tuple and deep_sym(i)):
        kk = _dict_find(o, i)
        if kk is _MISSING:
            raise KeyError(i)
        return _dict_value(o, kk)
    return o[i]


def seq_index(o, i):
    n = len(o)
    i = core.as_int(i)
    if bool(i < 0):
        i = i + n
        if bool(i < 0):
            raise IndexError('index out of range')
    if bool(i >= n):
        raise IndexError('index out of range')
    i = data.refine(i, 0, n - 1)
    if not is_sym(i):
        return o[i]
    if all(type(x) in (int, SymInt) for x in o):
        return data.mux([(k, o[k]) for k in range(i.lo, i.hi + 1)], i, 1)
    return o[concretize(i)]


def setitem(o, i, v):
    if isinstance(o, SymBytesBase):
        return data.setitem(o, i, v)
    if isinstance(i, SymBase):
        if type(o) is list:
            i = concretize(i)
        elif type(o) is dict:
            if _symkey(i):
                return _dict_set(o, i, v)
            i = concretize_key(i)
    if type(o) is dict and (_symdict(o) or type(i) is tuple and deep_sym(i)):
        return _dict_set(o, i, v)
    o[i] = v


def delitem(o, i):
    del o[i]


def mod(a, b):
    if isinstance(a, (str, bytes)) and deep_sym(b) or isinstance(a, SymStrType()):
        from symex import symstr
        return symstr.str_mod(a, b)
    return a % b


def contains(a, b):
    """a in b"""
    if isinstance(a, SymBase) or deep_sym(b, 1) or type(b) is dict and (_symdict(b) or _symkey(a)):
        if type(b) in (bytes, bytearray):
            return bool(data.find(b, a) != -1)
        if type(b) is dict:
            return _dict_find(b, a) is not _MISSING
        if type(b) is str:
            from symex import symstr
            return symstr.SymStr([ord(c) for c in b]).__contains__(a)
        if type(b) in (set, frozenset):
            return any(bool(x == a) for x in b)
        if isinstance(b, range):
            return bool(b_and(a >= b.start, a < b.stop)) if b.step == 1 else a in list(b)
    return a in b


def fmt(x, conv, spec):
    """f-string piece"""
    if isinstance(x, SymBase):
        from symex import symstr
        if isinstance(x, symstr.SymStr) and not spec and conv in (-1, 115):
            return x
        if spec and TOKENS is not None and type(x).__name__ == 'SymFloat':
            return format(some_float(x), spec)
        return opaque(x)
    if conv == 114:
        x = s_repr(x)
    elif conv == 115:
        x = s_str(x)
    elif conv == 97:
        x = ascii(x)
    return format(x, spec)


def joinstr(*parts):
    if deep_sym(parts, 1):
        from symex import symstr
        return symstr.concat(parts)
    return ''.join(parts)


def setitem_v(v, o, i):
    setitem(o, i, v)

"""C semantics for the code which symex.cyx derives from Cython's typed trees (x86-64, -fwrapv)."""
import importlib
import struct
import sys

from symex import core, data
from symex.core import SymInt, SymBool, SymBase, Unsupported, as_int, b_or, b_and, eq, wrap, is_sym
from symex.data import CPtr, Mem, SymFloat, SymByteArray, SymBytes


class CT(object):
    """a C type: kind in int, float, ptr, void, obj, arr"""
    __slots__ = ('kind', 'size', 'signed', 'name', 'base', 'n')

    def __init__(self, kind, size, signed=False, name='', base=None, n=0):
        self.kind = kind
        self.size = size
        self.signed = signed
        self.name = name
        self.base = base
        self.n = n

    def __repr__(self):
        return self.name or '%s%d' % (self.kind, 8 * self.size)

    def key(self):
        return (self.kind, self.size, self.signed)


I8 = CT('int', 1, True, 'int8_t')
U8 = CT('int', 1, False, 'uint8_t')
I16 = CT('int', 2, True, 'int16_t')
U16 = CT('int', 2, False, 'uint16_t')
I32 = CT('int', 4, True, 'int')
U32 = CT('int', 4, False, 'unsigned int')
I64 = CT('int', 8, True, 'long')
U64 = CT('int', 8, False, 'unsigned long')
F32 = CT('float', 4, True, 'float')
F64 = CT('float', 8, True, 'double')
VOID = CT('void', 0, False, 'void')
OBJ = CT('obj', 8, False, 'object')
BINT = CT('int', 4, True, 'bint')
INTS = {(1, True): I8, (1, False): U8, (2, True): I16, (2, False): U16, (4, True): I32, (4, False): U32,
        (8, True): I64, (8, False): U64}


def ptr_to(ct):
    return CT('ptr', 8, False, '%r*' % ct, ct)


def arr_of(ct, n):
    return CT('arr', ct.size * n, False, '%r[%d]' % (ct, n), ct, n)


def tup_of(cts):
    return CT('tup', 0, False, '(%s)' % ', '.join(map(repr, cts)), tuple(cts))


def int_range(ct):
    b = 8 * ct.size
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ct.signed else (0, (1 << b) - 1)


def fits(a, b):
    """every value of integer type a is a value of b"""
    la, ha = int_range(a)
    lb, hb = int_range(b)
    return lb <= la and ha <= hb


def promote(ct):
    return I32 if ct.size < 4 else (I32 if ct is BINT else ct)


def usual(a, b):
    """usual arithmetic conversions"""
    if a.kind == 'float' or b.kind == 'float':
        if a.kind == b.kind == 'float':
            return a if a.size >= b.size else b
        return a if a.kind == 'float' else b
    a, b = promote(a), promote(b)
    if a.size != b.size:
        r = a if a.size > b.size else b
    else:
        r = a if not a.signed else b
    return INTS[(r.size, r.signed)]


# -- values -------------------------------------------------------------------

def w(v, bits, signed):
    """C conversion to an integer type"""
    t = type(v)
    if t is int:
        v &= (1 << bits) - 1
        if signed and v >> (bits - 1):
            v -= 1 << bits
        return v
    if t is bool:
        return int(v)
    if isinstance(v, SymBool):
        v = v._int()
    if isinstance(v, SymFloat):
        raise Unsupported('conversion of a symbolic float to an integer')
    if isinstance(v, float):
        return w(int(v), bits, signed)
    return wrap(v, bits, signed)


def i(v):
    """a C integer operand"""
    t = type(v)
    if t is int or t is SymInt:
        return v
    if t is bool:
        return int(v)
    if isinstance(v, SymBool):
        return v._int()
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (float, SymFloat)):
        return v
    if isinstance(v, CPtr):
        return v
    raise Unsupported('C integer expected, not %r' % type(v).__name__)


def fdiv(a, b, bits, signed):
    if isinstance(b, SymInt):
        if bool(eq(b, 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
    elif b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    return w(a // b, bits, signed)


def fmod(a, b, bits, signed):
    if isinstance(b, SymInt):
        if bool(eq(b, 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
    elif b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    return w(a % b, bits, signed)


def cdivmod(a, b, bits, signed):
    return fdiv(a, b, bits, signed), fmod(a, b, bits, signed)


def mul(a, b, bits):
    """product modulo 2**bits; equal operands of the multipliers of hash functions become the same term"""
    if type(a) is int and (isinstance(b, SymInt) or _big(a, bits) and not _big(b, bits)):
        a, b = b, a
    if type(b) is int and _big(b, bits):
        e = core.CUR
        if isinstance(a, SymInt):
            x = core.at(a, bits) if a.w <= bits else core.trunc(a.e, bits, a.w)
        elif e is not None and hasattr(e, 'canons'):
            x = core.bv_const(a, bits)
        else:
            return w(a * b, bits, True)
        return e.product(x, b & ((1 << bits) - 1), bits)
    return w(a * b, bits, True)


def _big(n, bits):
    return bits > 32 and bin(n & ((1 << bits) - 1)).count('1') > 6


def shl(a, n, bits, signed):
    n = _count(n, bits)
    return w(a << n, bits, signed)


def shr(a, n, bits, signed):
    n = _count(n, bits)
    return w(a >> n, bits, signed)


def _count(n, bits):
    if isinstance(n, SymInt):
        if n.lo < 0 or n.hi >= bits:
            # (undefined in C: x86 masks the count)
            n = n & (bits - 1)
        return n
    return n & (bits - 1) if not 0 <= n < bits else n


def second(a, b):
    return b


def lor(a, b):
    return b_or(a, b)


def land(a, b):
    return b_and(a, b)


def lnot(a):
    return core.not_(a)


def truth(x):
    if isinstance(x, (SymBool, bool)):
        return x
    if isinstance(x, CPtr):
        return x.mem is not None
    if isinstance(x, SymInt):
        return x != 0
    from symex import rt
    return rt.to_bool(x)


def ite(c, a, b):
    if isinstance(c, SymInt):
        c = c != 0
    return core.ite(c, a, b)


def int_from_py(v, bits, signed):
    t = type(v)
    if t is not int:
        if t is bool:
            v = int(v)
        elif isinstance(v, SymBool):
            v = v._int()
        elif t is SymInt:
            pass
        elif isinstance(v, SymFloat):
            raise Unsupported('conversion of a symbolic float to an integer')
        elif isinstance(v, int):
            v = int(v)
        elif v is None or isinstance(v, (str, bytes, bytearray, list, tuple, SymBase)):
            raise TypeError('an integer is required')
        elif isinstance(v, float):
            v = int(v)
        elif hasattr(type(v), '__int__'):
            from symex import rt
            v = rt.call(int, v)
        else:
            raise TypeError('an integer is required')
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if type(v) is int:
        if lo <= v <= hi:
            return v
        raise OverflowError('value too large to convert')
    if v.lo < lo or v.hi > hi:
        if bool(b_or(v < lo, v > hi)):
            raise OverflowError('value too large to convert')
        v = wrap(v, bits, signed)
    return v


def _inf32(v):
    try:
        return struct.unpack('<f', struct.pack('<f', v))[0]
    except OverflowError:
        return float('inf') if v > 0 else float('-inf')


def float_from_py(v, size):
    if isinstance(v, SymFloat):
        return v
    if isinstance(v, (SymInt, SymBool)):
        v = as_int(v)
        if size == 8 and -(1 << 53) <= v.lo and v.hi <= 1 << 53:
            return int_to_float(v)
        raise Unsupported('symbolic integer to float')
    if isinstance(v, (str, bytes, bytearray, SymBase)) or v is None:
        raise TypeError('must be real number, not %s' % type(v).__name__)
    v = float(v)
    return v if size == 8 else _inf32(v)


def int_to_float(v):
    raise Unsupported('symbolic integer to float')


def wf(v, size):
    """C conversion to a floating type"""
    if isinstance(v, SymFloat):
        if size == 4 and v.w == 64:
            return Narrow(v)
        return v
    if isinstance(v, (SymInt, SymBool)):
        raise Unsupported('symbolic integer to float')
    v = float(v)
    return v if size == 8 else _inf32(v)


def Narrow(v):
    raise Unsupported('narrowing a symbolic float')


def to_bool(v):
    """bint -> Python"""
    if isinstance(v, SymInt):
        return v != 0
    if isinstance(v, (SymBool, bool)):
        return v
    return bool(v)


def ptr_from_py(v, ct):
    if v is None or not data.is_byteslike(v):
        raise TypeError('expected bytes, %s found' % type(v).__name__)
    p = as_string(v)
    return CPtr(p.mem, p.off, ct)


# -- typed arguments and tests --------------------------------------------------

_EXACT = (bytes, bytearray, list, tuple, dict, set, frozenset, str)


def is_instance(x, cls):
    from symex import rt
    if cls in _EXACT:
        t = type(x)
        if t is cls:
            return True
        return isinstance(x, SymBase) and rt.pyclass(x) is cls
    return bool(rt.s_isinstance(x, cls))


def typetest(x, cls, none_ok=True):
    if x is None:
        if none_ok:
            return x
        raise TypeError('Cannot convert NoneType to %s' % cls.__name__)
    if type(x) is cls or is_instance(x, cls):
        return x
    raise TypeError('Cannot convert %s to %s' % (type(x).__name__, cls.__name__))


def argtest(x, cls, name, none_ok=True):
    if type(x) is cls:
        return x
    if x is None:
        if none_ok:
            return x
    elif is_instance(x, cls):
        return x
    raise TypeError("Argument '%s' has incorrect type (expected %s, got %s)" % (name, cls.__name__, type(x).__name__))


def notnone(x, exc, msg):
    if x is None:
        raise exc(msg)
    return x


def lazy_class(modname, name):
    got = []

    def get():
        if not got:
            m = importlib.import_module(modname)
            got.append(getattr(m, name))
        return got[0]
    return get


class Namespace(object):
    """the C level names of a module"""

    def __init__(self, name):
        self.__dict__['__name'] = name


SPACES = {}
FUNCS = {}          # C name -> function


def space(name):
    ns = SPACES.get(name)
    if ns is None:
        ns = SPACES[name] = Namespace(name)
    return ns


def foreign(name):
    """namespace of a cimported module"""
    if name not in sys.modules:
        importlib.import_module(name)
    return space(name)


def register(ns, name, cname, f):
    setattr(ns, name, f)
    if cname:
        FUNCS[cname] = f
    return f


def noexcept(zero):
    def deco(f):
        def wrapper(*args):
            try:
                return f(*args)
            except Exception as e:
                if type(e) is RecursionError:
                    raise           # (of the engine: no limit in the code)
                return zero         # (reported as unraisable, and lost)
        wrapper.__name__ = f.__name__
        return wrapper
    return deco


def builtin_result(v):
    """C result of a builtin method"""
    if v is None:
        return 0
    return truth(v) if isinstance(v, (bool, SymBool)) else v


def import_(name, top):
    m = importlib.import_module(name)
    return sys.modules[name.split('.')[0]] if top else m


# -- classes ------------------------------------------------------------------------

def new_of(cinit, cls_getter):
    """__new__ of a cdef class: attributes are zeroed, then the chain of __cinit__ runs, base class first"""
    def __new__(cls, *args, **kw):
        me = cls_getter()
        self = object.__new__(cls)
        for k in cls.__mro__:
            ini = k.__dict__.get('_c_init')
            if ini:
                for name, v in ini:
                    object.__setattr__(self, name, v)
        for k in reversed(cls.__mro__):
            ci = k.__dict__.get('_c_cinit')
            if ci is not None:
                if ci[1]:
                    ci[0](self)
                else:
                    ci[0](self, *args, **kw)
        return self
    return __new__


class CMeta(type):
    """extension types do not let their attributes be set"""

    def __setattr__(cls, name, v):
        if '_c_ext' in cls.__dict__:
            raise TypeError("cannot set '%s' attribute of immutable type '%s'" % (name, cls.__name__))
        type.__setattr__(cls, name, v)

    @property
    def __flags__(cls):
        f = type.__dict__['__flags__'].__get__(cls)
        return f & ~(1 << 9) if '_c_ext' in cls.__dict__ else f

    def __delattr__(cls, name):
        if '_c_ext' in cls.__dict__:
            raise TypeError("cannot set '%s' attribute of immutable type '%s'" % (name, cls.__name__))
        type.__delattr__(cls, name)


class CObject(object):
    __slots__ = ()

    def __new__(cls, *args, **kw):
        self = object.__new__(cls)
        for k in cls.__mro__:
            ini = k.__dict__.get('_c_init')
            if ini:
                for name, v in ini:
                    setattr(self, name, v)
        for k in reversed(cls.__mro__):
            ci = k.__dict__.get('_c_cinit')
            if ci is not None:
                if ci[1]:
                    ci[0](self)
                else:
                    ci[0](self, *args, **kw)
        return self

    def __init__(self, *args, **kw):
        # like object.__init__: extra arguments are fine if __cinit__ takes them
        if args or kw:
            for k in type(self).__mro__:
                if k.__dict__.get('_c_cinit') is not None:
                    return
            raise TypeError('%s() takes no arguments' % type(self).__name__)

    def __reduce_ex__(self, proto):
        # Cython generates __reduce_cython__ for classes without __cinit__ and with plain attributes
        f = getattr(type(self), '__reduce__', None)
        if f is not None and f is not object.__reduce__:
            return self.__reduce__()
        raise Unsupported('default pickling of a cdef class')


RICH = [('__lt__', 0), ('__le__', 1), ('__eq__', 2), ('__ne__', 3), ('__gt__', 4), ('__ge__', 5)]


def add_richcmp(ns):
    f = ns.get('__richcmp__')
    if f is None:
        return

    def mk(op, name):
        def cmp(self, other):
            return f(self, other, op)
        cmp.__name__ = name
        return cmp
    for name, op in RICH:
        ns[name] = mk(op, name)
    del ns['__richcmp__']


# -- memory ---------------------------------------------------------------------------

class CArr(object):
    """C variables whose address is taken: an array of whole values"""
    __slots__ = ('v', 'ct')

    def __init__(self, ct, n, init=None):
        self.ct = ct
        self.v = [init] * n


NULL = CPtr(None, 0, VOID)


def addr(arr, idx=0):
    return CPtr(arr, idx * arr.ct.size, arr.ct)


def padd(p, n):
    """pointer + integer"""
    if p.mem is None:
        _null()
    size = p.ct.size or 1
    off = p.off + (n * size if size != 1 else n)
    if isinstance(off, SymInt):
        off = wrap(off, 64, True)
    return CPtr(p.mem, off, p.ct)


def pcast(p, ct):
    if isinstance(p, CArr):
        p = addr(p)
    if not isinstance(p, CPtr):
        if isinstance(p, int) and p == 0:
            return NULL
        raise Unsupported('cast of an integer to a pointer')
    return CPtr(p.mem, p.off, ct)


def psub(a, b):
    if a.mem is not b.mem:
        raise Unsupported('difference of unrelated pointers')
    return (a.off - b.off) // (a.ct.size or 1)


def peq(a, b):
    if a.mem is None or b.mem is None:
        return a.mem is None and b.mem is None
    if a.mem is not b.mem:
        return False
    return eq(a.off, b.off)


def _null():
    e = core.engine()
    e._fail('memory: access through a null pointer')


def _arr_index(p):
    a = p.mem
    off = p.off
    if isinstance(off, SymInt):
        off = core.concretize(off)
    if off % a.ct.size or not 0 <= off // a.ct.size < len(a.v):
        data.bounds_fail('access outside a C array')
    return a, off // a.ct.size


def load(p, n=0):
    if isinstance(p, CArr):
        p = addr(p)
    ct = p.ct
    if not (type(n) is int and n == 0):
        p = padd(p, n)
    if p.mem is None:
        _null()
    if isinstance(p.mem, CArr):
        a, k = _arr_index(p)
        if a.ct.key() != ct.key():
            raise Unsupported('reinterpretation of a C array')
        v = a.v[k]
        if v is None:
            data.bounds_fail('use of an uninitialised C array item')
        return v
    v = data.mem_read(p, ct.size)
    if ct.kind == 'int':
        return wrap(v, 8 * ct.size, True) if ct.signed else v
    if ct.kind == 'float':
        if type(v) is int:
            return struct.unpack('<d' if ct.size == 8 else '<f', v.to_bytes(ct.size, 'little'))[0]
        return SymFloat(v, 8 * ct.size)
    raise Unsupported('load of %r' % ct)


def store(p, n, v):
    """p[n] = v"""
    if isinstance(p, CArr):
        p = addr(p)
    ct = p.ct
    if not (type(n) is int and n == 0):
        p = padd(p, n)
    if p.mem is None:
        _null()
    if isinstance(p.mem, CArr):
        a, k = _arr_index(p)
        a.v[k] = v
        return
    if ct.kind == 'float':
        v = data.float_bits(v, 8 * ct.size)
    elif ct.kind != 'int':
        raise Unsupported('store of %r' % ct)
    data.mem_write(p, ct.size, v)


def _is_bytes(o):
    return type(o) is bytes or isinstance(o, data.SymBytesBase) and not isinstance(o, SymByteArray)


def as_string(o):
    """PyBytes_AS_STRING / PyByteArray_AS_STRING"""
    if isinstance(o, SymByteArray):
        return CPtr(o.mem, 0, I8)
    if _is_bytes(o):
        return CPtr(Mem(o), 0, I8)
    if type(o) is bytearray:
        raise Unsupported('uninstrumented bytearray')
    data.bounds_fail('the body of a %s taken for that of a bytes object' % type(o).__name__)


def get_size(o):
    if data.is_byteslike(o):
        return data.blen(o)
    data.bounds_fail('the size of a %s taken for that of a bytes object' % type(o).__name__)


def from_string_and_size(p, n):
    if isinstance(n, SymInt):
        if bool(n < 0):
            raise SystemError('Negative size passed to PyBytes_FromStringAndSize')
    elif n < 0:
        raise SystemError('Negative size passed to PyBytes_FromStringAndSize')
    if p.mem is None:
        n = _conc(n)
        if n > 1 << 22:
            raise MemoryError
        return SymBytes(data.garbage_cells(n))
    if isinstance(n, SymInt) and not isinstance(p.mem, CArr):
        mem = p.mem
        o = mem.owner
        data.check_access(mem, p.off, n, False, 1 if _is_bytes(o) else 0)
        if isinstance(o, SymByteArray) and o.tail is not None:
            c = len(o.cells)
            if type(p.off) is int and p.off <= c and core.engine().holds(n >= c - p.off):
                if o.tailzero or core.engine().holds(n == c - p.off):
                    return data.SymPad(list(o.cells[p.off:]), n - (c - p.off), True)
            o.settle()
        return data.SymView(list(mem.cells()), p.off, n)
    return data.mkbytes(_read_block(p, n))


def _conc(n):
    return core.concretize(n) if isinstance(n, SymInt) else n


def _read_block(p, n):
    if p.mem is None:
        _null()
    mem = p.mem
    if isinstance(mem, CArr):
        raise Unsupported('bytes of a C array')
    n = size_t(n)
    data.check_access(mem, p.off, n, False, 1 if _is_bytes(mem.owner) else 0)
    n = _conc(n)
    cells = mem.cells()
    off = p.off
    if isinstance(off, SymInt):
        off = data.refine(off, 0, len(cells) - n)
    if _is_bytes(mem.owner):
        cells = list(cells) + [0]
    return data.read_cells(cells, off, n)


def size_t(n):
    return w(i(n), 64, False)


def memcpy(dst, src, n):
    n = size_t(n)
    if type(n) is int and n == 0:
        return dst
    cells = _read_block(src, n)
    mem = dst.mem
    if mem is None:
        _null()
    data.check_access(mem, dst.off, n, True)
    _write_block(mem, dst.off, cells)
    return dst


def _write_block(mem, off, cells):
    o = mem.owner
    if type(o) is bytes or isinstance(o, data.SymView):
        raise Unsupported('C write into an immutable bytes object')
    data.write_cells(mem.cells(), off, cells)


def memset(dst, c, n):
    n = size_t(n)
    if type(n) is int and n == 0:
        return dst
    mem = dst.mem
    if mem is None:
        _null()
    data.check_access(mem, dst.off, n, True)
    o = mem.owner
    if isinstance(n, SymInt) and isinstance(o, SymByteArray) and o.tail is not None and type(dst.off) is int and \
            dst.off == len(o.cells) and type(c) is int and c == 0 and core.engine().holds(n == o.tail):
        o.tailzero = True
        return dst
    n = _conc(n)
    _write_block(mem, dst.off, [w(i(c), 8, False)] * n)
    return dst


_pending = None


def set_error(ex, r):
    global _pending
    _pending = ex
    return r


def errcheck(v, bad):
    """the caller of a C function which signals its errors with the value bad"""
    global _pending
    if bool(eq(v, bad)):
        ex, _pending = _pending, None
        raise ex or SystemError('error return without exception set')
    return v


def enter_recursive_call(where):
    # the interpreter refuses at some depth, which depends on how much of the stack is already in use: here it is
    # rec_limit, so that everything which happens after the refusal is explored too
    e = core.engine()
    if e is None:
        return 0
    if e.rec >= e.rec_limit:
        return set_error(ModelRecursionError('maximum recursion depth exceeded'), -1)
    e.rec += 1
    return 0


def leave_recursive_call():
    e = core.engine()
    if e is not None:
        e.rec -= 1


class ModelRecursionError(RecursionError):
    pass


def bytearray_resize(o, n):
    if not isinstance(o, SymByteArray):
        data.bounds_fail('PyByteArray_Resize of a %s' % type(o).__name__)
    if isinstance(n, SymInt) and n.hi > 1 << 46 and bool(b_or(n < 0, n > 1 << 46)):
        return set_error(MemoryError(), -1)
    cells = o.settle()
    if isinstance(n, SymInt) and bool(n >= len(cells)):
        o.tail = n - len(cells)
        o.tailzero = False
        o._newmem()
        return 0
    n = _conc(n)
    if n < 0 or n > 1 << 46:
        return set_error(MemoryError(), -1)
    if n > 1 << 22:
        raise Unsupported('huge buffer')
    if n <= len(cells):
        del cells[n:]
    else:
        cells.extend(data.garbage_cells(n - len(cells)))
    o._newmem()
    return 0


def hash_bytes(p, n):
    from symex import hashing
    n = w(i(n), 64, True)
    if isinstance(n, SymInt):
        if bool(eq(n, 0)):
            return 0
    elif n == 0:
        return 0
    return hashing.finish(hashing.content_hash(_read_block(p, n)))


def generic_setattr(o, name, v):
    type.__setattr__(o, name, v)
    return 0


EXT = {
    'PyBytes_GET_SIZE': get_size, 'PyBytes_AS_STRING': as_string,
    '_PyString_GET_SIZE': get_size, '_PyString_AS_STRING': as_string,
    '_PyString_CheckExact': lambda o: 1 if _is_bytes(o) else 0,
    'PyBytes_CheckExact': lambda o: 1 if _is_bytes(o) else 0,
    '_PyString_FromStringAndSize': from_string_and_size,
    'PyBytes_FromStringAndSize': from_string_and_size,
    'PyByteArray_CheckExact': lambda o: 1 if isinstance(o, SymByteArray) else 0,
    'PyByteArray_AS_STRING': as_string, 'PyByteArray_GET_SIZE': get_size,
    'PyByteArray_Resize': bytearray_resize,
    'memcpy': memcpy, 'memmove': memcpy, 'memset': memset,
    '_Py_HashBytes': hash_bytes, 'Py_HashBuffer': hash_bytes,
    'PyObject_GenericSetAttr': generic_setattr,
    'Py_EnterRecursiveCall': enter_recursive_call, 'Py_LeaveRecursiveCall': leave_recursive_call,
}


def ext(name):
    f = EXT.get(name)
    if f is None:
        def f(*args):
            raise Unsupported('C function %s' % name)
    return f


def unsupported(msg):
    raise Unsupported(msg)

"""Path explorer and exact symbolic integers.

A *harness* is a Python function that runs the code under test on symbolic values.
`Engine.explore(harness)` re-executes it once per feasible path: whenever the code asks for the truth
value of a symbolic condition, z3 decides which outcomes are feasible under the current path condition;
one is taken, the other one is queued as a decision prefix.  The set of explored paths is therefore
complete for all values of the symbolic inputs within their declared ranges, unless a limit is hit, in
which case the run is *inconclusive* (never "holds").
"""
import sys
import time
import z3

z3.set_param('model.completion', True)


class Control(BaseException):
    """Engine-internal control flow: must not be caught by code under test"""


class PathInfeasible(Control):
    pass


class Unsupported(Control):
    """the code did something the encoding does not cover: inconclusive"""


class Inconclusive(Control):
    pass


class Violation(Control):
    def __init__(self, msg, model=None):
        Control.__init__(self, msg)
        self.msg = msg
        self.model = model


CUR = None  # the current Engine


def engine():
    return CUR


# ---------------------------------------------------------------------------
# helpers

def bits_for(lo, hi):
    """minimal signed width which represents all of [lo, hi]"""
    a = lo.bit_length() if lo >= 0 else (~lo).bit_length()
    b = hi.bit_length() if hi >= 0 else (~hi).bit_length()
    return max(a, b) + 1


def ctz(n):
    if n == 0:
        return 4096
    return (n & -n).bit_length() - 1


_ctx = z3.main_ctx()
_ctxref = _ctx.ref()


def _bv(ast):
    return z3.BitVecRef(ast, _ctx)


def bv_const(val, w):
    return z3.BitVecVal(val, w)


def sext(e, n):
    if n == 0:
        return e
    return _bv(z3.Z3_mk_sign_ext(_ctxref, n, e.ast))


def trunc(e, w, size):
    if size == w:
        return e
    return _bv(z3.Z3_mk_extract(_ctxref, w - 1, 0, e.ast))


_KIND_INT = (int,)


RAW_HASH = False        # (set while a key is inserted in a dictionary: the hash is not meaningful)


class SymBase(object):
    __slots__ = ()


def is_sym(x):
    return isinstance(x, SymBase)


def _text(x, default):
    rt = sys.modules.get('symex.rt')
    return default if rt is None or rt.TOKENS is None else rt.token(x)


class SymInt(SymBase):
    """An exact integer: the signed value of a bit-vector of width ``w`` known to lie in [lo, hi]"""
    __slots__ = ('e', 'w', 'lo', 'hi', 'tz', 'src', 'cls')

    def __init__(self, e, w, lo, hi, tz=0, src=None):
        self.e = e
        self.w = w
        self.lo = lo
        self.hi = hi
        self.tz = tz
        self.src = src
        self.cls = None

    # -- construction -------------------------------------------------
    @staticmethod
    def make(e, w, lo, hi, tz=0):
        """e has width w and its signed value is in [lo,hi] (both inclusive)"""
        if lo == hi:
            return lo
        n = bits_for(lo, hi)
        if n < w:
            e = trunc(e, n, w)
            w = n
        return SymInt(e, w, lo, hi, tz)

    def at(self, w):
        return sext(self.e, w - self.w)

    @property
    def __class__(self):
        return self.cls or int

    def __getattr__(self, name):
        # instances of int subclasses (enums)
        cls = self.cls
        if cls is not None:
            for k in cls.__mro__:
                if k is int or k is object:
                    break
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if hasattr(type(v), '__get__'):
                        return v.__get__(self, cls)
                    return v
        raise AttributeError("'int' object has no attribute %r" % name)

    def __repr__(self):
        return _text(self, '<SymInt [%d,%d]>' % (self.lo, self.hi))

    # -- arithmetic ----------------------------------------------------
    def _arith(self, other, op, rev=False):
        other = as_int(other)
        if other is NotImplemented:
            return NotImplemented
        if rev:
            a, b = other, self
        else:
            a, b = self, other
        return op(a, b)

    def __add__(self, o): return self._arith(o, add)
    def __radd__(self, o): return self._arith(o, add, True)
    def __sub__(self, o): return self._arith(o, sub)
    def __rsub__(self, o): return self._arith(o, sub, True)
    def __mul__(self, o):
        if isinstance(o, (bytes, bytearray, str, list, tuple)) or hasattr(o, '_sym_repeat'):
            return repeat(o, self)
        return self._arith(o, mul)
    __rmul__ = __mul__
    def __and__(self, o): return self._arith(o, and_)
    __rand__ = __and__
    def __or__(self, o): return self._arith(o, or_)
    __ror__ = __or__
    def __xor__(self, o): return self._arith(o, xor)
    __rxor__ = __xor__
    def __lshift__(self, o): return self._arith(o, lshift)
    def __rlshift__(self, o): return self._arith(o, lshift, True)
    def __rshift__(self, o): return self._arith(o, rshift)
    def __rrshift__(self, o): return self._arith(o, rshift, True)
    def __floordiv__(self, o): return self._arith(o, floordiv)
    def __rfloordiv__(self, o): return self._arith(o, floordiv, True)
    def __mod__(self, o): return self._arith(o, mod)
    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return self._arith(o, mod, True)
    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)
    def __rdivmod__(self, o):
        return floordiv(o, self), mod(o, self)
    def __truediv__(self, o):
        raise Unsupported('true division of a symbolic integer')
    __rtruediv__ = __truediv__
    def __pow__(self, o, m=None):
        raise Unsupported('pow')
    def __rpow__(self, o, m=None):
        if o == 2 and m is None:
            return lshift(1, self)
        raise Unsupported('pow')

    def __neg__(self):
        return sub(0, self)

    def __pos__(self):
        return self

    def __invert__(self):
        return SymInt.make(~self.e, self.w, ~self.hi, ~self.lo)

    def __abs__(self):
        if bool(self < 0):
            return -self
        return self

    # -- comparisons ---------------------------------------------------
    def __eq__(self, o):
        o = as_int(o)
        if o is NotImplemented:
            return NotImplemented
        return eq(self, o)

    def __ne__(self, o):
        o = as_int(o)
        if o is NotImplemented:
            return NotImplemented
        return not_(eq(self, o))

    def __lt__(self, o):
        o = as_int(o)
        if o is NotImplemented:
            return NotImplemented
        return lt(self, o)

    def __gt__(self, o):
        o = as_int(o)
        if o is NotImplemented:
            return NotImplemented
        return lt(o, self)

    def __le__(self, o):
        o = as_int(o)
        if o is NotImplemented:
            return NotImplemented
        return not_(lt(o, self))

    def __ge__(self, o):
        o = as_int(o)
        if o is NotImplemented:
            return NotImplemented
        return not_(lt(self, o))

    def __bool__(self):
        return bool(not_(eq(self, 0)))

    def __hash__(self):
        if RAW_HASH:
            return id(self) >> 4
        # used by dict/set lookups: needs a concrete value
        return hash(concretize(self))

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        raise Unsupported('float() of a symbolic integer')

    def __str__(self):
        return _text(self, '<symint>')

    def __format__(self, spec):
        return _text(self, '<symint>')

    # -- int API -------------------------------------------------------
    def bit_length(self):
        raise Unsupported('bit_length')

    def to_bytes(self, length=1, byteorder='big', signed=False):
        from symex import data
        return data.int_to_bytes(self, length, byteorder, signed)

    @property
    def real(self):
        return self

    def conjugate(self):
        return self


class SymBool(SymBase):
    __slots__ = ('e',)
    __class__ = property(lambda self: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __repr__(self):
        return _text(self, '<SymBool>')

    def __str__(self):
        return 'True' if bool(self) else 'False'

    def _int(self):
        return SymInt(z3.If(self.e, bv_const(1, 2), bv_const(0, 2)), 2, 0, 1)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_and(self, o)
        return self._int() & o
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_or(self, o)
        return self._int() | o
    __ror__ = __or__
    def __xor__(self, o):
        if type(o) is bool:
            return not_(self) if o else self
        if isinstance(o, SymBool):
            return SymBool(z3.Xor(self.e, o.e))
        return self._int() ^ o
    __rxor__ = __xor__
    def __eq__(self, o):
        if type(o) is bool:
            return self if o else not_(self)
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        o = as_int(o)
        if o is NotImplemented:
            return NotImplemented
        return eq(self._int(), o)
    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not_(r)
    def __hash__(self):
        if RAW_HASH:
            return id(self) >> 4
        return hash(bool(self))
    def __index__(self):
        return int(bool(self))
    def __int__(self):
        return int(bool(self))
    def __add__(self, o): return self._int() + o
    __radd__ = __add__
    def __sub__(self, o): return self._int() - o
    def __rsub__(self, o): return o - self._int()
    def __mul__(self, o): return self._int() * o
    __rmul__ = __mul__
    def __lshift__(self, o): return self._int() << o
    def __rlshift__(self, o): return o << self._int()
    def __rshift__(self, o): return self._int() >> o
    def __neg__(self): return -self._int()
    def __invert__(self): return ~self._int()
    def __lt__(self, o): return self._int() < o
    def __le__(self, o): return self._int() <= o
    def __gt__(self, o): return self._int() > o
    def __ge__(self, o): return self._int() >= o
    def __floordiv__(self, o): return self._int() // o
    def __mod__(self, o): return self._int() % o


def as_int(x):
    t = type(x)
    if t is int or t is SymInt:
        return x
    if t is bool:
        return int(x)
    if t is SymBool:
        return x._int()
    if isinstance(x, SymInt):
        return x
    if isinstance(x, int):
        return int(x)
    return NotImplemented


def rng(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    return x, x


def at(x, w):
    """z3 expression of width w"""
    if isinstance(x, SymInt):
        return sext(x.e, w - x.w)
    return bv_const(x, w)


def tz_of(x):
    if isinstance(x, SymInt):
        return x.tz
    return ctz(x)


def add(a, b):
    if type(b) is int and b == 0:
        return a
    if type(a) is int and a == 0:
        return b
    al, ah = rng(a)
    bl, bh = rng(b)
    lo, hi = al + bl, ah + bh
    if lo == hi:
        return lo
    w = bits_for(lo, hi)
    w2 = max(w, getattr(a, 'w', 0), getattr(b, 'w', 0), bits_for(al, ah), bits_for(bl, bh))
    return SymInt.make(at(a, w2) + at(b, w2), w2, lo, hi, min(tz_of(a), tz_of(b)))


def sub(a, b):
    if type(b) is int and b == 0:
        return a
    al, ah = rng(a)
    bl, bh = rng(b)
    lo, hi = al - bh, ah - bl
    if lo == hi:
        return lo
    w2 = max(bits_for(lo, hi), bits_for(al, ah), bits_for(bl, bh))
    return SymInt.make(at(a, w2) - at(b, w2), w2, lo, hi, min(tz_of(a), tz_of(b)))


def mul(a, b):
    if not isinstance(a, SymInt) and not isinstance(b, SymInt):
        return a * b
    if not isinstance(b, SymInt) and b == 1:
        return a
    if not isinstance(a, SymInt) and a == 1:
        return b
    al, ah = rng(a)
    bl, bh = rng(b)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    lo, hi = min(c), max(c)
    if lo == hi:
        return lo
    w2 = max(bits_for(lo, hi), bits_for(al, ah), bits_for(bl, bh))
    # multiplication by a power of two is a shift
    for x, y in ((a, b), (b, a)):
        if not isinstance(y, SymInt) and y > 0 and y & (y - 1) == 0:
            return SymInt.make(at(x, w2) << bv_const(ctz(y), w2), w2, lo, hi, tz_of(x) + ctz(y))
    return SymInt.make(at(a, w2) * at(b, w2), w2, lo, hi, tz_of(a) + tz_of(b))


def and_(a, b):
    al, ah = rng(a)
    bl, bh = rng(b)
    if al >= 0 and bl >= 0:
        lo, hi = 0, min(ah, bh)
    elif al >= 0:
        lo, hi = 0, ah
    elif bl >= 0:
        lo, hi = 0, bh
    else:
        w = max(bits_for(al, ah), bits_for(bl, bh))
        lo, hi = -(1 << (w - 1)), max(ah, bh)
        if hi < 0:
            hi = -1
    # a constant non-negative mask only needs the low bits of the operand
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymInt) and not isinstance(y, SymInt) and y >= 0:
            if y == 0:
                return 0
            n = y.bit_length()
            if x.w >= n:
                e = trunc(x.e, n, x.w)
                if y == (1 << n) - 1:
                    if x.lo >= 0 and x.hi <= y:
                        return x
                    e = z3.ZeroExt(1, e)
                    return SymInt.make(e, n + 1, 0, hi, x.tz)
                k = ctz(y)
                if y == ((1 << n) - 1) ^ ((1 << k) - 1) and k < n:
                    # contiguous field
                    e = z3.Concat(bv_const(0, 1), z3.Extract(n - 1, k, x.e), bv_const(0, k))
                    return SymInt.make(e, n + 1, 0, hi & ~((1 << k) - 1), max(x.tz, k))
                e = z3.ZeroExt(1, e & bv_const(y, n))
                return SymInt.make(e, n + 1, 0, hi, max(x.tz, k))
    w2 = max(bits_for(lo, hi), bits_for(al, ah), bits_for(bl, bh))
    return SymInt.make(at(a, w2) & at(b, w2), w2, lo, hi, max(tz_of(a), tz_of(b)))


def _or_range(al, ah, bl, bh):
    w = max(bits_for(al, ah), bits_for(bl, bh))
    if al >= 0 and bl >= 0:
        n = max(ah.bit_length(), bh.bit_length())
        return 0, (1 << n) - 1, w
    return -(1 << (w - 1)), (1 << (w - 1)) - 1, w


def or_(a, b):
    if not isinstance(b, SymInt) and b == 0:
        return a
    if not isinstance(a, SymInt) and a == 0:
        return b
    al, ah = rng(a)
    bl, bh = rng(b)
    lo, hi, w = _or_range(al, ah, bl, bh)
    if al >= 0 and bl >= 0:
        lo = max(al, bl)
    return SymInt.make(at(a, w) | at(b, w), w, lo, hi, min(tz_of(a), tz_of(b)))


def xor(a, b):
    if not isinstance(b, SymInt) and b == 0:
        return a
    if not isinstance(a, SymInt) and a == 0:
        return b
    al, ah = rng(a)
    bl, bh = rng(b)
    lo, hi, w = _or_range(al, ah, bl, bh)
    return SymInt.make(at(a, w) ^ at(b, w), w, lo, hi, min(tz_of(a), tz_of(b)))


def _shift_amount(b, what):
    if isinstance(b, SymInt):
        if b.lo < 0:
            if bool(b < 0):
                raise ValueError('negative shift count')
        return concretize(b, 256)
    if b < 0:
        raise ValueError('negative shift count')
    return b


def lshift(a, b):
    b = _shift_amount(b, 'lshift')
    if not isinstance(a, SymInt):
        return a << b
    if b == 0:
        return a
    if b > 4096:
        raise Unsupported('huge shift')
    lo, hi = a.lo << b, a.hi << b
    w = bits_for(lo, hi)
    e = z3.Concat(a.e, bv_const(0, b))
    return SymInt.make(e, a.w + b, lo, hi, a.tz + b)


def rshift(a, b):
    b = _shift_amount(b, 'rshift')
    if not isinstance(a, SymInt):
        return a >> b
    if b == 0:
        return a
    lo, hi = a.lo >> b, a.hi >> b
    if lo == hi:
        return lo
    if b >= a.w:
        b = a.w - 1             # nothing but the sign is left
    e = z3.Extract(a.w - 1, b, a.e)
    return SymInt.make(e, a.w - b, lo, hi, max(0, a.tz - b))


def floordiv(a, b):
    b = as_int(b)
    if b is NotImplemented:
        return NotImplemented
    if isinstance(b, SymInt):
        if b.lo <= 0 <= b.hi and bool(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if b.hi - b.lo > 64:
            raise Unsupported('division by a symbolic value')
        b = concretize(b, 80)
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if not isinstance(a, SymInt):
        return a // b
    if b > 0 and b & (b - 1) == 0:
        return rshift(a, ctz(b))
    if b < 0:
        return floordiv(-a, -b)
    lo, hi = a.lo // b, a.hi // b
    if lo == hi:
        return lo
    w = max(a.w, bits_for(b, b)) + 1
    ae, be = at(a, w), bv_const(b, w)
    if a.lo >= 0:
        e = z3.UDiv(ae, be)
    else:
        # floor division for a positive divisor
        e = z3.If(ae < 0, (ae - (be - 1)) / be, ae / be)
    return SymInt.make(e, w, lo, hi)


def mod(a, b):
    b = as_int(b)
    if b is NotImplemented:
        return NotImplemented
    if isinstance(b, SymInt):
        b2 = concretize(b, 80)
        b = b2
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if not isinstance(a, SymInt):
        return a % b
    if b > 0 and b & (b - 1) == 0:
        return and_(a, b - 1)
    if b < 0:
        return sub(0, mod(-a, -b))
    w = max(a.w, bits_for(b, b)) + 1
    ae, be = at(a, w), bv_const(b, w)
    if a.lo >= 0:
        e = z3.URem(ae, be)
    else:
        r = z3.SRem(ae, be)
        e = z3.If(r < 0, r + be, r)
    return SymInt.make(e, w, 0, b - 1)


def eq(a, b):
    al, ah = rng(a)
    bl, bh = rng(b)
    if ah < bl or bh < al:
        return False
    if al == ah == bl == bh:
        return True
    w = max(bits_for(al, ah), bits_for(bl, bh))
    ea, eb = at(a, w), at(b, w)
    if ea.eq(eb):
        return True
    return SymBool(ea == eb)


def lt(a, b):
    al, ah = rng(a)
    bl, bh = rng(b)
    if ah < bl:
        return True
    if al >= bh:
        return False
    w = max(bits_for(al, ah), bits_for(bl, bh))
    return SymBool(at(a, w) < at(b, w))


def not_(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.e))
    return not x


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif isinstance(x, SymInt):
            out.append(to_z3bool(x != 0))
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.And(*out))


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif isinstance(x, SymInt):
            out.append(to_z3bool(x != 0))
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.Or(*out))


def implies(a, b):
    return b_or(not_(a), b)


def iff(a, b):
    if type(a) is bool and type(b) is bool:
        return a == b
    if type(a) is bool:
        return b if a else not_(b)
    if type(b) is bool:
        return a if b else not_(a)
    return SymBool(to_z3bool(a) == to_z3bool(b))


def to_z3bool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return to_z3bool(x != 0)
    return z3.BoolVal(bool(x))


def ite(c, a, b):
    """integer if-then-else without forking"""
    if not isinstance(c, SymBool):
        return a if c else b
    a, b = as_int(a), as_int(b)
    al, ah = rng(a)
    bl, bh = rng(b)
    lo, hi = min(al, bl), max(ah, bh)
    if lo == hi:
        return lo
    w = bits_for(lo, hi)
    return SymInt.make(z3.If(c.e, at(a, w), at(b, w)), w, lo, hi, min(tz_of(a), tz_of(b)))


def wrap(x, bits, signed):
    """C conversion to an integer type of the given width"""
    if type(x) is int:
        x &= (1 << bits) - 1
        if signed and x >> (bits - 1):
            x -= 1 << bits
        return x
    if isinstance(x, SymBool):
        x = x._int()
    if isinstance(x, SymInt):
        if signed:
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        else:
            lo, hi = 0, (1 << bits) - 1
        if lo <= x.lo and x.hi <= hi:
            return x
        e = at(x, bits) if x.w <= bits else trunc(x.e, bits, x.w)
        if signed:
            return SymInt.make(e, bits, lo, hi, min(x.tz, bits - 1))
        return SymInt.make(z3.ZeroExt(1, e), bits + 1, lo, hi, min(x.tz, bits - 1))
    if isinstance(x, int):
        return wrap(int(x), bits, signed)
    raise Unsupported('wrap(%r)' % (type(x),))


def concretize(x, limit=None):
    return CUR.concretize(x, limit)


def repeat(o, n):
    from symex import data
    return data.repeat(o, n)


def concat_le(cells):
    """unsigned little-endian value of a list of byte cells (ints or SymInts)"""
    n = len(cells)
    if all(type(c) is int for c in cells):
        r = 0
        for i, c in enumerate(cells):
            r |= c << (8 * i)
        return r
    s0 = getattr(cells[0], 'src', None)
    if s0 is not None:
        ok = True
        for i, c in enumerate(cells):
            s = getattr(c, 'src', None)
            if s is None or s[0] is not s0[0] or s[1] != s0[1] + i:
                ok = False
                break
        if ok:
            word, k = s0[0], s0[1]
            nb = word.size()
            if k == 0 and n * 8 == nb:
                e = word
            else:
                e = z3.Extract((k + n) * 8 - 1, k * 8, word)
            return SymInt.make(z3.ZeroExt(1, e), n * 8 + 1, 0, (1 << (n * 8)) - 1)
    parts = []
    for c in reversed(cells):
        if type(c) is int:
            parts.append(bv_const(c, 8))
        else:
            parts.append(at(c, 9) if c.w < 8 else c.e)
            if parts[-1].size() > 8:
                parts[-1] = z3.Extract(7, 0, parts[-1])
    e = parts[0] if len(parts) == 1 else z3.Concat(*parts)
    return SymInt.make(z3.ZeroExt(1, e), n * 8 + 1, 0, (1 << (n * 8)) - 1)


def split_le(x, n):
    """n little-endian byte cells of the low 8*n bits of x"""
    if type(x) is int:
        x &= (1 << (8 * n)) - 1
        return [(x >> (8 * i)) & 255 for i in range(n)]
    w = n * 8
    e = at(x, w) if x.w <= w else trunc(x.e, w, x.w)
    e = z3.simplify(e)
    out = []
    for i in range(n):
        b = z3.Extract(8 * i + 7, 8 * i, e) if n > 1 else e
        lo, hi = 0, 255
        if x.lo >= 0:
            hi = min(255, x.hi >> (8 * i))
            if hi == 0:
                out.append(0)
                continue
        out.append(SymInt(z3.ZeroExt(1, b), 9, 0, 255, 0, (e, i)))
    return out


# ---------------------------------------------------------------------------

class Frame(object):
    __slots__ = ('taken', 'other', 'value')


class Engine(object):

    def __init__(self, name='', max_paths=200000, timeout_ms=60000, deadline=None, logic='QF_BV'):
        self.name = name
        self.max_paths = max_paths
        self.deadline = deadline
        self.solver = z3.SolverFor(logic) if logic else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.queries = 0
        self.asserts = 0
        self.solver_time = 0.0
        self.reached = {}
        self.unsupported = []
        self.concretizations = 0
        self.want_samples = 0
        self.samples = []
        self.prefix_only = None
        self.outs = []

    # -- solver ---------------------------------------------------------
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.solver_time += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            raise Inconclusive('solver answered unknown: %s' % self.solver.reason_unknown())
        if r == z3.sat:
            self.model = self.solver.model()
            return True
        return False

    # -- path handling ----------------------------------------------------
    def _begin(self, prefix, keep):
        self.prefix = prefix
        self.replaying = len(prefix)
        self.pos = 0
        self.model = None
        self.names = {}
        self.inputs = []       # (name, kind, sym)
        self.cache = {}
        self.notes = []
        self.counter = 0
        self.canons = {}
        self.products = {}
        self.defs = []
        self.rec = 0           # nested Py_EnterRecursiveCall
        self.rec_limit = 20

    def canon(self, key, e):
        """An equal term (under the path condition) which was asked about before with the same key, or else e.

        Used for the operands of multiplications by big constants: two multiplications of equal numbers become the
        same term, and the solver never has to compare multipliers.  Recorded like a decision, so that paths can be
        replayed."""
        tab = self.canons.setdefault(key, [])
        e = z3.simplify(e)
        for t in tab:
            if t.eq(e):
                return t
        if z3.is_bv_value(e) and all(z3.is_bv_value(t) for t in tab):
            tab.append(e)       # (nothing to decide)
            return e
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos][0]
        else:
            k = -1
            for n, t in enumerate(tab):
                if self.model is None and not self._check():
                    raise PathInfeasible()
                keepm = self.model
                if not self._model_says(t == e):
                    continue
                self.solver.set('timeout', 5000)
                try:
                    same = not self._check(t != e)
                except Inconclusive:
                    same = False
                finally:
                    self.solver.set('timeout', self.timeout_ms)
                self.model = keepm
                if same:
                    k = n
                    break
            self.prefix = self.prefix + [(k, True)]
        self.pos += 1
        self._sync_forced()
        if k >= 0:
            return tab[k]
        tab.append(e)
        return e

    def product(self, e, c, bits):
        """e * c modulo 2**bits, c a big constant: an opaque variable, whose definition is only used where the
        solver finds a counterexample without it (see prove).  Equal operands give the same variable."""
        e = self.canon(('mul', bits), e)
        if z3.is_bv_value(e):
            r = e.as_long() * c & ((1 << bits) - 1)
            return r - (1 << bits) if r >> (bits - 1) else r
        key = (e.get_id(), c, bits)
        hit = self.products.get(key)
        if hit is None:
            v = z3.BitVec('product!%d' % len(self.products), bits)
            hit = self.products[key] = (v, e)
            self.defs.append(v == e * z3.BitVecVal(c, bits))
        return SymInt(hit[0], bits, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)

    def _push(self, e):
        """enter the scope of decision number self.pos"""
        self.pos += 1
        if self.pos > self.depth:
            self.solver.push()
            self.depth += 1
            self.solver.add(e)

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        hit = self.cache.get(key)
        if hit is not None:
            return hit[0]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            forced = val[1]
            val = val[0]
            if not forced:
                self._push(e if val else z3.Not(e))
            else:
                self.pos += 1
                self._sync_forced()
            self._remember(e, val)
            return val
        # live: ask the solver
        self._tick()
        self.decisions += 1
        ne = z3.Not(e)
        if self.model is None and not self._check():
            raise PathInfeasible()
        val = self._model_says(e)       # the current model witnesses one outcome
        keepm = self.model
        other = self._check(ne if val else e)
        self.model = keepm
        if other:
            self.pending.append((self.prefix + [(not val, False)], self.pos))
            self.prefix = self.prefix + [(val, False)]
            self._push(e if val else ne)
        else:
            self.prefix = self.prefix + [(val, True)]
            self.pos += 1
            self._sync_forced()
        self._remember(e, val)
        return val

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive('time budget exhausted')

    def _sync_forced(self):
        # forced decisions also get a scope so that positions and depths agree
        if self.pos > self.depth:
            self.solver.push()
            self.depth += 1

    def _remember(self, e, val):
        self.cache[e.get_id()] = (val, e)
        ne = z3.simplify(z3.Not(e))
        self.cache[ne.get_id()] = (not val, ne)

    def assume(self, cond):
        """restrict the inputs (never used on results)"""
        if not isinstance(cond, SymBase):
            if not cond:
                raise PathInfeasible()
            return
        e = z3.simplify(to_z3bool(cond))
        if z3.is_true(e):
            return
        if self.pos < len(self.prefix) and self.replaying:
            return      # already in the solver: it was added on the shared part of the path
        self.solver.add(e)
        if self.model is not None and not self._model_says(e):
            self.model = None
        if self.model is None and not self._check():
            raise PathInfeasible()

    def _model_says(self, e):
        return self.model is not None and z3.is_true(self.model.eval(e, model_completion=True))

    def concretize(self, x, limit=None):
        """Complete case split of x over its feasible values"""
        if isinstance(x, SymBool):
            return bool(x)
        if not isinstance(x, SymInt):
            return int(x)
        if limit is None:
            limit = 300
        e = z3.simplify(x.e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        key = ('c', e.get_id())
        hit = self.cache.get(key)
        if hit is not None:
            return hit[0]
        self.concretizations += 1
        n = 0
        while True:
            if self.pos < len(self.prefix):
                # replay: the candidate value is stored in the decision
                val = self.prefix[self.pos][2]
            else:
                self._tick()
                if self.model is None and not self._check():
                    raise PathInfeasible()
                val = self.model.eval(e, model_completion=True).as_signed_long()
            c = (e == bv_const(val, x.w))
            if self._split(c, val):
                self.cache[key] = (val, e)
                return val
            n += 1
            if n > limit:
                raise Unsupported('more than %d feasible values for a quantity which needs a case split' % limit)

    def _split(self, c, val):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[1]:
                self.pos += 1
                self._sync_forced()
            else:
                self._push(c if d[0] else z3.Not(c))
            return d[0]
        self.decisions += 1
        keepm = self.model
        f = self._check(z3.Not(c))
        self.model = keepm
        if f:
            self.pending.append((self.prefix + [(False, False, val)], self.pos))
            self.prefix = self.prefix + [(True, False, val)]
            self._push(c)
        else:
            self.prefix = self.prefix + [(True, True, val)]
            self.pos += 1
            self._sync_forced()
        return True

    # -- inputs ------------------------------------------------------------
    def fresh(self, name, w):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        if n:
            name = '%s#%d' % (name, n)
        return name, z3.BitVec(name, w)

    def int_var(self, name, lo, hi):
        """a symbolic input in [lo, hi]"""
        if lo == hi:
            k = self.names.get(name, 0)
            self.names[name] = k + 1
            self.inputs.append(('%s#%d' % (name, k) if k else name, 'const', lo))
            return lo
        w = bits_for(lo, hi)
        if lo == 0 and hi == (1 << (w - 1)) - 1:
            nm, v = self.fresh(name, w - 1)
            x = SymInt(z3.ZeroExt(1, v), w, lo, hi)
        else:
            nm, v = self.fresh(name, w)
            x = SymInt(v, w, lo, hi)
            if (lo, hi) != (-(1 << (w - 1)), (1 << (w - 1)) - 1):
                self.assume(SymBool(z3.And(v >= bv_const(lo, w), v <= bv_const(hi, w))))
        self.inputs.append((nm, 'int', x))
        return x

    def bool_var(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        if n:
            name = '%s#%d' % (name, n)
        b = SymBool(z3.Bool(name))
        self.inputs.append((name, 'bool', b))
        return b

    def garbage(self, w):
        self.counter += 1
        return z3.BitVec('garbage!%d' % self.counter, w)

    # -- assertions -----------------------------------------------------------
    def prove(self, cond, msg):
        """the assertion of the property: must hold for all values on this path"""
        self.asserts += 1
        if not isinstance(cond, SymBase):
            if cond:
                return
            self._fail(msg)
        e = z3.simplify(to_z3bool(cond))
        if z3.is_true(e):
            return
        keepm = self.model
        if self._refutes(e):
            self._fail(msg, self.model)
        self.model = keepm

    def _refutes(self, e):
        ne = z3.Not(e)
        if not self.defs:
            return self._model_says(ne) or self._check(ne)
        if not self._check(ne):
            return False
        # with the products: first for the same inputs, then for all
        m = self.model
        same = []
        for _, kind, x in self.inputs:
            if isinstance(x, SymBase):
                same.append(x.e == m.eval(x.e, model_completion=True))
        if self._check(ne, *(same + self.defs)):
            return True
        return self._check(ne, *self.defs)

    def _fail(self, msg, model=None):
        if model is None:
            if self.model is None and not self._check():
                raise PathInfeasible()
            model = self.model
        raise Violation(msg, self.model_inputs(model))

    def holds(self, cond):
        """is cond implied by the path condition? (no fork)"""
        if not isinstance(cond, SymBase):
            return bool(cond)
        e = z3.simplify(to_z3bool(cond))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        keepm = self.model
        r = not self._check(z3.Not(e))
        self.model = keepm
        return r

    def possible(self, cond):
        if not isinstance(cond, SymBase):
            return bool(cond)
        keepm = self.model
        r = self._check(to_z3bool(cond))
        self.model = keepm
        return r

    def model_inputs(self, m):
        out = {}
        for name, kind, x in self.inputs:
            if kind == 'const':
                out[name] = x
            elif kind == 'int':
                out[name] = m.eval(x.e, model_completion=True).as_signed_long() if isinstance(x, SymInt) else x
            elif kind == 'bool':
                out[name] = z3.is_true(m.eval(x.e, model_completion=True))
            elif kind == 'cells':
                vals = []
                for c in x:
                    if isinstance(c, SymInt):
                        vals.append(m.eval(c.e, model_completion=True).as_long() & 255)
                    else:
                        vals.append(c)
                out[name] = vals
            elif kind == 'value':
                out[name] = x
        return out

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    # -- exploration ------------------------------------------------------------
    def explore(self, fn):
        """run fn() on every feasible path; returns a list of Violations (stops at the first)"""
        global CUR
        prev, CUR = CUR, self
        try:
            return self._explore(fn)
        finally:
            CUR = prev

    def _explore(self, fn):
        self.solver.reset()
        self.pending = [([], 0)]
        self.depth = 0
        gap = None      # the first path which could not be followed to its end
        gaps = 0
        while self.pending:
            prefix, keep = self.pending.pop()
            if gap is not None and time.time() > gap[1] + 90:
                raise gap[0]
            if self.paths + self.infeasible >= self.max_paths:
                raise Inconclusive('path limit (%d) reached' % self.max_paths)
            # keep = number of leading decisions whose solver scopes are still valid
            while self.depth > keep:
                self.solver.pop()
                self.depth -= 1
            self._begin(prefix, keep)
            try:
                fn()
                self.paths += 1
                if self.want_samples and (len(self.samples) < self.want_samples or
                                          (self.paths & (self.paths - 1)) == 0):
                    if self.model is not None or self._check():
                        from symex import ctx
                        m = {'inputs': self.model_inputs(self.model),
                             'outs': [ctx.evaluate(self.model, v) for v in self.outs]}
                        if len(self.samples) < self.want_samples:
                            self.samples.append(m)
                        else:
                            self.samples[self.paths % self.want_samples] = m
            except PathInfeasible:
                self.infeasible += 1
            except Unsupported as e:
                # (another path may still show a violation)
                gaps += 1
                if gap is None:
                    gap = e, time.time()
                if gaps > 30:
                    raise gap[0]
        if gap is not None:
            raise gap[0]
        return None

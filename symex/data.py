"""Symbolic byte strings, byte arrays, C memory and floats."""
import z3
from symex import core
from symex.core import (SymBase, SymInt, SymBool, is_sym, concat_le, split_le, ite, eq, lt, b_and, b_or,
                        not_, wrap, add, sub, mul, Unsupported, concretize, rng, tz_of)


def E():
    return core.CUR


# ---------------------------------------------------------------------------
# bytes

class SymBytesBase(SymBase):
    """common behaviour of byte-string proxies"""
    __slots__ = ()
    __class__ = property(lambda self: bytes)
    _mutable = False

    # to be implemented: length(), settle() -> list of cells, cell(i)

    def _symlen(self):
        return self.length()

    def __len__(self):
        n = self.length()
        return concretize(n)

    def __getitem__(self, i):
        return getitem(self, i)

    def __iter__(self):
        return iter(list(self.settle()))

    def __add__(self, o):
        if not is_byteslike(o):
            return NotImplemented
        return concat([self, o])

    def __radd__(self, o):
        if not is_byteslike(o):
            return NotImplemented
        return concat([o, self])

    def __mul__(self, n):
        return repeat(self, n)
    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_byteslike(o):
            return False
        return bytes_eq(self, o)

    def __ne__(self, o):
        if not is_byteslike(o):
            return True
        return not_(bytes_eq(self, o))

    def __lt__(self, o):
        return lex_lt(self, o)

    def __gt__(self, o):
        return lex_lt(o, self)

    def __le__(self, o):
        return not_(lex_lt(o, self))

    def __ge__(self, o):
        return not_(lex_lt(self, o))

    def __bool__(self):
        n = self.length()
        return bool(n != 0)

    def __hash__(self):
        if core.RAW_HASH:
            return id(self) >> 4
        return hash(concrete_bytes(self))

    def __contains__(self, o):
        r = find(self, o)
        return bool(r != -1)

    def __repr__(self):
        return core._text(self, '<%s>' % type(self).__name__)

    def __str__(self):
        return core._text(self, '<symbytes>')

    def __format__(self, spec):
        return core._text(self, '<symbytes>')

    # bytes API
    def find(self, s, start=0, end=None):
        return find(self, s, start, end)

    def index(self, s, start=0, end=None):
        r = find(self, s, start, end)
        if bool(r == -1):
            raise ValueError('subsection not found')
        return r

    def startswith(self, s):
        if isinstance(s, tuple):
            return any(self.startswith(x) for x in s)
        n = blen(s)
        return bytes_eq(getitem(self, slice(0, n)), s)

    def endswith(self, s):
        n = blen(s)
        m = self.length()
        if bool(m < n):
            return False
        return bytes_eq(getitem(self, slice(m - n, None)), s)

    def decode(self, enc='utf-8', errors='strict'):
        from symex import symstr
        return symstr.decode(self, enc, errors)

    def join(self, seq):
        return join(self, seq)

    def ljust(self, n, fill=b' '):
        cells = self.settle()
        n = concretize(n)
        return mkbytes(cells + list(fill) * max(0, n - len(cells)))

    def rstrip(self, chars=None):
        cells = list(self.settle())
        if chars is None:
            chars = b' \t\n\r\x0b\x0c'
        while cells and _in_set(cells[-1], chars):
            cells.pop()
        return mkbytes(cells)

    def lstrip(self, chars=None):
        cells = list(self.settle())
        if chars is None:
            chars = b' \t\n\r\x0b\x0c'
        while cells and _in_set(cells[0], chars):
            cells.pop(0)
        return mkbytes(cells)

    def strip(self, chars=None):
        return rstrip(self.lstrip(chars), chars)

    def replace(self, old, new, count=-1):
        from symex import symstr
        cells = self.settle()
        return mkbytes(symstr.replace_cells(cells, list(cells_of(old)), list(cells_of(new))))

    def tobytes(self):
        return mkbytes(self.settle())

    def count(self, s):
        cells = self.settle()
        s = cells_of(s)
        if len(s) != 1:
            raise Unsupported('bytes.count')
        r = 0
        for c in cells:
            r = r + ite(core.as_int(c) == s[0] if is_sym(c) or is_sym(s[0]) else c == s[0], 1, 0)
        return r

    def hex(self):
        raise Unsupported('bytes.hex')


def rstrip(x, chars):
    return x.rstrip(chars)


def _in_set(c, chars):
    return bool(b_or(*[(c == k) for k in chars]))


class SymBytes(SymBytesBase):
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = cells

    def length(self):
        return len(self.cells)

    def settle(self):
        return self.cells

    def __reduce__(self):
        raise Unsupported('pickling symbolic bytes')


class SymView(SymBytesBase):
    """parent[start:start+n] with symbolic start and/or n (0 <= start, n; start+n <= len(parent))"""
    __slots__ = ('parent', 'start', 'n', 'got')

    def __init__(self, parent, start, n):
        self.parent = parent        # list of cells
        self.start = start
        self.n = n
        self.got = None

    def length(self):
        return self.n

    def settle(self):
        if self.got is None:
            n = concretize(self.n)
            self.n = n
            self.got = read_cells(self.parent, self.start, n)
        return self.got

    def cell(self, i):
        """the i-th byte, provided i < n"""
        if self.got is not None:
            return self.got[i]
        return read_cells(self.parent, self.start + i, 1)[0]


class SymPad(SymBytesBase):
    """cells followed by a symbolic number of equal bytes (copy of a byte array with a tail)"""
    __slots__ = ('head', 'n', 'zero', 'got')

    def __init__(self, head, n, zero):
        self.head = head
        self.n = n
        self.zero = zero
        self.got = None

    def length(self):
        return len(self.got) if self.got is not None else len(self.head) + self.n

    def settle(self):
        if self.got is None:
            n = concretize(self.n)
            if n > 200000:
                raise Unsupported('huge buffer')
            self.got = list(self.head) + ([0] * n if self.zero else garbage_cells(n))
        return self.got


class SymFill(SymBytesBase):
    """a byte repeated a symbolic number of times"""
    __slots__ = ('byte', 'n')

    def __init__(self, byte, n):
        self.byte = byte
        self.n = n

    def length(self):
        return self.n

    def settle(self):
        self.n = concretize(self.n)
        return [self.byte] * self.n


class SymByteArray(SymBytesBase):
    """a bytearray.  ``tail`` is a symbolic number of extra bytes (zero or garbage) not yet materialised.
    ``mem`` identifies the underlying memory block: it changes when the array is reallocated."""
    __slots__ = ('cells', 'tail', 'tailzero', 'mem', 'maxcells')
    __class__ = property(lambda self: bytearray)
    _mutable = True

    def __init__(self, cells=None):
        self.cells = cells if cells is not None else []
        self.tail = None
        self.tailzero = True
        self.mem = Mem(self)

    __hash__ = None

    def length(self):
        if self.tail is None:
            return len(self.cells)
        return len(self.cells) + self.tail

    def settle(self):
        if self.tail is not None:
            n = concretize(self.tail)
            self._extend_fill(n, self.tailzero)
            self.tail = None
        return self.cells

    def _extend_fill(self, n, zero):
        if n > 200000:
            raise Unsupported('huge buffer')
        if zero:
            self.cells.extend([0] * n)
        else:
            self.cells.extend(garbage_cells(n))

    def __iadd__(self, o):
        if isinstance(o, SymFill) and type(o.byte) is int and o.byte == 0 and is_sym(o.n):
            self.settle()
            self.tail = o.n
            self.tailzero = True
        else:
            c = cells_of(o)
            self.settle()
            self.cells.extend(c)
        self._newmem()
        return self

    def extend(self, o):
        if not is_byteslike(o):
            o = [wrap_byte(x) for x in o]
            self.settle().extend(o)
        else:
            self.__iadd__(o)

    def append(self, x):
        self.settle().append(wrap_byte(x))
        self._newmem()

    def _newmem(self):
        self.mem.freed = True
        self.mem = Mem(self)

    def __setitem__(self, i, v):
        setitem(self, i, v)

    def __delitem__(self, i):
        if not isinstance(i, slice):
            i = slice(i, i + 1)
        cells = self.settle()
        a, n = slice_bounds(i, len(cells))
        a = concretize(a)
        n = concretize(n)
        del cells[a:a + n]


def wrap_byte(x):
    if is_sym(x):
        if bool(b_or(x < 0, x > 255)):
            raise ValueError('byte must be in range(0, 256)')
        return wrap(x, 8, False)
    if not 0 <= x <= 255:
        raise ValueError('byte must be in range(0, 256)')
    return x


def garbage_cells(n):
    out = []
    e = E()
    while n >= 8:
        out.extend(word_cells(e.garbage(64), 8))
        n -= 8
    for i in range(n):
        out.extend(word_cells(e.garbage(8), 1))
    return out


def word_cells(word, n):
    """n cells backed by one bit-vector of n*8 bits"""
    out = []
    for i in range(n):
        b = z3.Extract(8 * i + 7, 8 * i, word) if n > 1 else word
        out.append(SymInt(z3.ZeroExt(1, b), 9, 0, 255, 0, (word, i)))
    return out


def sym_bytes(name, n):
    """a fresh symbolic byte string of concrete length n"""
    e = E()
    cells = []
    i = 0
    k = e.names.get(name, 0)
    e.names[name] = k + 1
    if k:
        name = '%s#%d' % (name, k)
    while i < n:
        k = min(8, n - i)
        nm, w = e.fresh('%s@%d' % (name, i), 8 * k)
        cells.extend(word_cells(w, k))
        i += k
    e.inputs.append((name, 'cells', list(cells)))
    if not n:
        return b''
    return SymBytes(cells)


def mkbytes(cells):
    for c in cells:
        if type(c) is not int:
            return SymBytes(list(cells))
    return bytes(cells)


def is_byteslike(x):
    return isinstance(x, (bytes, bytearray, memoryview)) or isinstance(x, SymBytesBase)


def blen(x):
    if isinstance(x, SymBytesBase):
        return x.length()
    return len(x)


def cells_of(x):
    if isinstance(x, SymBytesBase):
        return x.settle()
    if isinstance(x, (bytes, bytearray, memoryview)):
        return list(x)
    raise TypeError('a bytes-like object is required, not %r' % type(x).__name__)


def concrete_bytes(x):
    if isinstance(x, SymBytesBase):
        return bytes([concretize(c) for c in x.settle()])
    return bytes(x)


def raw_cells(x):
    """cells without settling a symbolic length: list, or None"""
    if isinstance(x, SymBytes):
        return x.cells
    if type(x) in (bytes, bytearray):
        return x
    return None


def mux(cands, idx, size):
    """value selected by idx among [(k, value)]"""
    r = cands[-1][1]
    for k, v in reversed(cands[:-1]):
        r = ite(eq(idx, k), v, r)
    return r


def read_word(cells, off, size):
    """little-endian unsigned value of size bytes at off (a possibly symbolic offset *known* to be in
    bounds under the path condition)"""
    n = len(cells)
    if not isinstance(off, SymInt):
        return concat_le(cells[off:off + size])
    lo = max(0, off.lo)
    hi = min(off.hi, n - size)
    step = 1 << min(off.tz, 12)
    lo = (lo + step - 1) // step * step
    cands = [(k, concat_le(cells[k:k + size])) for k in range(lo, hi + 1, step)]
    if not cands:
        raise core.PathInfeasible()
    if len(cands) > 600:
        off = concretize(off, 2000)
        return concat_le(cells[off:off + size])
    return mux(cands, off, size)


def read_cells(cells, start, n):
    """list of n cells at a possibly symbolic start (known to be in bounds)"""
    if not isinstance(start, SymInt):
        return list(cells[start:start + n])
    if n == 0:
        return []
    out = []
    i = 0
    if start.tz >= 3:
        while i + 8 <= n:
            out.extend(split_cells(read_word(cells, start + i, 8), 8))
            i += 8
    while i < n:
        k = 1
        if start.tz >= 2 and i + 4 <= n and i % 4 == 0:
            k = 4
        elif start.tz >= 1 and i + 2 <= n and i % 2 == 0:
            k = 2
        out.extend(split_cells(read_word(cells, start + i, k), k))
        i += k
    return out


def split_cells(x, n):
    return split_le(x, n)


def norm_index(i, n):
    """Python slice bound clamped to [0, n]"""
    if not is_sym(i) and not is_sym(n):
        if i < 0:
            i += n
            if i < 0:
                i = 0
        elif i > n:
            i = n
        return i
    i = core.as_int(i)
    lo, hi = rng(i)
    if lo < 0:
        j = ite(lt(i, 0), add(i, n), i)
        if hi < 0:
            j = add(i, n)
        j = refine(ite(lt(j, 0), 0, j), 0, None)
    else:
        j = i
    nhi = rng(n)[1]
    if rng(j)[1] > rng(n)[0]:
        j = ite(lt(n, j), n, j)
        j = refine(j, 0, nhi)
    return j


def refine(x, lo, hi):
    """narrow the interval of x (must be implied by construction)"""
    if not isinstance(x, SymInt):
        return x
    nlo = x.lo if lo is None else max(lo, x.lo)
    nhi = x.hi if hi is None else min(hi, x.hi)
    if nlo == x.lo and nhi == x.hi:
        return x
    return SymInt.make(x.e, x.w, nlo, nhi, x.tz)


def slice_bounds(s, n):
    """(start, length) of a slice with step 1 over a sequence of n items"""
    if s.step is not None and s.step != 1:
        raise Unsupported('slice step')
    a = 0 if s.start is None else norm_index(s.start, n)
    b = n if s.stop is None else norm_index(s.stop, n)
    if not is_sym(a) and not is_sym(b):
        return a, max(0, b - a)
    d = sub(core.as_int(b), core.as_int(a))
    if rng(d)[0] < 0:
        d = refine(ite(lt(d, 0), 0, d), 0, None)
    nh = rng(n)[1]
    d = refine(d, None, nh) if isinstance(d, SymInt) else d
    return a, d


def getitem(x, i):
    if isinstance(i, slice):
        n = blen(x)
        if is_sym(n):
            if isinstance(x, SymView) and x.got is None:
                a, d = slice_bounds(i, n)
                st = x.start + a
                if not is_sym(st) and not is_sym(d):
                    return mkbytes(x.parent[st:st + d])
                return SymView(x.parent, st, d)
            if isinstance(x, SymPad) and type(i.start) in (int, type(None)) and type(i.stop) is int and \
                    0 <= (i.start or 0) and 0 <= i.stop <= len(x.head) and i.step is None:
                return mkbytes(x.head[i.start or 0:i.stop])
            cells = cells_of(x)
            n = len(cells)
        else:
            cells = cells_of(x)
        if i.step is not None and i.step != 1:
            r = cells[slice(*[None if v is None else concretize(v) for v in (i.start, i.stop, i.step)])]
            return wrap_like(x, r)
        a, d = slice_bounds(i, n)
        if not is_sym(a) and not is_sym(d):
            return wrap_like(x, cells[a:a + d])
        if type(d) is int and d == 0:
            return wrap_like(x, [])
        if isinstance(x, SymByteArray) or isinstance(x, bytearray):
            return wrap_like(x, read_cells(list(cells), a, concretize(d)))
        return SymView(list(cells), a, d)
    i = core.as_int(i)
    if i is NotImplemented:
        raise TypeError('byte indices must be integers or slices')
    n = blen(x)
    if not is_sym(i) and not is_sym(n):
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError('index out of range')
        return cells_of(x)[i]
    if isinstance(x, SymPad) and type(i) is int and 0 <= i < len(x.head):
        return x.head[i]
    neg = i < 0
    if bool(neg):
        i = i + n
    if bool(b_or(i < 0, i >= n)):
        raise IndexError('index out of range')
    cells = cells_of(x)
    return read_word(cells, refine(i, 0, len(cells) - 1), 1)


def wrap_like(x, cells):
    if isinstance(x, (SymByteArray, bytearray)):
        return SymByteArray(list(cells))
    return mkbytes(cells)


def setitem(x, i, v):
    assert isinstance(x, SymByteArray)
    cells = x.settle()
    if isinstance(i, slice):
        vc = list(cells_of(v))
        a, n = slice_bounds(i, len(cells))
        if is_sym(n):
            n = concretize(n)
        if is_sym(a):
            if len(vc) == n:
                write_cells(cells, a, vc)
                return
            a = concretize(a)
        cells[a:a + n] = vc
        if len(vc) != n:
            x._newmem()
        return
    v = wrap_byte(v)
    n = len(cells)
    if bool(i < 0):
        i = i + n
    if bool(b_or(i < 0, i >= n)):
        raise IndexError('bytearray index out of range')
    write_cells(cells, i, [v])


def write_cells(cells, off, vals):
    if isinstance(off, SymInt):
        off = concretize(off, 600)
    cells[off:off + len(vals)] = vals


def concat(parts):
    first = parts[0]
    # avoid settling a lone non-empty part
    live = [p for p in parts if not (type(p) in (bytes, bytearray) and len(p) == 0)]
    if len(live) == 1 and isinstance(live[0], SymBytesBase) and not live[0]._mutable:
        return live[0]
    # a view followed by the rest of it
    out = []
    for p in parts:
        out.extend(cells_of(p))
    if isinstance(first, (bytearray, SymByteArray)):
        return SymByteArray(out)
    return mkbytes(out)


def join(sep, seq):
    parts = []
    for i, p in enumerate(seq):
        if not is_byteslike(p):
            raise TypeError('sequence item %d: expected a bytes-like object' % i)
        if i:
            parts.append(sep)
        parts.append(p)
    if not parts:
        return b''
    return concat(parts)


def repeat(o, n):
    if isinstance(n, SymBool):
        n = n._int()
    if isinstance(n, SymInt):
        if is_byteslike(o):
            c = cells_of(o)
            if len(c) == 1:
                if n.lo < 0:
                    n = refine(ite(lt(n, 0), 0, n), 0, None)
                return SymFill(c[0], n)
        n = concretize(n)
    if is_byteslike(o):
        if isinstance(o, SymBytesBase):
            return wrap_like(o, cells_of(o) * n)
    return o * n


def bytes_eq(a, b):
    if a is b:
        return True
    if isinstance(a, SymView) and a.got is None or isinstance(b, SymView) and b.got is None:
        return _view_eq(a, b)
    la, lb = blen(a), blen(b)
    if not is_sym(la) and not is_sym(lb) and la != lb:
        return False
    if is_sym(la) or is_sym(lb):
        if not bool(la == lb):
            return False
    return cells_eq(cells_of(a), cells_of(b))


def cells_eq(ca, cb):
    if len(ca) != len(cb):
        return False
    conds = []
    i = 0
    n = len(ca)
    while i < n:
        k = min(8, n - i)
        xa, xb = ca[i:i + k], cb[i:i + k]
        i += k
        c = eq(concat_le(xa), concat_le(xb))
        if c is False:
            return False
        if c is not True:
            conds.append(c)
    return b_and(*conds)


def _same(x, y):
    if is_sym(x) != is_sym(y):
        return False
    if not is_sym(x):
        return x == y
    return eq(x, y) is True or (z3.is_true(z3.simplify(core.to_z3bool(eq(x, y)))))


def _view_eq(a, b):
    if isinstance(a, SymView) and isinstance(b, SymView) and a.got is None and b.got is None:
        if (a.parent is b.parent or len(a.parent) == len(b.parent) and
                all(x is y or (type(x) is int and type(y) is int and x == y) for x, y in zip(a.parent, b.parent))):
            if _same(a.start, b.start) and _same(a.n, b.n):
                return True
    la, lb = blen(a), blen(b)
    le = eq(core.as_int(la), core.as_int(lb))
    if le is False:
        return False
    maxn = min(rng(la)[1], rng(lb)[1])
    if isinstance(a, SymBytesBase) and not isinstance(a, SymView) and is_sym(la) or \
            isinstance(b, SymBytesBase) and not isinstance(b, SymView) and is_sym(lb):
        if not bool(le):
            return False
        return cells_eq(cells_of(a), cells_of(b))
    ga = _cell_getter(a)
    gb = _cell_getter(b)
    conds = [le] if le is not True else []
    for i in range(maxn):
        # candidates beyond the length are irrelevant
        ca, cb = ga(i), gb(i)
        if ca is None or cb is None:
            conds.append(lt(la, i + 1))
            continue
        c = eq(ca, cb)
        if c is True:
            continue
        inb = lt(i, la)
        conds.append(core.implies(inb, c))
    return b_and(*conds)


def _cell_getter(x):
    if isinstance(x, SymView) and x.got is None:
        n = len(x.parent)

        def get(i):
            off = x.start + i
            if not is_sym(off):
                return x.parent[off] if off < n else None
            if off.lo > n - 1:
                return None
            return read_word(x.parent, off, 1)
        return get
    cells = cells_of(x)
    return lambda i: cells[i] if i < len(cells) else None


def lex_lt(a, b):
    ca, cb = cells_of(a), cells_of(b)
    r = len(ca) < len(cb)
    for i in reversed(range(min(len(ca), len(cb)))):
        x, y = ca[i], cb[i]
        r = b_or(lt(x, y), b_and(eq(x, y), r))
    return r


def find(x, s, start=0, end=None):
    """bytes.find without forking over the position when the needle is one byte and the length is concrete"""
    if isinstance(s, int) or isinstance(s, SymInt):
        s = mkbytes([wrap_byte(s)])
    cells = cells_of(x)
    needle = cells_of(s)
    n = len(cells)
    a = norm_index(start, n)
    b = n if end is None else norm_index(end, n)
    m = len(needle)
    # result = first i >= a with i+m <= b and match
    alo = rng(a)[0]
    bhi = rng(b)[1]
    if m == 0:
        return ite(lt(b, a), -1, a) if is_sym(a) or is_sym(b) else (a if a <= b else -1)
    if not is_sym(a) and is_sym(start):
        pass
    r = -1
    for i in reversed(range(alo, max(alo, bhi - m + 1))):
        c = cells_eq(cells[i:i + m], needle)
        conds = [c]
        if is_sym(a):
            conds.append(a <= i)
        if is_sym(b):
            conds.append(b >= i + m)
        c = b_and(*conds)
        if c is False:
            continue
        r = ite(c, i, r)
    # Python: a start beyond len gives -1
    if is_sym(start):
        r = ite(start > n, -1, r)
    elif start > n:
        return -1
    return r


def int_to_bytes(x, length, byteorder, signed):
    if is_sym(length):
        length = concretize(length)
    bits = 8 * length
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if x.lo < lo or x.hi > hi:
        if bool(b_or(x < lo, x > hi)):
            raise OverflowError('int too big to convert')
    c = split_le(x, length)
    if byteorder == 'big':
        c = c[::-1]
    return mkbytes(c)


def int_from_bytes(b, byteorder='big', signed=False):
    c = list(cells_of(b))
    if byteorder == 'big':
        c = c[::-1]
    if not c:
        return 0
    v = concat_le(c)
    if signed:
        v = wrap(v, 8 * len(c), True)
    return v


# ---------------------------------------------------------------------------
# floats: only the bit pattern is modelled

class SymFloat(SymBase):
    """an IEEE number known by its bit pattern (32 or 64 bits, unsigned integer ``bits``)"""
    __slots__ = ('bits', 'w')
    __class__ = property(lambda self: float)

    def __init__(self, bits, w):
        self.bits = bits
        self.w = w

    def fp(self):
        sort = z3.Float64() if self.w == 64 else z3.Float32()
        e = z3.fpBVToFP(z3.Extract(self.w - 1, 0, core.at(self.bits, self.w + 1)), sort)
        if self.w == 32:
            e = z3.fpFPToFP(z3.RNE(), e, z3.Float64())
        return e

    def _iszero(self):
        return eq(core.and_(self.bits, (1 << (self.w - 1)) - 1), 0)

    def _isnan(self):
        if self.w == 64:
            m, inf = (1 << 63) - 1, 0x7ff << 52
        else:
            m, inf = (1 << 31) - 1, 0xff << 23
        return lt(inf, core.and_(self.bits, m))

    def __eq__(self, o):
        if isinstance(o, SymFloat):
            if o.w == self.w:
                same = eq(self.bits, o.bits)
                return b_and(not_(self._isnan()),
                             b_or(same, b_and(self._iszero(), o._iszero())))
            raise Unsupported('comparison of floats of different widths')
        if is_sym(o):
            raise Unsupported('comparison of a float and a symbolic integer')
        if not isinstance(o, (int, float)):
            return False
        if o == 0:
            return self._iszero()
        f = float(o)
        if f != f:
            return False
        import struct
        if self.w == 64:
            return eq(self.bits, struct.unpack('<Q', struct.pack('<d', f))[0])
        try:
            b = struct.pack('<f', f)
        except OverflowError:
            return False
        if struct.unpack('<f', b)[0] != f:
            return False
        return eq(self.bits, struct.unpack('<I', b)[0])

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def __bool__(self):
        return bool(not_(self._iszero()))

    def __repr__(self):
        return core._text(self, '<symfloat>')
    __str__ = __repr__

    def __format__(self, spec):
        return core._text(self, '<symfloat>')

    def _bad(self, *a):
        raise Unsupported('arithmetic on a symbolic float')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __neg__ = __lt__ = __gt__ = __le__ = __ge__ = __int__ = __float__ = _bad


def float_bits(v, w):
    """bit pattern of v rounded to w bits; None if it is not a number"""
    import struct
    if isinstance(v, SymFloat):
        if v.w == w:
            return v.bits
        if w == 64:
            # float32 -> float64 is exact
            d = z3.fpToIEEEBV(v.fp())
            return SymInt.make(z3.ZeroExt(1, d), 65, 0, (1 << 64) - 1)
        raise Unsupported('narrowing a symbolic float')
    if isinstance(v, (SymInt, SymBool)):
        raise Unsupported('symbolic integer to float')
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    return struct.unpack('<I', struct.pack('<f', v))[0]


# ---------------------------------------------------------------------------
# C memory

class MemViolation(core.Violation):
    pass


class Mem(object):
    """A block of memory: the body of a bytes/bytearray object, or C locals"""
    __slots__ = ('owner', 'freed', 'name', 'arr')

    def __init__(self, owner, name=None):
        self.owner = owner
        self.freed = False
        self.name = name

    def size(self):
        return blen(self.owner) if not isinstance(self.owner, list) else len(self.owner)

    def cells(self):
        o = self.owner
        if isinstance(o, list):
            return o
        if isinstance(o, SymByteArray):
            return o.settle()
        return cells_of(o)

    def __repr__(self):
        return '<mem %s>' % (self.name or type(self.owner).__name__)


_bytes_mem = {}


class CPtr(object):
    """pointer = block + byte offset, with the size of the pointed type (0: void)"""
    __slots__ = ('mem', 'off', 'ct')

    def __init__(self, mem, off, ct):
        self.mem = mem
        self.off = off
        self.ct = ct

    def __repr__(self):
        return '<ptr %r+%r %r>' % (self.mem, self.off, self.ct)


def bounds_fail(msg):
    e = E()
    e._fail('memory: ' + msg)


def check_access(mem, off, n, write, slack=0):
    """assert that [off, off+n) lies inside the block, for all values on this path"""
    e = E()
    if e is None:
        if mem.freed or type(off) is not int or not 0 <= off <= off + n <= mem.size() + slack:
            raise RuntimeError('memory: access outside the buffer while the modules are loaded')
        return
    e.asserts += 1
    if mem.freed:
        e._fail('memory: use of a buffer after it was reallocated')
    size = mem.size()
    ok = b_and(off >= 0, n >= 0, off + n <= size + slack)
    if ok is True:
        return
    if ok is False:
        if not e.possible(True):
            raise core.PathInfeasible()
        e._fail('memory: %s outside the buffer' % ('write' if write else 'read'))
    e.prove(ok, 'memory: %s outside the buffer' % ('write' if write else 'read'))


def mem_read(p, n):
    mem = p.mem
    slack = 0
    o = mem.owner
    if type(o) is bytes:
        off = p.off
        if type(off) is int and 0 <= off <= len(o) - n:
            return int.from_bytes(o[off:off + n], 'little')
    if isinstance(o, (bytes, SymBytesBase)) and not isinstance(o, SymByteArray):
        slack = 1       # CPython keeps a NUL after the data
    check_access(mem, p.off, n, False, slack)
    off = p.off
    if isinstance(o, SymByteArray) and o.tail is not None:
        if not E().holds(off + n <= len(o.cells)):
            o.settle()
        cells = o.cells
    else:
        cells = mem.cells()
    if slack:
        cells = list(cells) + [0]
    if isinstance(off, SymInt):
        off = refine(off, 0, len(cells) - n)
    return read_word(cells, off, n)


def mem_write(p, n, value):
    mem = p.mem
    o = mem.owner
    if type(o) is bytes or isinstance(o, SymView):
        raise Unsupported('C write into an immutable bytes object')
    check_access(mem, p.off, n, True)
    off = p.off
    if isinstance(o, SymByteArray) and o.tail is not None:
        if not E().holds(off + n <= len(o.cells)):
            o.settle()
        cells = o.cells
    else:
        cells = mem.cells()
    write_cells(cells, off, split_le(value, n))


"""Hashes of symbolic values.

Integers: the exact CPython/PyPy function (reduction modulo 2**61-1).  Strings, floats, and in pure mode tuples:
an uninterpreted function of the contents, i.e. nothing is known but that equal values have equal hashes.
Tuples in pyx mode: the exact xxHash-based combination of CPython 3.8+.
"""
import hashlib
import struct

from symex import core, data, symstr
from symex.core import SymInt, SymBool, ite, b_and, implies

P = (1 << 61) - 1
M64 = (1 << 64) - 1


def s64(x):
    return core.signed(x, 64) if hasattr(core, 'signed') else ((x & M64) ^ (1 << 63)) - (1 << 63)


def int_hash(x):
    """x: SymInt within 64 bits or so"""
    neg = x < 0
    a = ite(neg, -x, x)
    r = (a & P) + ((a >> 61) & 7)
    if isinstance(a, SymInt) and a.hi >= 1 << 64:
        raise core.Unsupported('hash of a big symbolic number')
    r = ite(r >= P, r - P, r)
    r = ite(neg, -r, r)
    return ite(r == -1, -2, r)


def uf(kind, cells):
    """uninterpreted function of a sequence of (symbolic) numbers"""
    e = core.CUR
    tab = getattr(e, 'hash_table', None)
    if tab is None or tab[0] != e.paths + e.infeasible:
        tab = e.hash_table = (e.paths + e.infeasible, [])
    cells = list(cells)
    if kind != 'float' and all(type(c) is int for c in cells):
        # (known contents: some fixed value; two different ones are taken not to collide)
        h = const_hash(kind, cells)
        for k, c2, h2 in tab[1]:
            if type(h2) is int and k == kind and c2 == cells:
                return h
    else:
        _, h = e.fresh('hash!', 64)
        h = SymInt(h, 64, -(1 << 63), (1 << 63) - 1)
        e.assume(h != -1)
    for k, c2, h2 in tab[1]:
        if type(h) is int and type(h2) is int:
            continue
        if kind == 'float' and k == 'float':
            same = float_same(cells[0], c2[0])
            if same is not False:
                e.assume(implies(same, core.eq(h, h2)))
        elif k == kind and len(c2) == len(cells):
            same = True
            for x, y in zip(cells, c2):
                same = b_and(same, core.eq(x, y))
                if same is False:
                    break
            if same is not False:
                e.assume(implies(same, core.eq(h, h2)))
    tab[1].append((kind, cells, h))
    return h


def const_hash(kind, cells):
    d = hashlib.blake2b(repr((kind, cells)).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'little', signed=True) >> 1


def content_hash(cells):
    if not cells:
        return 0
    return uf('str', cells)


def str_cells(x):
    """hash(u'abc') == hash(b'abc') only for ASCII; kept apart by kind"""
    return [c for c in x.cp]


def sym_hash(x):
    if isinstance(x, SymBool):
        return ite(x, 1, 0)
    if isinstance(x, SymInt):
        return int_hash(x)
    if isinstance(x, data.SymBytesBase):
        return content_hash(data.cells_of(x))
    if isinstance(x, symstr.SymStr):
        if not x.cp:
            return 0
        return uf('text', str_cells(x))
    if isinstance(x, data.SymFloat):
        return ite(x._iszero(), 0, uf('float', [x]))
    if isinstance(x, float):
        return 0 if x == 0 else uf('float', [x])
    if isinstance(x, bytes):
        return content_hash(list(x))
    if isinstance(x, str):
        return uf('text', [ord(c) for c in x]) if x else 0
    raise core.Unsupported('hash of %s' % type(x).__name__)


def float_same(x, y):
    """equality of non-zero floats"""
    if type(x) is float and type(y) is float:
        return x == y
    if type(x) is float:
        x, y = y, x
    if type(y) is float:
        c = {32: 'If', 64: 'Qd'}[x.w]
        try:
            b = struct.pack('<' + c[1], y)
        except OverflowError:
            return False
        if struct.unpack('<' + c[1], b)[0] != y:
            return False
        return core.eq(x.bits, struct.unpack('<' + c[0], b)[0])
    if x.w != y.w:
        return False            # (nothing is assumed)
    return core.eq(x.bits, y.bits)


def tuple_hash(hashes):
    from symex import loader
    if getattr(loader, 'MODE', 'pure') == 'pure':
        return uf('tuple', hashes)
    return xx(hashes)


XP1, XP2, XP5 = 11400714785074694791, 14029467366897019727, 2870177450012600261


def xx(hashes):
    """CPython >= 3.8, Objects/tupleobject.c"""
    from symex import crt
    acc = crt.w(XP5, 64, True)
    n = len(hashes)
    for h in hashes:
        acc = crt.w(acc + crt.mul(h, XP2, 64), 64, True)
        hi = crt.shl(acc, 31, 64, True)
        acc = hi | crt.w(crt.shr(crt.w(acc, 64, False), 33, 64, False), 64, True)
        acc = crt.mul(acc, XP1, 64)
    acc = crt.w(acc + (n ^ (XP5 ^ 3527539)), 64, True)
    return ite(acc == -1, 1546275796, acc)


def finish(h):
    """what hash() makes of the result of __hash__"""
    return ite(h == -1, -2, h)

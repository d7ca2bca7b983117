"""C02: fixed-size reads and writes"""
from capnpy.segment.base import BaseSegmentForTests, unpack_uint32
from capnpy.segment.segment import Segment
from capnpy.segment.builder import SegmentBuilder
from capnpy import packing
from harness import wire

# fmt: (size, signed, float)
FMT = {'q': (8, True, False), 'Q': (8, False, False), 'i': (4, True, False), 'I': (4, False, False),
       'h': (2, True, False), 'H': (2, False, False), 'b': (1, True, False), 'B': (1, False, False),
       'd': (8, False, True), 'f': (4, False, True)}
READ = {'q': 'read_int64', 'Q': 'read_uint64', 'i': 'read_int32', 'I': 'read_uint32', 'h': 'read_int16',
        'H': 'read_uint16', 'b': 'read_int8', 'B': 'read_uint8', 'd': 'read_double', 'f': 'read_float'}
WRITE = {'q': 'write_int64', 'Q': 'write_uint64', 'i': 'write_int32', 'I': 'write_uint32', 'h': 'write_int16',
         'H': 'write_uint16', 'b': 'write_int8', 'B': 'write_uint8', 'd': 'write_float64', 'f': 'write_float32'}


def symbuf(ctx, n):
    return ctx.bytes('b', n)


def expected(ctx, buf, off, fmt):
    """the number stored at off (in bounds), as its bits"""
    size, signed, flt = FMT[fmt]
    n = len(buf)
    r = 0
    for k in range(n - size, -1, -1):
        r = ctx.ite(off == k, wire.rd(buf, k, size), r)
    return wire.signed(r, 8 * size) if signed else r


def same(ctx, v, ref, fmt, what):
    size, signed, flt = FMT[fmt]
    if flt:
        ctx.check(ctx.same_float(v, ref, 8 * size), what)
        ctx.out(v)
    else:
        ctx.check(v == ref, what)
        ctx.out(v)


def _read(ctx, fmt, n, buf, off, f, lo, hi):
    size = FMT[fmt][0]
    ok = ctx.all(off >= 0, off + size <= n)
    try:
        v = f()
    except IndexError:
        ctx.reach('out of bounds')
        ctx.check(ctx.not_(ok), 'IndexError for an offset inside the buffer')
        ctx.out('IndexError')
        return
    ctx.reach('read')
    ctx.check(ok, 'value returned for an offset outside the buffer')
    same(ctx, v, expected(ctx, buf, off, fmt), fmt, 'value')


def read(ctx, fmt, n, how):
    buf = symbuf(ctx, n)
    far = ctx.bool('far')
    if far:
        off = ctx.int('off', -(1 << 62), 1 << 62)
    else:
        off = ctx.int('off', -20, 40)
    s = BaseSegmentForTests(buf)
    if how == 'method':
        _read(ctx, fmt, n, buf, off, lambda: getattr(s, READ[fmt])(off), 0, 0)
    elif how == 'magic':
        _read(ctx, fmt, n, buf, off, lambda: s.read_uint64_magic(off), 0, 0)
    elif how == 'u32':
        _read(ctx, fmt, n, buf, off, lambda: unpack_uint32(buf, off), 0, 0)
    else:
        _read(ctx, fmt, n, buf, off, lambda: s.read_primitive(off, ord(fmt)), 0, 0)


def unpack(ctx, fmt, n, how, mutable=False):
    buf = symbuf(ctx, n)
    far = ctx.bool('far')
    if far:
        # the parameter is a C int
        off = ctx.int('off', -(1 << 31), (1 << 31) - 1)
    else:
        off = ctx.int('off', -20, 40)
    b = bytearray(buf) if mutable else buf
    if how == 'primitive':
        f = lambda: packing.unpack_primitive(ord(fmt), b, off)
    else:
        f = lambda: getattr(packing, how)(b, off)
    _read(ctx, fmt, n, buf, off, f, 0, 0)


def value(ctx, fmt):
    size, signed, flt = FMT[fmt]
    if flt:
        return ctx.float('v', 8 * size)
    return ctx.int('v', -(1 << 66), 1 << 66)


def fits(ctx, v, fmt):
    size, signed, flt = FMT[fmt]
    if flt:
        return True
    if signed:
        return ctx.all(v >= -(1 << (8 * size - 1)), v < (1 << (8 * size - 1)))
    return ctx.all(v >= 0, v < (1 << (8 * size)))


def bits_of(ctx, v, fmt):
    size, signed, flt = FMT[fmt]
    if flt:
        return ctx.float_bits(v, 8 * size)
    return v & ((1 << (8 * size)) - 1)


def is_nan(ctx, v, fmt):
    size, signed, flt = FMT[fmt]
    if not flt:
        return False
    b = ctx.float_bits(v, 8 * size)
    if size == 8:
        return (b & ((1 << 63) - 1)) > (0x7ff << 52)
    return (b & ((1 << 31) - 1)) > (0xff << 23)


def check_bytes(ctx, old, new, off, size, bits, what):
    """new == old except [off, off+size), which holds bits"""
    ctx.check(len(new) == len(old), what + ': length changed')
    conds = []
    w = [(bits >> (8 * i)) & 255 for i in range(size)]
    for k in range(len(old)):
        ref = old[k]
        for i in range(size):
            ref = ctx.ite(off == k - i, w[i], ref)
        conds.append(new[k] == ref)
    ctx.check(ctx.all(*conds), what + ': bytes')


def pack_into(ctx, fmt, n, how='pack_into'):
    old = symbuf(ctx, n)
    far = ctx.bool('far')
    if far:
        off = ctx.int('off', -(1 << 31), (1 << 31) - 1)
    else:
        off = ctx.int('off', -20, 40)
    size = FMT[fmt][0]
    ok = ctx.all(off >= 0, off + size <= n)
    v = value(ctx, fmt)
    if FMT[fmt][2]:
        ctx.assume(ctx.not_(is_nan(ctx, v, fmt)))
    buf = bytearray(old)
    try:
        if how == 'pack_into':
            r = packing.pack_into(ord(fmt), buf, off, v)
        else:
            r = packing.pack_int64_into(buf, off, v)
    except Exception:
        ctx.reach('refused')
        ctx.check(ctx.not_(ctx.all(ok, fits(ctx, v, fmt))), 'refused a value which fits')
        ctx.check(bytes(buf) == old, 'the buffer was changed by a refused write')
        ctx.out('refused')
        return
    ctx.reach('written')
    ctx.check(ctx.all(ok, fits(ctx, v, fmt)), 'accepted a write which does not fit')
    check_bytes(ctx, old, bytes(buf), off, size, bits_of(ctx, v, fmt), 'pack_into')
    ctx.out(bytes(buf))


def pack_value(ctx):
    v = ctx.int('v', -(1 << 63), (1 << 63) - 1)
    b = packing.pack_int64(v)
    ctx.check(len(b) == 8, 'length')
    ctx.check(wire.rd(b, 0, 8) == wire.u64(v), 'pack_int64')
    ctx.out(b)


def pack_header(ctx):
    size = ctx.int('size', 0, (1 << 31) - 1)
    p = ctx.int('p', 0, (1 << 63) - 1)
    b = packing.pack_message_header(1, size, p)
    ctx.check(len(b) == 16, 'length')
    ctx.check(wire.rd(b, 0, 4) == 0, 'segment count')
    ctx.check(wire.rd(b, 4, 4) == size, 'segment size')
    ctx.check(wire.rd(b, 8, 8) == wire.u64(p), 'pointer')
    ctx.out(b)


def _filled(ctx, n):
    """a builder with n arbitrary bytes"""
    old = symbuf(ctx, n)
    b = SegmentBuilder()
    pos = b.allocate(n)
    for i in range(n):
        b.write_uint8(pos + i, old[i])
    return b, old


def write(ctx, fmt, n, how):
    b, old = _filled(ctx, n)
    size = FMT[fmt][0]
    off = ctx.int('off', 0, n - size)
    v = value(ctx, fmt)
    if FMT[fmt][2]:
        ctx.assume(ctx.not_(is_nan(ctx, v, fmt)))
    try:
        if how == 'generic':
            b.write_generic(ord(fmt), off, v)
        else:
            getattr(b, WRITE[fmt])(off, v)
    except Exception:
        ctx.reach('refused')
        ctx.check(ctx.not_(fits(ctx, v, fmt)), 'refused a value which fits')
        ctx.check(b.as_string() == old, 'a refused write changed the buffer')
        ctx.out('refused')
        return
    ctx.reach('written')
    ctx.check(fits(ctx, v, fmt), 'accepted a value which does not fit')
    new = b.as_string()
    check_bytes(ctx, old, new, off, size, bits_of(ctx, v, fmt), 'write')
    ctx.out(new)


def write_bool(ctx, n, number=False):
    b, old = _filled(ctx, n)
    off = ctx.int('off', 0, n - 1)
    bit = ctx.int('bit', 0, 7)
    v = ctx.int('v', -(1 << 31), (1 << 31) - 1) if number else ctx.bool('v')
    cur = 0
    for k in range(n):
        cur = ctx.ite(off == k, old[k], cur)
    ctx.assume((cur >> bit) & 1 == 0)       # a bool is written once, in zeroed space
    b.write_bool(off, bit, v)
    new = b.as_string()
    check_bytes(ctx, old, new, off, 1, cur | ctx.ite(v != 0, 1, 0) << bit, 'write_bool')
    ctx.out(new)


def write_slice(ctx, n, m):
    b, old = _filled(ctx, n)
    src = ctx.bytes('src', m)
    i = ctx.int('i', 0, n)
    start = ctx.int('start', 0, m)
    k = ctx.int('k', 0, n)
    ctx.assume(ctx.all(i + k <= n, start + k <= m))
    b.write_slice(i, Segment(src), start, k)
    new = b.as_string()
    i, start, k = ctx.force(i), ctx.force(start), ctx.force(k)
    ctx.check(new == old[:i] + src[start:start + k] + old[i + k:], 'write_slice')
    ctx.out(new)


def dump_message(ctx, n):
    buf = symbuf(ctx, n)
    far = ctx.bool('far')
    if far:
        start = ctx.int('start', -(1 << 62), 1 << 62)
        end = ctx.int('end', -(1 << 62), 1 << 62)
    else:
        start = ctx.int('start', -2, n + 2)
        end = ctx.int('end', -2, n + 2)
    p = ctx.int('p', -(1 << 63), (1 << 63) - 1)
    ok = ctx.all(start >= 0, start <= end, end <= n)
    if far:
        ctx.assume(ctx.not_(ok))
    try:
        r = BaseSegmentForTests(buf).dump_message(p, start, end)
    except ValueError:
        ctx.reach('refused')
        ctx.check(ctx.not_(ok), 'refused a range inside the buffer')
        ctx.out('ValueError')
        return
    ctx.reach('dumped')
    ctx.check(ok, 'accepted a range outside the buffer')
    start, end = ctx.force(start), ctx.force(end)
    ctx.check(len(r) == 16 + end - start, 'length')
    ctx.check(wire.rd(r, 0, 4) == 0, 'segment count')
    if (end - start) % 8 == 0:
        ctx.check(wire.rd(r, 4, 4) == (end - start) // 8 + 1, 'segment size')
    ctx.check(wire.rd(r, 8, 8) == wire.u64(p), 'root pointer')
    ctx.check(r[16:] == buf[start:end], 'body')
    ctx.out(r)

"""C12: messages made of arbitrary bytes.

The memory model of the engine asserts that every access of the compiled code lies inside the buffers.  What the
harness adds is what happens to the values: nothing longer than the message, nothing written where it should not.
"""
import importlib
import struct

from harness import wire


def mod(name):
    return importlib.import_module(name)


def cls(name):
    return getattr(mod('sz'), name)


def words(ctx, n):
    return ctx.bytes('msg', 8 * n)


def word(ctx, b, i):
    """the 64 bits at word i, as a signed number"""
    v = ctx.le([b[8 * i + k] for k in range(8)])
    return ctx.ite(v >= 1 << 63, v - (1 << 64), v)


def done(ctx, ok):
    ctx.reach('value' if ok else 'exception')
    ctx.check(True, 'terminated')


def plain(ctx, v, n, what):
    """a text or data read from a message of n words"""
    if v is not None:
        ctx.check(len(v) <= 8 * n, what + ': longer than the message')


def look(ctx, name, v, n):
    """use an object which was read from a message of n words"""
    if v is None:
        return
    if name in ('ZT', 'ZD', 'ZU'):
        plain(ctx, v, n, 'text')
    elif name == 'ZS':
        ctx.guarded(lambda: v.x)
        ctx.guarded(lambda: v.s)
    elif name == 'ZP':
        ctx.guarded(lambda: v.t)
    elif name == 'ZA':
        ctx.guarded(v.as_text)
        ctx.guarded(v.as_data)
    else:
        items(ctx, name, v, n)


def items(ctx, name, v, n):
    ok, k = ctx.guarded(len, v)
    if not ok:
        return
    if k > 0:
        i = ctx.choice('index', (0, 1, -1))
        ok, x = ctx.guarded(lambda: v[i])
        if ok and name in ('ZLT', 'ZLD', 'ZLU'):
            plain(ctx, x, n, 'item')
        elif ok and name == 'ZLS':
            ctx.guarded(lambda: x.x)
            ctx.guarded(lambda: x.s)
        elif ok and name == 'ZLL' and x is not None:
            ctx.guarded(lambda: x[0])
    ctx.guarded(lambda: v[k - 1])


def getter(ctx, name, field, n, d=0, p=1):
    b = words(ctx, n)
    s = cls(name).from_buffer(b, 0, d, p)
    ctx.guarded(lambda: getattr(s, 'has_' + field)())
    ok, v = ctx.guarded(lambda: getattr(s, field))
    if ok:
        look(ctx, name, v, n)
    ok, v = ctx.guarded(lambda: getattr(s, 'get_' + field)())
    done(ctx, ok)


def hashed(ctx, name, n, d=0, p=1):
    ctx.stack(3)
    b = words(ctx, n)
    s = cls(name).from_buffer(b, 0, d, p)
    ok, h = ctx.guarded(hash, s)
    done(ctx, ok)


def hashed_text(ctx, name, n, count):
    """the hash is the one of the value, also when the pointer is wrong"""
    b = words(ctx, n)
    field = {'ZT': 't', 'ZD': 'd'}[name]
    w0 = word(ctx, b, 0)
    ctx.assume((w0 & 3) == 1)
    s = cls(name).from_buffer(b, 0, 0, 1)
    ok, h = ctx.guarded(hash, s)
    ok2, v = ctx.guarded(lambda: getattr(s, field))
    if ok and ok2:
        ctx.check(h == hash((v,)), 'hash of a text out of the message')
    done(ctx, ok)


def equality(ctx, name, n):
    b = words(ctx, n)
    s = cls(name).from_buffer(b, 0, 0, 1)
    t = cls(name).from_buffer(b, 8, 0, 1)
    ok, v = ctx.guarded(lambda: (s.l, t.l))
    if ok and v[0] is not None and v[1] is not None:
        # (iterating on a list which claims to have a lot of items takes a lot of time, but no memory)
        ok1, k = ctx.guarded(len, v[0])
        if ok1 and k <= 4:
            ok, r = ctx.guarded(lambda: v[0] == v[1])
    done(ctx, ok)


def clean(ctx, bld):
    """the space which was not allocated yet is still full of zeros"""
    pos = bld.allocate(24)
    buf = bld.as_string()
    ok = True
    for i in range(24):
        ok = ctx.all(ok, buf[pos + i] == 0)
    ctx.check(ok, 'written after the end of the allocated space')


KINDS = ('struct', 'void', 'bit', 'bytes', '64', 'ptrs', 'composite', 'far', 'other')


def of_kind(ctx, w, kind):
    """the pointer w is of the given kind"""
    k = w & 3
    t = (w >> 32) & 7
    tags = {'void': (0, 0), 'bit': (1, 1), 'bytes': (2, 4), '64': (5, 5), 'ptrs': (6, 6), 'composite': (7, 7)}
    if kind in tags:
        lo, hi = tags[kind]
        ctx.assume(ctx.all(k == 1, t >= lo, t <= hi))
    else:
        ctx.assume(k == {'struct': 0, 'far': 2, 'other': 3}[kind])


def copy(ctx, n, length, kinds, depth=3):
    """copy the object of the pointer at word 0 into a builder which has just enough space"""
    ctx.stack(depth)
    b = words(ctx, n)
    for i, k in enumerate(kinds):
        of_kind(ctx, word(ctx, b, i), k)
    at = 0
    B = mod('capnpy.segment.builder').SegmentBuilder
    seg = mod('capnpy.segment.segment').Segment(b)
    bld = B(length)
    pos = bld.allocate(8)
    ok, r = ctx.guarded(bld.copy_from_pointer, pos, seg, word(ctx, b, at), 8 * at)
    clean(ctx, bld)
    done(ctx, ok)


def copy_composite(ctx, n, length, d, p, kinds, depth=3):
    """the same for a list of structs whose tag can be anything"""
    ctx.stack(depth)
    b = words(ctx, n)
    w0 = word(ctx, b, 0)
    of_kind(ctx, w0, 'composite')
    ctx.assume(((w0 >> 2) & 0x3fffffff) == 0)
    ctx.assume(ctx.all(*[b[12 + i] == (d | p << 16) >> (8 * i) & 255 for i in range(4)]))
    for i, k in enumerate(kinds):
        of_kind(ctx, word(ctx, b, 2 + i), k)
    B = mod('capnpy.segment.builder').SegmentBuilder
    seg = mod('capnpy.segment.segment').Segment(b)
    bld = B(length)
    pos = bld.allocate(8)
    ok, r = ctx.guarded(bld.copy_from_pointer, pos, seg, w0, 0)
    clean(ctx, bld)
    done(ctx, ok)


def copy_inline(ctx, n, kinds):
    """a struct of the message becomes an item of a new list"""
    ctx.stack(3)
    b = words(ctx, n)
    for i, k in enumerate(kinds):
        of_kind(ctx, word(ctx, b, i), k)
    ok, s = ctx.guarded(cls('ZS').from_buffer, b, 0, 1, 1)
    ok, v = ctx.guarded(lambda: s.s)
    if ok and v is not None:
        ok, m = ctx.guarded(lambda: cls('ZLS')(l=[v]))
    done(ctx, ok)


def build_from(ctx, name, field, n):
    """put an object of the message into a new one"""
    ctx.stack(3)
    b = words(ctx, n)
    s = cls(name).from_buffer(b, 0, 0, 1)
    ok, v = ctx.guarded(lambda: getattr(s, field))
    if ok and v is not None:
        if field == 'l':
            ok1, k = ctx.guarded(len, v)
            if ok1 and k <= 3:
                ok, m = ctx.guarded(lambda: cls(name)(v))
        else:
            ok, m = ctx.guarded(lambda: cls(name)(v))
    done(ctx, ok)


def end(ctx, n, d, p, depth=3):
    ctx.stack(depth)
    b = words(ctx, n)
    s = mod('capnpy.struct_').Struct.from_buffer(b, 0, d, p)
    ok, e = ctx.guarded(s._get_end)
    if ok:
        ctx.check(e >= -1, 'end')
    done(ctx, ok)


def list_end(ctx, name, n):
    ctx.stack(3)
    b = words(ctx, n)
    s = cls(name).from_buffer(b, 0, 0, 1)
    ok, v = ctx.guarded(lambda: s.l)
    if ok and v is not None:
        ok, e = ctx.guarded(v._get_end)
        ctx.guarded(v._get_slice)
    done(ctx, ok)


def dumps(ctx, n, d, p, fast):
    ctx.stack(3)
    b = words(ctx, n)
    s = mod('capnpy.struct_').Struct.from_buffer(b, 0, d, p)
    ok, r = ctx.guarded(lambda: s.dumps(fastpath=fast))
    done(ctx, ok)


def compact(ctx, n, d, p, kinds=()):
    ctx.stack(3)
    b = words(ctx, n)
    for i, k in enumerate(kinds):
        of_kind(ctx, word(ctx, b, i), k)
    s = mod('capnpy.struct_').Struct.from_buffer(b, 0, d, p)
    ok, r = ctx.guarded(s.compact)
    done(ctx, ok)


def root(ctx, n):
    """the sizes of the root object can be anything"""
    b = words(ctx, n)
    off = ctx.int('offset', -(1 << 33), 1 << 33)
    d = ctx.int('data', 0, 65535)
    p = ctx.int('ptrs', 0, 65535)
    ok, s = ctx.guarded(cls('ZS').from_buffer, b, off, d, p)
    if ok:
        ctx.check(off + 8 * (d + p) <= 8 * n, 'accepted a struct which does not fit')
        ctx.guarded(lambda: s.x)
        ctx.guarded(lambda: s.s)
    done(ctx, ok)


def read_ptr(ctx, n):
    b = words(ctx, n)
    off = ctx.int('offset', -(1 << 63), (1 << 63) - 1)
    seg = mod('capnpy.segment.segment').Segment(b)
    ok, p = ctx.guarded(seg.read_ptr, off)
    ctx.check(ctx.iff(ok, ctx.all(off >= 0, off <= 8 * n - 8)), 'read_ptr: bounds')
    done(ctx, ok)


def far(ctx, n, m, op, name='ZS', field='s', kinds=()):
    """two segments with arbitrary contents"""
    ctx.stack(3)
    b = words(ctx, n + m)
    for i, k in enumerate(kinds):
        of_kind(ctx, word(ctx, b, n + i), k)
    w0 = word(ctx, b, 0)
    ctx.assume((w0 & 3) == 2)
    seg = mod('capnpy.segment.segment').MultiSegment(b, (0, 8 * n))
    if op == 'read':
        s = cls(name).from_buffer(seg, 0, 0, 1)
        ok, v = ctx.guarded(lambda: getattr(s, field))
        if ok:
            look(ctx, name, v, n + m)
    elif op == 'copy':
        B = mod('capnpy.segment.builder').SegmentBuilder
        bld = B(16)
        pos = bld.allocate(8)
        ok, r = ctx.guarded(bld.copy_from_pointer, pos, seg, w0, 0)
        clean(ctx, bld)
    elif op == 'end':
        s = mod('capnpy.struct_').Struct.from_buffer(seg, 0, 0, 1)
        ok, r = ctx.guarded(s._get_end)
        ctx.check(ok, 'end')
        ctx.check(r == -1, 'end')
    elif op == 'hash':
        s = cls(name).from_buffer(seg, 0, 0, 1)
        ok, r = ctx.guarded(hash, s)
    elif op == 'any':
        s = cls('ZA').from_buffer(seg, 0, 0, 1)
        ok, v = ctx.guarded(lambda: s.a)
        if ok and v is not None:
            anyops(ctx, v, n + m)
    done(ctx, ok)


def anyops(ctx, v, n):
    ctx.guarded(v.is_struct)
    ctx.guarded(v.is_list)
    ctx.guarded(v.is_text)
    ok, t = ctx.guarded(v.as_text_bytes)
    if ok:
        plain(ctx, t, n, 'text')
    ok, t = ctx.guarded(v.as_data)
    if ok:
        plain(ctx, t, n, 'data')
    ok, s = ctx.guarded(v.as_struct, cls('ZS'))
    if ok and s is not None:
        ctx.guarded(lambda: s.x)
    ok, l = ctx.guarded(v.as_list, int)
    if ok and l is not None:
        ctx.guarded(lambda: l[0])


def anyptr(ctx, n):
    b = words(ctx, n)
    s = cls('ZA').from_buffer(b, 0, 0, 1)
    ok, v = ctx.guarded(lambda: s.a)
    if ok and v is not None:
        anyops(ctx, v, n)
    done(ctx, ok)


def chain(ctx, op, kind, cyclic):
    """a list of structs, each of them with a pointer to the next, or to itself"""
    ctx.stack(8)
    n = 40 if ctx.symbolic else 1000000
    # words: data, pointer
    if op in ('repr', 'hash') or kind == 'ZS':
        d = 1
    else:
        d = 0
    x = ctx.int('x', -5, 5)
    if cyclic:
        b = wire.word(x) * d + wire.word(wire.mk_struct(-1 - d, d, 1))
    elif ctx.symbolic:
        b = []
        for i in range(n):
            b += wire.word(x) * d + wire.word(wire.mk_struct(0, d, 1))
        b += wire.word(x) * d + wire.word(0)
    else:
        b = list((struct.pack('<q', x) * d + struct.pack('<Q', wire.mk_struct(0, d, 1))) * n +
                 struct.pack('<q', x) * d + bytes(8))
    b = ctx.pack(b)
    s = cls('ZS' if d else 'ZP').from_buffer(b, 0, d, 1)
    if op == 'end':
        ok, r = ctx.guarded(s._get_end)
    elif op == 'compact':
        ok, r = ctx.guarded(s.compact)
    elif op == 'dumps':
        ok, r = ctx.guarded(s.dumps)
    elif op == 'repr':
        ok, r = ctx.guarded(s.shortrepr)
    elif op == 'hash':
        ok, r = ctx.guarded(hash, s)
    elif op == 'build':
        ok, r = ctx.guarded(lambda: cls('ZS' if d else 'ZP')(s=s))
    if cyclic and op != 'end':
        ctx.check(not ok, op + ': the pointers cannot be followed forever')
    done(ctx, ok)


def far_cycle(ctx, op):
    """a far pointer to itself"""
    ctx.stack(6)
    B = mod('capnpy.segment.builder').SegmentBuilder
    seg = mod('capnpy.segment.segment').MultiSegment(ctx.pack(wire.word(2)), (0,))
    bld = B(64)
    pos = bld.allocate(8)
    ok, r = ctx.guarded(bld.copy_from_pointer, pos, seg, 2, 0)
    ctx.check(not ok, 'copied')
    ctx.check(True, 'terminated')


def allocate(ctx):
    """when there is no memory, nothing is written"""
    B = mod('capnpy.segment.builder').SegmentBuilder
    n = ctx.int('n', 1 << 48, 1 << 60)
    bld = B(16)
    bld.allocate(8)
    ok, r = ctx.guarded(bld.allocate, n)
    ctx.check(not ok, 'allocated')
    ctx.check(bld.get_length() == 8, 'length after the failure')

"""C16: comparing lists"""
import importlib

from harness import wire, mk
from harness.h_write import PRIMS, load, index_of

NUM = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'e')


def source(ctx, pre, field, spec, enc='plain', lead=1):
    """a list in a message of its own; returns (list, reference of the items)"""
    mod, lay = load()
    s = lay['structs']['W']
    m = mk.Msg(ctx)
    m.garbage(lead, pre + 'lead')
    root = m.zeros(s['data'] + s['ptrs'])
    at = root + 8 * s['data'] + 8 * index_of(field)
    ref = fill(ctx, m, pre, field, spec, at, enc)
    m.garbage(1, pre + 'tail')
    if enc == 'far':
        # the same list, through a landing pad in another segment
        from capnpy.segment.segment import MultiSegment
        w = wire.rd(m.cells, at, 8)
        t = at + 8 + 8 * wire.off(ctx.force(w))
        pad = t - 8
        m.put(at, wire.mk_far(0, 0, 1))
        buf = m.bytes()
        o = mod.W.from_buffer(MultiSegment(buf, (0, pad)), root, s['data'], s['ptrs'])
    else:
        o = mod.W.from_buffer(m.bytes(), root, s['data'], s['ptrs'])
    return getattr(o, field), ref


def fill(ctx, m, pre, field, spec, at, enc):
    if field in PRIMS:
        tag, w = PRIMS[field]
        n = spec
        if enc == 'composite':
            t = m.garbage(1 + 2 * n, pre + 'body')
            m.put(t, wire.mk_struct(n, 1, 1))
            m.put_list(at, t, 7, 2 * n)
            bits = [wire.rd(m.cells, t + 8 + 16 * i, w // 8) for i in range(n)]
        elif enc == 'far':
            pad = m.zeros(1)
            t = m.garbage((n * w + 63) // 64, pre + 'body')
            m.put_list(pad, t, tag, n)
            m.put_list(at, t, tag, n)
            bits = [wire.rd(m.cells, t + i * w // 8, w // 8) for i in range(n)]
        else:
            t = m.garbage((n * w + 63) // 64, pre + 'body')
            m.put_list(at, t, tag, n)
            bits = [wire.rd(m.cells, t + i * w // 8, w // 8) for i in range(n)]
        if field in ('f32', 'f64'):
            # no NaN: whether lists with a NaN are equal depends on the identity of the objects
            for b in bits:
                ctx.assume(b & ((1 << (w - 1)) - 1) <= (0x7f800000 if w == 32 else 0x7ff0000000000000))
            return [('f', b, w) for b in bits]
        return [wire.signed(b, w) if field[0] == 'i' else b for b in bits]
    if field == 'b':
        t = m.garbage((spec + 63) // 64, pre + 'body')
        m.put_list(at, t, 1, spec)
        return [(m.cells[t + i // 8] >> (i % 8)) & 1 for i in range(spec)]
    if field == 'v':
        m.put_list(at, m.here(), 0, spec)
        return [None] * spec
    if field in ('t', 'd', 'tu'):
        n = len(spec)
        if enc == 'far':
            m.zeros(1)
        t = m.zeros(n)
        m.put_list(at, t, 6, n)
        if enc == 'far':
            m.put_list(t - 8, t, 6, n)
        ref = [None] * n
        order = range(n) if enc != 'rev' else reversed(range(n))
        for i in order:
            if spec[i] is None:
                continue
            if enc == 'gap':
                m.garbage(1, pre + 'gap%d' % i)
            c = [ctx.int('%st%d_%d' % (pre, i, k), 1 if field == 'tu' else 0, 127 if field == 'tu' else 255)
                 for k in range(spec[i])]
            nul = [] if field == 'd' else [0]
            x = m.add(c + nul)
            if enc == 'pad' and len(c + nul) % 8:
                # whatever is in the padding of a text does not belong to it
                g = ctx.bytes('%sp%d' % (pre, i), 8 - len(c + nul) % 8)
                for k in range(len(g)):
                    m.cells[x + len(c + nul) + k] = g[k]
            m.put_list(t + 8 * i, x, 2, len(c + nul))
            ref[i] = ('s', c)
        return ref
    if field in ('ll', 'lt'):
        n = len(spec)
        t = m.zeros(n)
        m.put_list(at, t, 6, n)
        ref = [None] * n
        order = range(n) if enc != 'rev' else reversed(range(n))
        for i in order:
            if spec[i] is None:
                ref[i] = ('l', [])
                continue
            inner = {'ll': 'i16', 'lt': 't'}[field]
            ref[i] = ('l', fill(ctx, m, '%s%d.' % (pre, i), inner, spec[i], t + 8 * i, 'plain'))
        return ref
    if field == 's':
        t = m.garbage(1 + 2 * spec, pre + 'body')
        m.put(t, wire.mk_struct(spec, 1, 1))
        for i in range(spec):
            m.put(t + 16 + 16 * i, 0)
        m.put_list(at, t, 7, 2 * spec)
        return None
    raise ValueError(field)


def equal(ctx, a, b):
    """are the items equal?"""
    if isinstance(a, list):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = ctx.all(r, equal(ctx, x, y))
        return r
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, tuple):
        if a[0] == 'f':
            w = a[2]
            x, y = a[1], b[1]
            m = (1 << (w - 1)) - 1
            return ctx.any(x == y, ctx.all(x & m == 0, y & m == 0))
        return equal(ctx, a[1], b[1])
    return a == b


def verdict(ctx, a, b, same, what):
    # (== of the objects may fork)
    ctx.check(ctx.iff(a == b, same), what + ': == says what == of the items says')
    ctx.check(ctx.iff(a != b, ctx.not_(same)), what + ': != says what != of the items says')


def two(ctx, field, a, b, enca='plain', encb='plain', field2=None):
    x, rx = source(ctx, 'a.', field, a, enca, 1)
    y, ry = source(ctx, 'b.', field2 or field, b, encb, 2)
    if (field == 'tu') != ((field2 or field) == 'tu'):
        # bytes and unicode are never equal
        same = len(rx) == len(ry) and all(i is None and j is None for i, j in zip(rx, ry))
    elif field2 and (field in ('ll', 'lt')) != (field2 in ('ll', 'lt')):
        same = not rx and not ry
    else:
        same = equal(ctx, rx, ry)
    verdict(ctx, x, y, same, 'two lists')
    # and what Python says about the items
    verdict(ctx, x, list(y), same, 'a list and a Python list')


def itself(ctx, field, a):
    """an object compared with itself and with what is read again"""
    x, rx = source(ctx, 'a.', field, a)
    ctx.check(x == x, 'equal to itself')
    ctx.check(not (x != x), 'not different from itself')


def others(ctx, field, a):
    x, rx = source(ctx, 'a.', field, a)
    for o in (None, 5, b'abc', tuple(x), u'x'):
        ctx.check(not (x == o), 'equal to something which is not a list')
        ctx.check(x != o, 'different from anything else')
    n = len(rx)
    for o in (list(x)[:-1] if n else [None], list(x) + [None], [object()] * n if n else [1]):
        ctx.check(not (x == o), 'equal to another list')
        ctx.check(x != o, 'different from another list')


def refused(ctx, f, what):
    try:
        f()
        ok = False
    except TypeError:
        ok = True
    ctx.check(ok, what + ' has to be refused')


def structs(ctx, n, other):
    x, _ = source(ctx, 'a.', 's', n)
    y = {'same': x, 'list': list(x), 'empty': [], 'other': None, 'ints': None}[other]
    if other == 'other':
        y, _ = source(ctx, 'b.', 's', n)
    elif other == 'ints':
        y, _ = source(ctx, 'b.', 'i64', n)
    refused(ctx, lambda: x == y, 'comparing a list of structs')
    refused(ctx, lambda: x != y, 'comparing a list of structs')
    if other != 'list' and other != 'empty':
        refused(ctx, lambda: y == x, 'comparing with a list of structs')


def ordering(ctx, field, a):
    x, _ = source(ctx, 'a.', field, a)
    y, _ = source(ctx, 'b.', field, a)
    refused(ctx, lambda: x < y, '<')
    refused(ctx, lambda: x <= y, '<=')
    refused(ctx, lambda: x > y, '>')
    refused(ctx, lambda: x >= y, '>=')

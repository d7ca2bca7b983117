"""C03: the message builder"""
from capnpy.segment.builder import SegmentBuilder
from harness import wire


def words(n):
    return (n + 7) // 8 * 8


def pre(ctx, cap, end):
    """a builder of the given initial capacity with end arbitrary bytes already in it"""
    b = SegmentBuilder(cap)
    pos = b.allocate(end)
    ctx.check(pos == 0, 'the first allocation does not start at 0')
    ref = [0] * end
    raw = ctx.bytes('pre', end)
    for i in range(0, end, 8):
        w = wire.s64(wire.rd(raw, i, 8))
        b.write_int64(i, w)
        ref[i:i + 8] = [raw[j] for j in range(i, i + 8)]
    return b, ref


def compare(ctx, b, ref, what):
    got = b.as_string()
    ctx.check(b.get_length() == len(ref), what + ': get_length')
    ctx.check(len(got) == len(ref), what + ': length of the message')
    ctx.check(ctx.all(*[got[i] == ref[i] for i in range(len(ref))]), what + ': contents')


def touch(ctx, b, ref, start, n, name):
    """write something in a new region, so that later steps must preserve it"""
    for i in range(start, start + n, 8):
        v = ctx.int('%s_%d' % (name, i), 0, (1 << 64) - 1)
        b.write_uint64(i, v)
        ref[i:i + 8] = wire.word(v)


def put_ptr(ref, pos, w):
    ref[pos:pos + 8] = wire.word(w)


def do_op(ctx, b, ref, op, size, pos, name):
    end = len(ref)
    if op == 'allocate':
        r = b.allocate(8 * size)
        ctx.check(r == end, 'allocate: position')
        ref += [0] * (8 * size)
        n = 8 * size
    elif op == 'struct':
        d = ctx.int(name + 'd', 0, size)
        p = size - d
        r = b.alloc_struct(pos, d, p)
        ctx.check(r == end, 'alloc_struct: position')
        ref += [0] * (8 * size)
        put_ptr(ref, pos, wire.mk_struct((end - pos - 8) // 8, d, p))
        n = 8 * size
    elif op == 'list':
        tag = ctx.int(name + 'tag', 0, 7)
        count = ctx.int(name + 'count', 0, (1 << 29) - 1)
        r = b.alloc_list(pos, tag, count, size)
        ctx.check(r == end, 'alloc_list: position')
        n = words(size)
        ref += [0] * n
        put_ptr(ref, pos, wire.mk_list((end - pos - 8) // 8, tag, count))
    elif op in ('text', 'data'):
        s = ctx.bytes(name + 's', size)
        if op == 'text':
            r = b.alloc_text(pos, s)
            k = size + 1
        else:
            r = b.alloc_data(pos, s)
            k = size
        ctx.check(r == end, 'alloc_%s: position' % op)
        ref += [s[i] for i in range(size)] + [0] * (words(k) - size)
        put_ptr(ref, pos, wire.mk_list((end - pos - 8) // 8, 2, k))
        n = 0
    elif op == 'none':
        r = b.alloc_text(pos, None) if size else b.alloc_data(pos, None)
        ctx.check(r == -1, 'alloc_text(None)')
        put_ptr(ref, pos, 0)
        n = 0
    compare(ctx, b, ref, op)
    return n


def step(ctx, op, size, cap, end):
    """one operation from an arbitrary state, then another allocation"""
    b, ref = pre(ctx, cap, end)
    compare(ctx, b, ref, 'before')
    pos = 8 * ctx.choice('pos', range(end // 8)) if end else 0
    start = len(ref)
    n = do_op(ctx, b, ref, op, size, pos, 'a')
    touch(ctx, b, ref, start, n, 'w')
    compare(ctx, b, ref, 'after writing')
    r = b.allocate(16)
    ctx.check(r == len(ref), 'position of the next allocation')
    ref += [0] * 16
    compare(ctx, b, ref, 'next allocation')
    ctx.out(b.as_string(), b.get_length())


def wide(ctx, op):
    """sizes over their whole range: positions and pointer words"""
    b = SegmentBuilder()
    b.allocate(16)
    if op == 'struct':
        d = ctx.int('d', 0, 0xffff)
        p = ctx.int('p', 0, 0xffff)
        r = b.alloc_struct(8, d, p)
        n = (d + p) * 8
        w = wire.mk_struct(0, d, p)
    else:
        tag = ctx.int('tag', 0, 7)
        count = ctx.int('count', 0, (1 << 29) - 1)
        n = ctx.int('body', 0, 1 << 27)
        r = b.alloc_list(8, tag, count, n)
        n = (n + 7) & -8
        w = wire.mk_list(0, tag, count)
    ctx.check(r == 16, 'position')
    ctx.check(b.get_length() == 16 + n, 'get_length')
    s = b.as_string()
    ctx.check(len(s) == 16 + n, 'length of the message')
    ctx.check(wire.rd(s, 8, 8) == w, 'pointer')
    ctx.check(wire.rd(s, 0, 8) == 0, 'first word')
    ctx.out(r, b.get_length() if False else w)


def chain(ctx, ops, cap):
    """a sequence of operations, each linked from the previous one"""
    b = SegmentBuilder(cap)
    ref = []
    b.allocate(8)
    ref += [0] * 8
    pos = 0
    for i, (op, size) in enumerate(ops):
        start = len(ref)
        n = do_op(ctx, b, ref, op, size, pos, 'o%d' % i)
        touch(ctx, b, ref, start, n, 'w%d' % i)
        if n >= 8:
            pos = start
    compare(ctx, b, ref, 'chain')
    ctx.out(b.as_string())

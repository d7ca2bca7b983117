"""C23: pickle and raw dumps"""
import importlib

from harness import wire, mk
from harness.h_far import Segs


def transport(ctx, how, o):
    if how == 'raw':
        return type(o)._raw_loads(o._raw_dumps())
    if how == 'copy':
        return ctx.deepcopy(o)
    return ctx.pickle(o, how)


def state(ctx, a, b, what):
    ctx.check(type(a) is type(b), what + ': type')
    for k in ('_data_offset', '_data_size', '_ptrs_offset', '_ptrs_size'):
        ctx.check(getattr(a, k) == getattr(b, k), what + ': ' + k)
    s, t = a._seg, b._seg
    ctx.check(s.buf == t.buf, what + ': bytes')
    ctx.check(type(s) is type(t), what + ': kind of segment')
    so, to = getattr(s, 'segment_offsets', None), getattr(t, 'segment_offsets', None)
    ctx.check((so is None) == (to is None), what + ': has segments')
    if so is not None:
        ctx.check(len(so) == len(to), what + ': number of segments')
        for x, y in zip(so, to):
            ctx.check(x == y, what + ': segments')


def anywhere(ctx, how, nseg, words, schema='sx', cls='Rec'):
    """a struct at any position, with any sizes"""
    mod = importlib.import_module(schema)
    M = importlib.import_module('capnpy.segment.segment')
    c = mod
    for n in cls.split('.'):
        c = getattr(c, n)
    b = ctx.bytes('buf', 8 * words)
    off = ctx.int('off', 0, 8 * words)
    d = ctx.int('d', 0, 65535)
    p = ctx.int('p', 0, 65535)
    ctx.assume(off + 8 * d + 8 * p <= 8 * words)
    if nseg:
        offs = tuple(ctx.int('seg%d' % i, 0, 8 * words) for i in range(nseg))
        seg = M.MultiSegment(b, offs)
    else:
        seg = M.Segment(b)
    o = c.from_buffer(seg, off, d, p)
    state(ctx, o, transport(ctx, how, o), 'copy')
    # (twice)
    state(ctx, o, transport(ctx, how, transport(ctx, how, o)), 'copy of the copy')


def segment(ctx, how, nseg, words):
    """segments alone"""
    M = importlib.import_module('capnpy.segment.segment')
    b = ctx.bytes('buf', words)
    if nseg:
        seg = M.MultiSegment(b, tuple(ctx.int('seg%d' % i, 0, 1 << 40) for i in range(nseg)))
    else:
        seg = M.Segment(b)
    r = ctx.pickle(seg, how)
    ctx.check(type(r) is type(seg), 'type')
    ctx.check(r.buf == seg.buf, 'bytes')
    if nseg:
        ctx.check(len(r.segment_offsets) == nseg, 'number of segments')
        for x, y in zip(r.segment_offsets, seg.segment_offsets):
            ctx.check(x == y, 'segments')


def same(ctx, a, b, what):
    if a is None or b is None:
        ctx.check(a is None and b is None, what)
    elif hasattr(a, '_item_count'):
        ctx.check(len(a) == len(b), what + ': len')
        for x, y in zip(a, b):
            same(ctx, x, y, what + ': item')
    elif hasattr(a, '_data_size'):
        ctx.check(type(a) is type(b), what + ': class')
        ctx.check(a._data_offset == b._data_offset, what + ': position')
        ctx.check(a.x == b.x, what + ': field')
    elif isinstance(a, float):
        ctx.check(ctx.float_bits(a, 64) == ctx.float_bits(b, 64), what)
    else:
        ctx.check(a == b, what)
        ctx.out(b)


def fields(ctx, how, layout):
    """every field reads the same"""
    mod = importlib.import_module('sf')
    L = importlib.import_module('layout_sf').LAYOUT['structs']['F']
    M = importlib.import_module('capnpy.segment.segment')
    d, p = L['data'], L['ptrs']
    if layout == 'one':
        sg = Segs(ctx, [1 + d + p + 10])
    else:
        sg = Segs(ctx, [1 + d + p + 2, 4, 10])
    for i in range(1 + d, 1 + d + p):
        sg.put(0, 8 * i, 0)
    at = 8 * (1 + d)
    end = 1 + d + p
    slot = dict((f['name'], f['ptr']) for f in L['fields'] if 'ptr' in f)

    def put(name, word, k):
        i = 1 + d + slot[name]
        if layout == 'one':
            sg.put(0, 8 * i, word(end + k - i - 1))
        else:
            # through a landing pad in the second segment, or two words of it
            n = len(used)
            if n % 2 == 0:
                sg.put(0, 8 * i, wire.mk_far(1, pads[0], 1))
                sg.put(1, 8 * pads[0], wire.mk_far(0, k, 2))
                sg.put(1, 8 * pads[0] + 8, word(0))
                pads[0] += 2
            else:
                sg.put(0, 8 * i, wire.mk_far(0, 9 - n, 2))
                sg.put(2, 8 * (9 - n), word(k - (9 - n) - 1))
            used.append(name)
    used = []
    pads = [0]
    put('t', lambda o: wire.mk_list(o, 2, 4), 0)
    put('s', lambda o: wire.mk_struct(o, 1, 0), 1)
    put('l', lambda o: wire.mk_list(o, 3, 3), 2)
    put('d', lambda o: wire.mk_list(o, 2, 5), 3)
    if layout == 'one':
        seg = M.Segment(ctx.pack(sg.all()))
    else:
        seg = sg.segment()
    o = mod.F.from_buffer(seg, 8, d, p)
    r = transport(ctx, how, o)
    state(ctx, o, r, 'copy')
    for n in ('x', 't', 'd', 's', 'l', 'b', 'tu', 'lt', 'e'):
        same(ctx, getattr(o, n), getattr(r, n), n)
    ctx.check(r.t == ctx.pack((sg.cells[0][8 * end:] if layout == 'one' else sg.cells[2])[:3]), 'text')


def group(ctx, how, path, schema='sx', cls='Rec'):
    """objects of groups, and objects read from a message"""
    mod = importlib.import_module(schema)
    L = importlib.import_module('layout_' + schema).LAYOUT['structs'][cls]
    m = mk.Msg(ctx)
    m.garbage(1)
    start = m.garbage(L['data'])
    m.zeros(L['ptrs'])
    o = getattr(mod, cls).from_buffer(m.bytes(), start, L['data'], L['ptrs'])
    g = getattr(o, path)
    r = transport(ctx, how, g)
    state(ctx, g, r, 'group')
    fs = [f for f in L['fields'] if f['name'] == path][0]['fields']
    for f in fs:
        if f['kind'] == 'slot':
            same(ctx, getattr(g, mk.py(f['name'])), getattr(r, mk.py(f['name'])), f['name'])


def built(ctx, how):
    """objects made by the constructor"""
    mod = importlib.import_module('sx')
    x = ctx.int('x', -1 << 31, (1 << 31) - 1)
    t = ctx.bytes('t', 2)
    o = mod.Rec(i32=x, t=t, s=mod.Leaf(x=x, t=t), l=[1, 2], lt=[t, b''])
    r = transport(ctx, how, o)
    state(ctx, o, r, 'copy')
    ctx.check(r.i32 == x, 'x')
    ctx.check(r.t == t, 't')
    ctx.check(r.s.x == x, 's.x')
    ctx.check(r.s.t == t, 's.t')
    ctx.check(list(r.l) == [1, 2], 'l')
    ctx.check(list(r.lt) == [t, b''], 'lt')


def message(ctx, how):
    """objects of a message read from the wire"""
    mod = importlib.import_module('sf')
    n = ctx.choice('nseg', (1, 2))
    m = mk.Msg(ctx)
    if n == 1:
        m.add(wire.word(0 | (4 << 32)))
        m.put(m.add([0] * 8), wire.mk_struct(0, 1, 1))
    else:
        m.add(wire.word(1 | (3 << 32)))
        m.add(wire.word(1))
        m.put(m.add([0] * 8), wire.mk_struct(0, 1, 1))
    m.garbage(1)
    at = m.add([0] * 8)
    if n == 1:
        t = m.garbage(1)
        m.put_list(at, t, 2, 3)
    else:
        t = m.garbage(1)
        m.put(at, wire.mk_far(0, 0, 1))
        # the text is in the second segment, after its landing pad... which does not fit: empty text
        m.put(t, wire.mk_list(-1, 2, 1))
    o = mod.F.loads(m.bytes())
    r = transport(ctx, how, o)
    state(ctx, o, r, 'copy')
    ctx.check(r.x == o.x, 'x')
    ctx.check(r.t == o.t, 't')

"""C21: untyped pointers"""
import importlib

from harness import wire, mk
from harness.h_far import Segs

TYPED = {'t': 'T', 'u': 'U', 'd': 'D', 's': 'S', 'v': 'LV', 'b': 'LB', 'l1': 'L1', 'l2': 'L2', 'l4': 'L4', 'l8': 'L8',
         'lt': 'LT', 'ls': 'LS'}
TAG = {'v': 0, 'b': 1, 'l1': 2, 'l2': 3, 'l4': 4, 'l8': 5, 'lt': 6, 'ls': 7, 't': 2, 'u': 2, 'd': 2}
LEAF = (2, 1)
# words of each object (3 items)
WORDS = {'v': 0, 'b': 1, 'l1': 1, 'l2': 1, 'l4': 2, 'l8': 3, 'lt': 3, 'ls': 4, 't': 1, 'u': 1, 'd': 1, 's': 3}


def target(kind, off, n):
    """a pointer to n items"""
    if kind == 's':
        return wire.mk_struct(off, *LEAF)
    if kind == 'ls':
        return wire.mk_list(off, 7, 3)
    return wire.mk_list(off, TAG[kind], n)


def contents(ctx, kind, sg, seg, pos):
    """well-formed contents"""
    if kind == 'ls':
        sg.put(seg, pos, wire.mk_struct(1, *LEAF))
        sg.put(seg, pos + 24, 0)
    elif kind == 's':
        sg.put(seg, pos + 16, 0)
    elif kind == 'lt':
        for i in range(3):
            sg.put(seg, pos + 8 * i, 0)
    elif kind == 'u':
        for i in range(8):
            sg.cells[seg][pos + i] = sg.cells[seg][pos + i] & 0x7f


# where: the pointer is direct, or far, with one or two words of landing pad
PLACES = {
    # name: (sizes of the segments after the root struct, segment and word of the object, landing pad)
    'direct': ((6,), 0, 1, None),
    'direct2': ((6, 1), 0, 2, None),
    'pad same': ((7, 1), 0, 2, (0, 0, 1)),
    'pad other': ((0, 7), 1, 2, (0, 1, 0)),
    'pad after': ((0, 1, 7), 2, 1, (0, 2, 6)),
    'double': ((0, 2, 6), 2, 1, (1, 1, 0)),
    'double same': ((0, 8), 1, 0, (1, 1, 6)),
    'double root': ((2, 6), 1, 1, (1, 0, 0)),
    'double back': ((6, 3), 0, 1, (1, 1, 1)),
}


def message(ctx, place, word):
    """the root struct has one data word and two pointers; word(off): the pointer with such an offset;
    returns the segments, segment and offset of the object"""
    sizes, seg, w, pad = PLACES[place]
    need = 3
    sizes = [need + sizes[0]] + list(sizes[1:])
    if seg == 0:
        w += need
    sg = Segs(ctx, sizes)
    sg.put(0, 8, 0)
    at = 2
    if pad is None:
        sg.put(0, 16, word(w - at - 1))
    else:
        double, pseg, pw = pad
        if pseg == 0:
            pw += need
        sg.put(0, 16, wire.mk_far(double, pw, pseg))
        if double:
            sg.put(pseg, 8 * pw, wire.mk_far(0, w, seg))
            sg.put(pseg, 8 * pw + 8, word(0))
        else:
            sg.put(pseg, 8 * pw, word(w - pw - 1))
    return sg, seg, 8 * w


def segment(ctx, sg):
    if len(sg.sizes) == 1:
        return ctx.pack(sg.all())
    return sg.segment()


def classify(ctx, p, what, struct=False, lst=False, text=False):
    ctx.check(ctx.iff(p.is_struct(), struct), what + ': is_struct')
    ctx.check(ctx.iff(p.is_list(), lst), what + ': is_list')
    ctx.check(ctx.iff(p.is_text(), text), what + ': is_text')
    ctx.check(ctx.iff(p.is_data(), text), what + ': is_data')


def queries(ctx, place):
    """any pointer to an object of any size"""
    mod = importlib.import_module('sa')
    kind = ctx.choice('kind', ('struct', 'list', 'cap'))
    if kind == 'struct':
        d = ctx.int('d', 0, 65535)
        p = ctx.int('p', 0, 65535)
        word = lambda off: wire.mk_struct(off, d, p)
        exp = dict(struct=True)
        # (a word of zeros is the null pointer, also as the tag of a landing pad)
        ctx.assume(ctx.any(d > 0, p > 0))
    elif kind == 'list':
        tag = ctx.int('tag', 0, 7)
        n = ctx.int('n', 0, (1 << 29) - 1)
        word = lambda off: wire.mk_list(off, tag, n)
        exp = dict(lst=True, text=(tag == 2))
    else:
        idx = ctx.int('idx', 0, (1 << 32) - 1)
        word = lambda off: 3 | (idx << 32)
        exp = {}
        if PLACES[place][3] and PLACES[place][3][0]:
            return
    sg, seg, pos = message(ctx, place, word)
    o = mod.A.from_buffer(segment(ctx, sg), 0, 1, 2)
    ctx.check(o.has_any(), 'has_any')
    classify(ctx, o.any, 'any', **exp)


def offsets(ctx):
    """the offset of a direct pointer does not matter"""
    mod = importlib.import_module('sa')
    kind = ctx.choice('kind', ('struct', 'list'))
    off = ctx.int('off', -(1 << 29), (1 << 29) - 1)
    m = mk.Msg(ctx)
    m.garbage(1)
    m.zeros(1)
    if kind == 'struct':
        w = wire.mk_struct(off, ctx.int('d', 0, 65535), ctx.int('p', 0, 65535))
        ctx.assume(w != 0)
        exp = dict(struct=True)
    else:
        tag = ctx.int('tag', 0, 7)
        w = wire.mk_list(off, tag, ctx.int('n', 0, (1 << 29) - 1))
        exp = dict(lst=True, text=(tag == 2))
    m.zeros(1)
    m.put(16, w)
    o = mod.A.from_buffer(m.bytes(), 0, 1, 2)
    classify(ctx, o.any, 'any', **exp)


def null(ctx, ptrs):
    """no pointer, no object"""
    mod = importlib.import_module('sa')
    m = mk.Msg(ctx)
    m.garbage(1)
    m.zeros(2)
    m.garbage(1)
    o = mod.A.from_buffer(m.bytes(), 0, 1, ptrs)
    ctx.check(o.any is None, 'a null pointer is None')
    ctx.check(ctx.not_(o.has_any()), 'has_any')
    p = importlib.import_module('capnpy.anypointer').AnyPointer(o, 8)
    classify(ctx, p, 'null')


def same(ctx, kind, a, b, what):
    if kind in ('t', 'u', 'd'):
        ctx.check(a == b, what)
        ctx.check(type(a) is type(b), what + ': type')
        ctx.out(a)
    elif kind == 's':
        struct(ctx, a, b, what)
    else:
        ctx.check(type(a) is type(b), what + ': type')
        ctx.check(len(a) == len(b), what + ': len')
        ctx.check(type(a._item_type) is type(b._item_type), what + ': type of the items')
        for i in range(len(b)):
            if kind == 'ls':
                struct(ctx, a[i], b[i], what + ': item')
            else:
                ctx.check(a[i] == b[i], what + ': item')


def struct(ctx, a, b, what):
    ctx.check(type(a) is type(b), what + ': class')
    for k in ('_data_offset', '_data_size', '_ptrs_offset', '_ptrs_size'):
        ctx.check(getattr(a, k) == getattr(b, k), what + ': ' + k)
    for k in ('x', 't', 'y'):
        ctx.check(getattr(a, k) == getattr(b, k), what + ': ' + k)


def cast(ctx, kind, place):
    """the same object as a field with that type"""
    mod = importlib.import_module('sa')
    T = importlib.import_module('capnpy.type').Types
    n = 3
    sg, seg, pos = message(ctx, place, lambda off: target(kind, off, n))
    contents(ctx, kind, sg, seg, pos)
    buf = segment(ctx, sg)
    p = mod.A.from_buffer(buf, 0, 1, 2).any
    o = getattr(mod, TYPED[kind]).from_buffer(buf, 0, 1, 2)
    text = kind in ('t', 'u', 'd', 'l1')
    classify(ctx, p, 'any', struct=kind == 's', lst=kind != 's', text=text)
    if kind == 't':
        got = p.as_text_bytes()
        ctx.check(got == ctx.pack(sg.cells[seg][pos:pos + 2]), 'text')
    elif kind == 'u':
        got = p.as_text_unicode()
        ctx.check(got.encode('utf-8') == ctx.pack(sg.cells[seg][pos:pos + 2]), 'text')
    elif kind == 'd':
        got = p.as_data()
        ctx.check(got == ctx.pack(sg.cells[seg][pos:pos + 3]), 'data')
    elif kind == 's':
        got = p.as_struct(mod.Leaf)
        ctx.check(got.x == wire.signed(wire.rd(sg.cells[seg], pos, 8), 64), 'field')
    else:
        it = {'v': T.void, 'b': T.bool, 'l1': T.int8, 'l2': T.uint16, 'l4': T.int32, 'l8': T.int64, 'lt': bytes,
              'ls': mod.Leaf}[kind]
        got = p.as_list(it)
        ctx.check(len(got) == (1 if kind == 'ls' else n), 'len')
        same(ctx, kind, p.as_list(o.p._item_type), o.p, 'as_list(ItemType)')
    same(ctx, kind, got, o.p, 'the same as the typed field')
    if kind == 's':
        same(ctx, kind, mod.Leaf.loads(p.dumps()), mod.Leaf.loads(o.p.dumps()), 'dumps')


def mismatch(ctx, place):
    """a cast which does not match is refused"""
    mod = importlib.import_module('sa')
    T = importlib.import_module('capnpy.type').Types
    kind = ctx.choice('kind', ('struct', 'list', 'cap'))
    if kind == 'struct':
        word = lambda off: wire.mk_struct(off, 1, 0)
    elif kind == 'list':
        tag = ctx.choice('tag', range(8))
        word = lambda off: wire.mk_list(off, tag, 1)
    else:
        word = lambda off: 3
        if PLACES[place][3] and PLACES[place][3][0]:
            return
    sg, seg, pos = message(ctx, place, word)
    p = mod.A.from_buffer(segment(ctx, sg), 0, 1, 2).any
    bad = []
    if kind != 'struct':
        bad += ['as_struct']
    if kind != 'list':
        bad += ['as_list']
    if kind != 'list' or tag != 2:
        bad += ['as_text_bytes', 'as_text_unicode', 'as_data']
    for b in bad:
        args = {'as_struct': (mod.Leaf,), 'as_list': (T.int8,)}.get(b, ())
        try:
            getattr(p, b)(*args)
            ok = False
        except (AssertionError, TypeError, ValueError):
            ok = True
        ctx.check(ok, b + ' of something else has to be refused')


def union(ctx, place):
    """a generic pointer in an union"""
    mod = importlib.import_module('sa')
    sg, seg, pos = message(ctx, place, lambda off: target('s', off, 0))
    contents(ctx, 's', sg, seg, pos)
    # (the struct has a data word and a pointer: as seen from one word later)
    sg.put(0, 8, ctx.choice('tag', (0, 1)) << 32)
    tag = wire.rd(sg.cells[0], 12, 2)
    o = mod.N.from_buffer(segment(ctx, sg), 8, 1, 1)
    try:
        p = o.any
        ok = True
    except ValueError:
        ok = False
    ctx.check(ok == (tag == 0), 'any is there only if it is the active member')
    if ok:
        classify(ctx, p, 'any', struct=True)
        same(ctx, 's', p.as_struct(mod.Leaf), mod.S.from_buffer(segment(ctx, sg), 0, 1, 2).p, 'as_struct')

"""C15: writing lists"""
import importlib

from harness import wire, mk
from harness.h_ctor import exp_list, exp_ptrlist, text_checker, region, deref, width_range
from harness.tree import Image, Node, check_graph, check_tiles

PRIMS = {'i8': (2, 8), 'u8': (2, 8), 'i16': (3, 16), 'u16': (3, 16), 'i32': (4, 32), 'u32': (4, 32),
         'i64': (5, 64), 'u64': (5, 64), 'f32': (4, 32), 'f64': (5, 64), 'e': (3, 16)}
RANGE = {}


def load():
    return importlib.import_module('sw'), importlib.import_module('layout_sw').LAYOUT


def index_of(name):
    for f in load()[1]['structs']['W']['fields']:
        if f['name'] == name:
            return f['ptr']


def cells_of(buf):
    return [buf[i] for i in range(len(buf))]


def write(ctx, field, value):
    mod, lay = load()
    s = lay['structs']['W']
    pad = ctx.int('pad', 0, (1 << 64) - 1)
    obj = mod.W(**{'pad': pad, field: value})
    cells = cells_of(obj._seg.buf)
    ctx.check(len(cells) % 8 == 0, 'a whole number of words')
    regions = []
    pos = obj._data_offset
    region(ctx, cells, regions, pos, pos + 8 * (s['data'] + s['ptrs']), 'struct ')
    ctx.check(wire.rd(cells, pos, 8) == pad, 'other fields')
    at = pos + 8 * s['data']
    for i in range(s['ptrs']):
        if i != index_of(field):
            ctx.check(wire.rd(cells, at + 8 * i, 8) == 0, 'other fields')
    return obj, cells, at + 8 * index_of(field), regions


def values(ctx, field, n, src):
    """(what is passed, the bit patterns)"""
    mod, lay = load()
    tag, w = PRIMS[field]
    if src in ('list', 'tuple'):
        if field in ('f32', 'f64'):
            vs = [ctx.float('v%d' % i, w) for i in range(n)]
            bits = [ctx.float_bits(v, w) for v in vs]
        else:
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if field[0] == 'i' else (0, (1 << w) - 1)
            vs = [ctx.int('v%d' % i, lo, hi) for i in range(n)]
            bits = [v & ((1 << w) - 1) for v in vs]
        return (tuple(vs) if src == 'tuple' else vs), bits
    # a list of another message
    s = lay['structs']['W']
    m = mk.Msg(ctx)
    m.garbage(1, 'before')
    root = m.zeros(s['data'] + s['ptrs'])
    m.garbage(1, 'gap')
    at = root + 8 * s['data'] + 8 * index_of(field)
    if src == 'capnpy':
        t = m.garbage((n * w + 63) // 64, 'body')
        m.put_list(at, t, tag, n)
        bits = [wire.rd(m.cells, t + i * w // 8, w // 8) for i in range(n)]
    else:
        t = m.garbage(1 + 2 * n, 'body')
        m.put(t, wire.mk_struct(n, 1, 1))
        m.put_list(at, t, 7, 2 * n)
        bits = [wire.rd(m.cells, t + 8 + 16 * i, w // 8) for i in range(n)]
    m.garbage(1, 'after')
    o = mod.W.from_buffer(m.bytes(), root, s['data'], s['ptrs'])
    return getattr(o, field), bits


def prims(ctx, field, n, src):
    tag, w = PRIMS[field]
    value, bits = values(ctx, field, n, src)
    if src != 'list' and src != 'tuple' and field == 'f32':
        # (a signalling NaN may become quiet on its way through a double)
        for b in bits:
            ctx.assume(ctx.any(b & 0x7f800000 != 0x7f800000, b & 0x7fffff == 0, b & 0x400000 != 0))
    obj, cells, at, regions = write(ctx, field, value)
    exp_list(ctx, tag, n, [(b >> (8 * k)) & 255 for b in bits for k in range(w // 8)])(cells, at, regions, field + ': ')
    got = getattr(obj, field)
    ctx.check(len(got) == n, 'length')
    for i in range(n):
        if field in ('f32', 'f64'):
            ctx.check(ctx.same_float(got[i], bits[i], w), 'item')
        elif field[0] == 'i':
            ctx.check(got[i] == wire.signed(bits[i], w), 'item')
        else:
            ctx.check(got[i] == bits[i], 'item')
    ctx.out(obj._seg.buf)


def ranges(ctx, field):
    """any number: stored as it is, or refused"""
    tag, w = PRIMS[field]
    v = ctx.int('v', -(1 << 66), 1 << 66)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if field[0] == 'i' else (0, (1 << w) - 1)
    mod, lay = load()
    try:
        obj = mod.W(**{field: [v]})
    except Exception:
        ctx.check(ctx.any(v < lo, v > hi), 'a number in the range of the type is accepted')
        ctx.reach('refused')
        return
    ctx.check(ctx.all(v >= lo, v <= hi), 'a number outside the range of the type is refused')
    ctx.check(getattr(obj, field)[0] == v, 'item')
    ctx.reach('stored')


def text_values(ctx, field, sizes, src):
    mod, lay = load()
    exp = []
    vals = []
    for i, n in enumerate(sizes):
        if n is None:
            exp.append(None)
            vals.append(None)
        elif field == 'tu':
            u = ctx.text('t%d' % i, n, 1, 0x7ff)
            b = u.encode('utf-8')
            exp.append([b[k] for k in range(len(b))])
            vals.append(u)
        else:
            b = ctx.bytes('t%d' % i, n)
            exp.append([b[k] for k in range(n)])
            vals.append(b)
    return vals, exp


def texts(ctx, field, sizes, src):
    mod, lay = load()
    vals, exp = text_values(ctx, field, sizes, src)
    value = vals
    nul = 0 if field == 'd' else 1
    if src != 'list':
        s = lay['structs']['W']
        m = mk.Msg(ctx)
        root = m.zeros(s['data'] + s['ptrs'])
        t = m.zeros(len(sizes))
        m.put_list(root + 8 * s['data'] + 8 * index_of(field), t, 6, len(sizes))
        for i in reversed(range(len(sizes))):
            if exp[i] is not None:
                m.garbage(1)
                x = m.add(exp[i] + [0] * nul)
                m.put_text(t + 8 * i, x, len(exp[i]) + nul)
        value = getattr(mod.W.from_buffer(m.bytes(), root, s['data'], s['ptrs']), field)
    obj, cells, at, regions = write(ctx, field, value)
    exp_ptrlist(ctx, [None if e is None else text_checker(ctx, e, nul) for e in exp])(cells, at, regions, field + ': ')
    got = getattr(obj, field)
    ctx.check(len(got) == len(sizes), 'length')
    for g, v in zip(list(got), vals):
        ctx.check((g is None) == (v is None), 'null item')
        if v is not None:
            ctx.check(g == v, 'item')
            ctx.check(type(g) is type(v), 'type of the item')
    ctx.out(obj._seg.buf)


def exp_structs(ctx, items, sd=1, sp=1):
    """items: (image, node) each"""
    def check(cells, pos, regions, what):
        kind, t, w = deref(ctx, cells, pos, regions, what)
        ctx.check(kind == wire.LIST and wire.field(w, 32, 3) == 7, what + 'a list of structs')
        nw = wire.field(w, 35, 29)
        region(ctx, cells, regions, t, t + 8 + 8 * nw, what)
        tag = ctx.force(wire.rd(cells, t, 8))
        ctx.check(wire.kind(tag) == 0 and wire.off(tag) == len(items), what + 'number of items')
        d, p = wire.field(tag, 32, 16), wire.field(tag, 48, 16)
        ctx.check((d + p) * len(items) == nw, what + 'number of words')
        ctx.check(d >= sd and p >= sp, what + 'items are not smaller than the schema says')
        for i, (img, r) in enumerate(items):
            at = t + 8 + 8 * (d + p) * i
            src = img.node_cells(r)
            ctx.check(d >= r.d and p >= r.p, what + 'all fields of the item are kept')
            for k in range(8 * d):
                ctx.check(cells[at + k] == (src[k] if k < 8 * r.d else 0), what + 'item data')
            for k in range(p):
                check_graph(ctx, img, r.kids[k] if k < r.p else None, cells, at + 8 * (d + k), regions, what + 'item')
    return check


def structs(ctx, shapes, layout='pre', src='list'):
    mod, lay = load()
    if src == 'list':
        imgs = [Image(ctx, s, layout, 1) for s in shapes]
        value = [i.struct(mod.I) for i in imgs]
        items = [(i, i.root) for i in imgs]
    else:
        # all of them in one list
        n = index_of('s')
        s = lay['structs']['W']
        d = max([x[1] for x in shapes] + [0])
        p = max([len(x[2]) for x in shapes] + [0])
        kids = [list(x[2]) + [None] * (p - len(x[2])) for x in shapes]
        img = Image(ctx, ['s', s['data'], [None] * n + [['c', d, p, kids]]], layout, 1)
        value = img.struct(mod.W).s
        lst = img.root.kids[n]
        items = []
        for i in range(len(shapes)):
            it = Node(['s', d, []])
            it.seg, it.pos, it.p = lst.seg, lst.pos + 8 + 8 * (d + p) * i, p
            it.kids = lst.kids[i * p:i * p + p]
            it.words = d + p
            items.append((img, it))
    obj, cells, at, regions = write(ctx, 's', value)
    exp_structs(ctx, items)(cells, at, regions, 's: ')
    got = obj.s
    ctx.check(len(got) == len(shapes), 'length')
    for i, (img, r) in enumerate(items):
        c = img.node_cells(r)
        ctx.check(got[i].x == (wire.signed(wire.rd(c, 0, 8), 64) if r.d else 0), 'field of the item')
        ctx.check((got[i].t is None) == (r.p == 0 or r.kids[0] is None), 'null field of the item')
    ctx.out(obj._seg.buf)


def nested(ctx, field, sizes, src, none=None):
    """lists of lists; sizes: of the inner lists; none: index of a null inner list"""
    mod, lay = load()
    vals, exps = [], []
    for i, n in enumerate(sizes):
        if field == 'll':
            v = [ctx.int('v%d_%d' % (i, j), -32768, 32767) for j in range(n)]
            c = [(x >> (8 * k)) & 255 for x in v for k in (0, 1)]
            vals.append(v)
            exps.append(exp_list(ctx, 3, n, c))
        elif field == 'lt':
            v = [ctx.bytes('v%d_%d' % (i, j), j) for j in range(n)]
            vals.append(v)
            exps.append(exp_ptrlist(ctx, [text_checker(ctx, [x[k] for k in range(len(x))]) for x in v]))
        else:
            imgs = [Image(ctx, ['s', 1, [['l', 2, 2]]], 'pre', 1) for j in range(n)]
            vals.append([im.struct(mod.I) for im in imgs])
            exps.append(exp_structs(ctx, [(im, im.root) for im in imgs]))
        if none == i:
            vals[-1] = exps[-1] = None
    value = vals
    if src == 'capnpy':
        # through another message
        value = getattr(mod.W(**{field: vals}), field)
    obj, cells, at, regions = write(ctx, field, value)
    if src == 'capnpy' and none is not None:
        exps[none] = exp_list(ctx, {'ll': 3, 'lt': 6}[field], 0, [])
    exp_ptrlist(ctx, exps)(cells, at, regions, field + ': ')
    got = getattr(obj, field)
    ctx.check(len(got) == len(sizes), 'length')
    for g, v in zip(got, vals):
        n = 0 if v is None else len(v)
        ctx.check(len(g) == n, 'inner length')
        for j in range(n):
            if field == 'ls':
                ctx.check(g[j].x == v[j].x, 'inner item')
            else:
                ctx.check(g[j] == v[j], 'inner item')


def voids(ctx, n):
    obj, cells, at, regions = write(ctx, 'v', [None] * n)
    w = wire.rd(cells, at, 8)
    ctx.check(wire.kind(w) == 1 and wire.field(w, 32, 3) == 0 and wire.field(w, 35, 29) == n, 'list of void')
    ctx.check(len(obj.v) == n, 'length')


def empties(ctx, n):
    mod, lay = load()
    e = mod.Emp.from_buffer(ctx.bytes('e', 8), 0, 0, 0)
    obj, cells, at, regions = write(ctx, 'em', [e] * n)
    exp_structs(ctx, [], 0, 0)
    kind, t, w = deref(ctx, cells, at, regions, 'em')
    ctx.check(kind == 1 and wire.field(w, 32, 3) == 7 and wire.field(w, 35, 29) == 0, 'list of structs')
    ctx.check(wire.rd(cells, t, 8) == wire.mk_struct(n, 0, 0), 'tag')
    ctx.check(len(obj.em) == n, 'length')


class Other(object):
    pass


def wrong(ctx, field, item, pre):
    """an item of the wrong type: an exception, whatever comes before it"""
    mod, lay = load()
    good = {'t': b'ab', 'd': b'ab', 'tu': u'ab', 'f32': 1.5, 'f64': 1.5, 'll': [1], 'lt': [b'a'], 'e': 1, 'b': True}.get(field, 1)
    if field in ('s', 'ls'):
        good = mod.I(1, b'a')
        if field == 'ls':
            good = [good]
    bad = {'none': None, 'int': 3, 'float': 1.5, 'bytes': b'a', 'text': u'a', 'list': [1], 'strs': [u'a'], 'tuple': (1, b'a'),
           'object': Other(), 'J': lambda: mod.J(1, b'a'), 'Js': lambda: [mod.J(1, b'a')], 'true': True,
           'Emp': lambda: mod.Emp.from_buffer(b'', 0, 0, 0), 'nones': [None]}[item]
    if callable(bad) and item != 'object':
        bad = bad()
    try:
        mod.W(**{field: [good] * pre + [bad]})
        ok = False
    except Exception:
        ok = True
    ctx.check(ok, 'an item of the wrong type is refused')


def not_lists(ctx, field, what):
    mod, lay = load()
    bad = {'int': 5, 'object': Other(), 'float': 1.5, 'struct': lambda: mod.I(1, b'a')}[what]
    if what == 'struct':
        bad = bad()
    try:
        mod.W(**{field: bad})
        ok = False
    except Exception:
        ok = True
    ctx.check(ok, 'something which is not a list is refused')

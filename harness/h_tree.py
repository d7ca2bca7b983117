"""C06: copies; C07: compactness and the fast dump path; C08: dump and load"""
import importlib

from harness import wire
from harness.tree import Image, Node, check_graph, check_body, check_tiles, pick, inner, SMALL


def Struct():
    return importlib.import_module('capnpy.struct_').Struct


def message():
    return importlib.import_module('capnpy.message')


def cells_of(ctx, buf):
    n = len(buf)
    return [buf[i] for i in range(n)]


def rooted(ctx, fam, shape=None):
    """a shape whose root is a struct"""
    if shape is not None:
        return shape
    s = pick(ctx, fam)
    if s is None or s[0] != 's':
        s = ['s', ctx.choice('rootd', (0, 1)), [s]]
    return s


def check_single(ctx, img, cells, pos, what):
    """cells[pos:] is a tight message with the root pointer first"""
    regions = [(pos, pos + 8)]
    check_graph(ctx, img, img.root, cells, pos, regions, what)
    check_tiles(ctx, [(a - pos, b - pos) for a, b in regions], len(cells) - pos, what)


def check_stream(ctx, img, cells, what):
    ctx.check(len(cells) >= 16 and len(cells) % 8 == 0, what + ': a whole number of words')
    ctx.check(wire.rd(cells, 0, 4) == 0, what + ': one segment')
    ctx.check(wire.rd(cells, 4, 4) == (len(cells) - 8) // 8, what + ': size of the segment')
    check_single(ctx, img, cells, 8, what)


def same(ctx, a, b, what):
    ctx.check(a._data_size == b._data_size, what + ': data size')
    ctx.check(a._ptrs_size == b._ptrs_size, what + ': pointers size')


def copy(ctx, how, layout, fam='leaf', shape=None, lead=1):
    img = Image(ctx, rooted(ctx, fam, shape), layout, lead)
    obj = img.struct(Struct())
    before = img.cells()
    if how == 'compact':
        c = obj.compact()
        same(ctx, obj, c, 'compact')
        cells = cells_of(ctx, c._seg.buf)
        check_single(ctx, img, cells, 0, 'compact')
        if img.root.words:
            ctx.check(c._data_offset == 8, 'the copied object is the root of the new message')
        if not img.root.has_empty():
            ctx.check(c._is_compact(), 'the copy is compact')
            c2 = c.compact()
            ctx.check(c2._seg.buf == c._seg.buf, 'copying a copy changes nothing')
        ctx.out(c._seg.buf)
    elif how == 'slow':
        buf = message().dumps(obj, False)
        check_stream(ctx, img, cells_of(ctx, buf), 'slow dump')
        ctx.out(buf)
    elif how == 'dumps':
        buf = obj.dumps()
        check_stream(ctx, img, cells_of(ctx, buf), 'dump')
        ctx.out(buf)
    now = cells_of(ctx, obj._seg.buf)
    ctx.check(ctx.all(*[a == b for a, b in zip(now, before)]), 'the source is not changed')


def into_field(ctx, layout, fam='leaf', shape=None, n=1):
    """copy as the fields of a new struct"""
    mod = importlib.import_module('st')
    spec = rooted(ctx, fam, shape)
    img = Image(ctx, spec, layout, 1)
    obj = img.struct(mod.T)
    x = ctx.int('x', 0, (1 << 64) - 1)
    if n == 1:
        h = mod.Holder(x, s=obj)
    else:
        h = mod.Holder(x, s=obj, s2=obj)
    cells = cells_of(ctx, h._seg.buf)
    ctx.check(h._data_offset == 0, 'position of the new struct')
    ctx.check(wire.rd(cells, 0, 8) == x, 'data of the new struct')
    regions = [(0, 8 * (h._data_size + h._ptrs_size))]
    check_graph(ctx, img, img.root, cells, 8, regions, 's')
    if n == 1:
        ctx.check(wire.rd(cells, 16, 8) == 0, 's2')
    else:
        check_graph(ctx, img, img.root, cells, 16, regions, 's2')
    ctx.check(wire.rd(cells, 24, 8) == 0, 'ls')
    check_tiles(ctx, regions, len(cells), 'copies')
    ctx.out(h._seg.buf)


def into_items(ctx, layout, shapes):
    """copy as the items of a list of structs"""
    mod = importlib.import_module('st')
    imgs = [Image(ctx, s, layout, 1) for s in shapes]
    h = mod.Holder(5, ls=[i.struct(mod.T) for i in imgs])
    cells = cells_of(ctx, h._seg.buf)
    d, p = 2, 2
    size = 8 * (h._data_size + h._ptrs_size)
    regions = [(0, size)]
    at = 24
    w = ctx.force(wire.rd(cells, at, 8))
    ctx.check(wire.field(w, 0, 2) == 1 and wire.field(w, 32, 3) == 7, 'list of structs')
    t = at + 8 + 8 * wire.off(w)
    nw = wire.field(w, 35, 29)
    ctx.check(t + 8 + 8 * nw <= len(cells), 'list inside the message')
    regions.append((t, t + 8 + 8 * nw))
    tag = ctx.force(wire.rd(cells, t, 8))
    ctx.check(wire.field(tag, 0, 2) == 0 and wire.off(tag) == len(shapes), 'number of items')
    d, p = wire.field(tag, 32, 16), wire.field(tag, 48, 16)
    ctx.check((d + p) * len(shapes) == nw, 'number of words')
    for i, img in enumerate(imgs):
        at = t + 8 + 8 * (d + p) * i
        r = img.root
        src = img.node_cells(r)
        ctx.check(d >= min(r.d, 2) and p >= min(r.p, 2), 'items are not smaller than what is known about them')
        for k in range(8 * d):
            ctx.check(cells[at + k] == (src[k] if k < 8 * r.d else 0), 'item data')
        for k in range(p):
            check_graph(ctx, img, r.kids[k] if k < r.p else None, cells, at + 8 * (d + k), regions, 'item')
    check_tiles(ctx, regions, len(cells), 'items')
    ctx.out(h._seg.buf)


# -- C07 ------------------------------------------------------------------------
def extents(img):
    off = img.offsets()
    return [(off[n.seg] + n.pos, off[n.seg] + n.pos + 8 * n.words) for n in img.root.nodes()]


def has_far(img):
    """does a pointer of the graph go through another segment?"""
    for n in img.root.nodes():
        for k in n.kids:
            if k is not None and k.seg != n.seg and not (k.kind == 's' and k.words == 0):
                return True
    return False


def fast(ctx, layout, fam='leaf', shape=None, lead=1, tail=1):
    img = Image(ctx, rooted(ctx, fam, shape), layout, lead)
    img.garbage(0, tail)
    if img.far:
        for s in range(1, len(img.segs)):
            img.garbage(s, 1)
    obj = img.struct(Struct())
    check_end(ctx, img, obj)
    a = obj.dumps()
    b = message().dumps(obj, False)
    check_stream_loose(ctx, img, cells_of(ctx, a), 'fast dump')
    check_stream_loose(ctx, img, cells_of(ctx, b), 'slow dump')
    ctx.out(a, b)


def check_end(ctx, img, obj):
    end = obj._get_end()
    ctx.check(obj._is_compact() == (end != -1), '_is_compact() agrees with _get_end()')
    ctx.out(end)
    if end == -1:
        # an object which was laid out without gaps in the order of its pointers has to be dumped quickly
        return False
    start = obj._data_offset
    ctx.check(not has_far(img), 'a compact object has no pointer to another segment')
    for a, b in extents(img):
        if a != b:
            ctx.check(start <= a and b <= end, 'everything reachable is between start and end')
    ctx.check((end - start) % 8 == 0, 'a whole number of words')
    ctx.reach('compact')
    return True


def check_stream_loose(ctx, img, cells, what):
    """a valid message with an equal graph (objects may have gaps between them)"""
    ctx.check(len(cells) >= 16 and len(cells) % 8 == 0, what + ': a whole number of words')
    ctx.check(wire.rd(cells, 0, 4) == 0, what + ': one segment')
    ctx.check(wire.rd(cells, 4, 4) == (len(cells) - 8) // 8, what + ': size of the segment')
    check_graph(ctx, img, img.root, cells, 8, [], what)


# -- C08 ------------------------------------------------------------------------
def roundtrip(ctx, layout, fast, fam='leaf', shape=None):
    img = Image(ctx, rooted(ctx, fam, shape), layout, 1)
    obj = img.struct(Struct())
    buf = message().dumps(obj, fast)
    check_stream_loose(ctx, img, cells_of(ctx, buf), 'dump')
    back = message().loads(buf, Struct())
    same(ctx, obj, back, 'loaded object')
    cells = cells_of(ctx, back._seg.buf)
    check_body(ctx, img, img.root, cells, back._data_offset, [], 'loaded object')
    again = message().dumps(back, fast)
    ctx.check(again == buf or not fast, 'dumping what was loaded gives the same message')
    ctx.out(buf)


class File(object):
    """what dump() and load() need of a file"""

    def __init__(self, buf=b''):
        self.buf = buf
        self.i = 0

    def write(self, b):
        self.buf = self.buf + b

    def read(self, n=-1):
        a = self.i
        b = len(self.buf) if n < 0 else min(a + n, len(self.buf))
        self.i = b
        return self.buf[a:b]

    def readline(self):
        raise NotImplementedError


def files(ctx, layout, shapes, fast):
    """several messages one after the other in a file"""
    f = File()
    imgs = []
    for s in shapes:
        img = Image(ctx, s, layout, 1)
        img.struct(Struct()).dump(f, fast) if not fast else img.struct(Struct()).dump(f)
        imgs.append(img)
    g = File(f.buf)
    k = 0
    for back in message().load_all(g, Struct()):
        ctx.check(k < len(imgs), 'number of messages')
        same(ctx, back, imgs[k].struct(Struct()), 'message')
        check_body(ctx, imgs[k], imgs[k].root, cells_of(ctx, back._seg.buf), back._data_offset, [], 'message')
        k += 1
    ctx.check(k == len(imgs), 'number of messages')


def trailing(ctx, extra, cut, shape):
    """loads() accepts a string only if it is exactly one message"""
    img = Image(ctx, shape, 'pre', 0)
    good = message().dumps(img.struct(Struct()))
    n = len(good)
    if extra:
        b = ctx.bytes('extra', extra)
        buf = good + b
    else:
        buf = good[:n - cut] if cut else good
    try:
        obj = message().loads(buf, Struct())
    except (ValueError, EOFError):
        ctx.check(extra or cut, 'a whole message loads')
        return
    ctx.check(not extra and not cut, 'a string which is not exactly one message is rejected')
    check_body(ctx, img, img.root, cells_of(ctx, obj._seg.buf), obj._data_offset, [], 'loaded object')


# -- C07 over arbitrary pointers -------------------------------------------------
def placed(ctx, kinds, d=0, body=3, shape=()):
    """a struct with pointers (any offsets and sizes) to arbitrary contents"""
    from harness import mk
    m = mk.Msg(ctx)
    m.garbage(1, 'before')
    start = m.garbage(d, 'data')
    p = len(kinds)
    at = m.zeros(p)
    at2 = m.zeros(body)
    for i in range(body):
        # (a struct pointer is also the tag of a list of structs)
        k = ctx.choice('kind%d' % i, ('null', 'struct', 'list', 'far'))
        off = ctx.int('boff%d' % i, -3, 4)
        if k == 'struct':
            m.put(at2 + 8 * i, wire.mk_struct(off, ctx.int('bd%d' % i, 0, 1), ctx.int('bp%d' % i, 0, 1)))
        elif k == 'list':
            m.put(at2 + 8 * i, wire.mk_list(off, ctx.int('btag%d' % i, 0, 7), ctx.int('bn%d' % i, 0, 15)))
        elif k == 'far':
            m.put(at2 + 8 * i, wire.mk_far(0, 0, 0))
    total = len(m.cells) // 8
    for i, k in enumerate(kinds):
        if k == 's':
            off = ctx.choice('off%d' % i, range(-2, body + 1))
            if shape:
                sd, sp = shape[i]
            else:
                sd, sp = ctx.choice('d%d' % i, (0, 1)), ctx.choice('p%d' % i, (0, 1, 2))
            w = wire.mk_struct(off, sd, sp)
        elif k == 'l':
            off = ctx.choice('off%d' % i, range(-2, body + 1))
            tag = shape[i] if shape else ctx.choice('tag%d' % i, range(8))
            w = wire.mk_list(off, tag, ctx.int('n%d' % i, 0, (1 << 29) - 1))
        elif k == 'f':
            w = wire.mk_far(ctx.int('pad%d' % i, 0, 1), ctx.int('fo%d' % i, 0, 3), 0)
        else:
            w = 0
        m.put(at + 8 * i, w)
    return m, start, total


def reach(ctx, cells, pos, lo, hi, depth):
    """everything reachable from the pointer at pos is in [lo, hi), and there is no far pointer"""
    ctx.check(lo <= pos and pos + 8 <= hi, 'a reachable pointer lies between start and end')
    w = wire.rd(cells, pos, 8)
    if w == 0:
        return
    k = ctx.force(wire.kind(w))
    ctx.check(k in (0, 1), 'no far pointer inside a compact object')
    if k == 0:
        d, p = wire.field(w, 32, 16), wire.field(w, 48, 16)
        if d + p == 0:
            return
        t = pos + 8 + 8 * wire.off(w)
        extent(ctx, t, 8 * (d + p), lo, hi)
        t, d, p = ctx.force(t), ctx.force(d), ctx.force(p)
        ptrs = [t + 8 * d + 8 * i for i in range(p)]
    else:
        tag, n = ctx.force(wire.field(w, 32, 3)), wire.field(w, 35, 29)
        t = pos + 8 + 8 * wire.off(w)
        if tag == 7:
            extent(ctx, t, 8 + 8 * n, lo, hi)
            t = ctx.force(t)
            tw = wire.rd(cells, t, 8)
            cnt, d, p = wire.off(tw), wire.field(tw, 32, 16), wire.field(tw, 48, 16)
            ctx.check(ctx.all(0 <= cnt, cnt * (d + p) <= n), 'the items of a compact list fit into its words')
            p = ctx.force(p)
            ptrs = []
            if p:
                d, cnt = ctx.force(d), ctx.force(cnt)
                ptrs = [t + 8 + 8 * ((d + p) * i + d + j) for i in range(cnt) for j in range(p)]
        else:
            extent(ctx, t, (wire.ELEM_BITS[tag] * n + 63) // 64 * 8, lo, hi)
            ptrs = []
            if tag == 6:
                t, n = ctx.force(t), ctx.force(n)
                ptrs = [t + 8 * i for i in range(n)]
    ctx.check(depth > 0, 'no cycle in a compact object')
    for q in ptrs:
        reach(ctx, cells, q, lo, hi, depth - 1)


def extent(ctx, t, size, lo, hi):
    ctx.check(ctx.any(size == 0, ctx.all(lo <= t, t + size <= hi)), 'a reachable object lies between start and end')


def any_end(ctx, kinds, d=0, body=3, shape=()):
    m, start, total = placed(ctx, kinds, d, body, shape)
    p = len(kinds)
    obj = Struct().from_buffer(m.bytes(), start, d, p)
    try:
        end = obj._get_end()
    except (IndexError, ValueError, AssertionError):
        return
    ctx.check(ctx.any(end == -1, end >= start), 'the end is not before the start')
    if end == -1:
        return
    # (an end beyond the buffer makes dump_message fail)
    try:
        buf = obj.dumps()
    except (ValueError, IndexError):
        return
    end = ctx.force(end)
    ctx.reach('compact')
    ctx.check(start <= end and end <= 8 * total, 'the end is inside the buffer')
    ctx.check((end - start) % 8 == 0, 'a whole number of words')
    for i in range(p):
        reach(ctx, m.cells, start + 8 * d + 8 * i, start, end, 6)
    n = len(buf)
    ctx.check(n == end - start + 16, 'length of the dump')
    out = cells_of(ctx, buf)
    ctx.check(wire.rd(out, 4, 4) == (n - 8) // 8, 'announced number of words')
    for i in range(end - start):
        ctx.check(out[16 + i] == m.cells[start + i], 'the dump has the bytes of the object')

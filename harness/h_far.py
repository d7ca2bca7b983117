"""C10: far pointers"""
import importlib

from harness import wire


class Segs(object):
    """segments with arbitrary contents where nothing else is written"""

    def __init__(self, ctx, sizes):
        self.ctx = ctx
        self.cells = []
        for i, n in enumerate(sizes):
            b = ctx.bytes('seg%d' % i, 8 * n)
            self.cells.append([b[j] for j in range(8 * n)])
        self.sizes = sizes

    def put(self, seg, pos, w):
        self.cells[seg][pos:pos + 8] = wire.word(w)

    def offsets(self):
        out = [0]
        for n in self.sizes[:-1]:
            out.append(out[-1] + 8 * n)
        return tuple(out)

    def all(self):
        return [c for s in self.cells for c in s]

    def segment(self):
        M = importlib.import_module('capnpy.segment.segment').MultiSegment
        return M(self.ctx.pack(self.all()), self.offsets())


def layout():
    return importlib.import_module('layout_sf').LAYOUT['structs']


def field(struct, name):
    for f in layout()[struct]['fields']:
        if f['name'] == name:
            return f


def pointer(kind, off):
    """pointer to the object of each kind"""
    if kind in ('t', 'tu'):
        return wire.mk_list(off, 2, 4)
    if kind == 'd':
        return wire.mk_list(off, 2, 5)
    if kind == 'l':
        return wire.mk_list(off, 3, 3)
    if kind == 'b':
        return wire.mk_list(off, 1, 10)
    if kind == 's':
        return wire.mk_struct(off, 1, 0)
    if kind == 'ls':
        return wire.mk_list(off, 7, 1)
    raise ValueError(kind)


WORDS = {'t': 1, 'tu': 1, 'd': 1, 'l': 1, 'b': 1, 's': 1, 'ls': 2}


def prepare(ctx, kind, sg, seg, pos):
    """make the words at seg:pos a well-formed object"""
    if kind == 'ls':
        sg.put(seg, pos, wire.mk_struct(1, 1, 0))
    if kind == 'tu':
        # ascii
        for i in range(3):
            sg.cells[seg][pos + i] = sg.cells[seg][pos + i] & 0x7f


def value(ctx, kind, got, sg, seg, pos, what):
    """got is the object at seg:pos"""
    c = sg.cells[seg]
    ctx.check(got is not None, what + ': not null')
    if kind == 't':
        ctx.check(got == ctx.pack(c[pos:pos + 3]), what)
    elif kind == 'tu':
        ctx.check(got.encode('utf-8') == ctx.pack(c[pos:pos + 3]), what)
    elif kind == 'd':
        ctx.check(got == ctx.pack(c[pos:pos + 5]), what)
    elif kind == 'l':
        ctx.check(len(got) == 3, what + ': len')
        for i in range(3):
            ctx.check(got[i] == wire.signed(wire.rd(c, pos + 2 * i, 2), 16), what + ': item')
    elif kind == 'b':
        ctx.check(len(got) == 10, what + ': len')
        for i in range(10):
            ctx.check(got[i] == (((c[pos + i // 8] >> (i % 8)) & 1) == 1), what + ': item')
    elif kind == 's':
        ctx.check(got.x == wire.signed(wire.rd(c, pos, 8), 64), what + ': field')
        ctx.check(got.t is None, what + ': null field')
        ctx.check(got.y == -7, what + ': missing field')
    elif kind == 'ls':
        ctx.check(len(got) == 1, what + ': len')
        ctx.check(got[0].x == wire.signed(wire.rd(c, pos + 8, 8), 64), what + ': field of the item')


def place(ctx, kind, sizes, avoid):
    """segments with the object somewhere, reached through a far pointer; returns the far pointer"""
    sg = Segs(ctx, sizes)
    n = WORDS[kind]
    free = [(s, w) for s in range(len(sizes)) for w in range(sizes[s] - n + 1)
            if not any((s, w + k) in avoid for k in range(n))]
    seg, w = ctx.choice('target', free)
    used = set(avoid) | {(seg, w + k) for k in range(n)}
    prepare(ctx, kind, sg, seg, 8 * w)
    double = ctx.choice('double', (0, 1))
    k = 1 + double
    free = [(s, p) for s in range(len(sizes)) for p in range(sizes[s] - k + 1)
            if (double or s == seg) and not any((s, p + i) in used for i in range(k))]
    if not free:
        return None
    pseg, pad = ctx.choice('pad%d' % double, free)
    if double:
        sg.put(pseg, 8 * pad, wire.mk_far(0, w, seg))
        sg.put(pseg, 8 * pad + 8, pointer(kind, 0))
    else:
        sg.put(pseg, 8 * pad, pointer(kind, w - pad - 1))
    return sg, wire.mk_far(double, pad, pseg), seg, 8 * w


def bigger(sizes, home, n):
    return [x + n if i == home else x for i, x in enumerate(sizes)]


def fields(ctx, kind, sizes, home=0):
    """a field of a struct at the beginning of a segment"""
    f = field('F', kind)
    # the struct: 1 data word and as few pointers as needed
    mod = importlib.import_module('sf')
    need = 1 + f['ptr'] + 1
    sizes = bigger(sizes, home, need)
    r = place(ctx, kind, sizes, {(home, i) for i in range(need)})
    if r is None:
        return
    sg, far, seg, pos = r
    for i in range(1, need):
        sg.put(home, 8 * i, 0)
    sg.put(home, 8 * (1 + f['ptr']), far)
    obj = mod.F.from_buffer(sg.segment(), sg.offsets()[home], 1, f['ptr'] + 1)
    got = getattr(obj, kind)
    value(ctx, kind, got, sg, seg, pos, kind)
    value(ctx, kind, getattr(obj, 'get_' + kind)(), sg, seg, pos, 'get_' + kind)
    ctx.check(getattr(obj, 'has_' + kind)() is True, 'has_' + kind)
    if kind in ('t', 'd', 'tu'):
        ctx.out(got)
    # copies
    c = obj.compact()
    value(ctx, kind, getattr(c, kind), sg, seg, pos, 'compact')
    b = mod.F.loads(obj.dumps())
    value(ctx, kind, getattr(b, kind), sg, seg, pos, 'dumps')
    # generic pointers
    if kind in ('t', 'd', 's', 'l'):
        ap = importlib.import_module('capnpy.anypointer').AnyPointer(obj, 8 * f['ptr'])
        if kind == 't':
            value(ctx, kind, ap.as_text_bytes(), sg, seg, pos, 'as_text')
        elif kind == 'd':
            value(ctx, kind, ap.as_data(), sg, seg, pos, 'as_data')
        elif kind == 's':
            value(ctx, kind, ap.as_struct(mod.Leaf), sg, seg, pos, 'as_struct')
        else:
            T = importlib.import_module('capnpy.type').Types
            value(ctx, kind, ap.as_list(T.int16), sg, seg, pos, 'as_list')


def items(ctx, lst, kind, sizes, home=0):
    """an item of a list of pointers at the beginning of a segment; the list is reached by a direct pointer"""
    mod = importlib.import_module('sf')
    f = field('F', lst)
    need = 1 + f['ptr'] + 1
    sizes = bigger(sizes, home, need + 2)
    r = place(ctx, kind, sizes, {(home, i) for i in range(need + 2)})
    if r is None:
        return
    sg, far, seg, pos = r
    for i in range(1, need):
        sg.put(home, 8 * i, 0)
    sg.put(home, 8 * (1 + f['ptr']), wire.mk_list(0, 6, 2))
    i = ctx.choice('i', (0, 1))
    sg.put(home, 8 * need, 0)
    sg.put(home, 8 * need + 8, 0)
    sg.put(home, 8 * (need + i), far)
    obj = mod.F.from_buffer(sg.segment(), sg.offsets()[home], 1, f['ptr'] + 1)
    l = getattr(obj, lst)
    ctx.check(len(l) == 2, 'len')
    value(ctx, kind, l[i], sg, seg, pos, lst)
    if lst != 'll':
        ctx.check(l[1 - i] is None, 'null item')
        value(ctx, kind, list(l)[i], sg, seg, pos, 'iteration')
    c = obj.compact()
    value(ctx, kind, getattr(c, lst)[i], sg, seg, pos, 'compact')


def keys(ctx, kind, sizes, home=0):
    """hash and equality of a struct whose key is behind a far pointer"""
    mod = importlib.import_module('sf')
    sizes = bigger(sizes, home, 2)
    r = place(ctx, kind, sizes, {(home, 0), (home, 1)})
    if r is None:
        return
    sg, far, seg, pos = r
    k = 0 if kind == 't' else 1
    sg.put(home, 0, 0)
    sg.put(home, 8, 0)
    sg.put(home, 8 * k, far)
    obj = mod.K.from_buffer(sg.segment(), sg.offsets()[home], 0, 2)
    val = ctx.pack(sg.cells[seg][pos:pos + (3 if kind == 't' else 5)])
    t = (val, None) if kind == 't' else (None, val)
    ctx.check(obj == t, 'equal to the tuple of the key')
    ctx.check(hash(obj) == hash(t), 'hash')
    plain = mod.K(*t)
    ctx.check(obj == plain, 'equal to a struct without far pointers')
    ctx.check(hash(obj) == hash(plain), 'hash of equal structs')


def rejected(ctx, kind, nseg, words):
    """any far pointer: it is rejected unless its landing pad exists"""
    mod = importlib.import_module('sf')
    f = field('F', kind)
    need = 1 + f['ptr'] + 1
    sizes = [need] + [words] * (nseg - 1)
    sg = Segs(ctx, sizes)
    double = ctx.choice('double', (0, 1))
    off = ctx.int('off', 0, (1 << 29) - 1)
    seg = ctx.int('seg', 0, (1 << 32) - 1)
    for i in range(need):
        sg.put(0, 8 * i, 0)
    # (landing pads which are far pointers themselves: see C12)
    ctx.assume(ctx.not_(ctx.all(seg == 0, off >= need - 2, off <= need)))
    sg.put(0, 8 * (need - 1), wire.mk_far(double, off, seg))
    # landing pads: an object of no words, which is found in the whole message
    total = sum(sizes)
    if kind == 's':
        p = wire.mk_struct(-1, 0, 0)
    else:
        p = wire.mk_list(-1, 2, 0 if kind == 'd' else 1)
    for s in range(1, nseg):
        for w in range(words):
            if double:
                sg.put(s, 8 * w, wire.mk_far(0, 0, 0) if w % 2 == 0 else wire.mk_list(0, 2, 1))
            else:
                sg.put(s, 8 * w, p)
    if nseg == 1:
        buf = ctx.pack(sg.all())
    else:
        buf = sg.segment()
    obj = mod.F.from_buffer(buf, 0, 1, f['ptr'] + 1)
    starts = sg.offsets()
    inside = False
    for s in range(nseg):
        inside = ctx.any(inside, ctx.all(seg == s, starts[s] + 8 * off + 8 * (1 + double) <= 8 * total))
    if nseg == 1:
        inside = False
    for what in ('plain', 'get', 'compact', 'dumps', 'slow'):
        try:
            if what == 'plain':
                getattr(obj, kind)
            elif what == 'get':
                getattr(obj, 'get_' + kind)()
            elif what == 'compact':
                obj.compact()
            elif what == 'dumps':
                obj.dumps()
            else:
                importlib.import_module('capnpy.message').dumps(obj, False)
            ok = True
        except Exception:
            ok = False
        ctx.check(ctx.any(not ok, inside), 'a far pointer without a landing pad is rejected (%s)' % what)
        ctx.reach('accepted' if ok else 'rejected')

"""C04, C17, C19, C24: generated constructors against the reference encoding"""
import importlib

from harness import wire, mk

INTS = mk.INTS


def load(schema):
    lay = importlib.import_module('layout_' + schema).LAYOUT
    mod = importlib.import_module(schema)
    return mod, lay


def width_range(t):
    w = INTS[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t[0] == 'I' else (0, (1 << w) - 1)


class Expected(object):
    """reference image of one struct: data bits, and what each pointer designates"""

    def __init__(self, ctx, mod, lay, sname, enums=None):
        self.ctx = ctx
        self.mod = mod
        self.lay = lay
        self.s = lay['structs'][sname]
        self.sname = sname
        self.data = [0] * (8 * self.s['data'])
        self.ptrs = {}

    def put_bits(self, f, bits):
        """stored bits"""
        bit, w = f['bit'], f['width']
        if w == 1:
            self.data[bit // 8] = self.data[bit // 8] | (bits << (bit % 8))
        else:
            for i in range(w // 8):
                self.data[bit // 8 + i] = (bits >> (8 * i)) & 255

    def put_tag(self, bitoff, tag):
        self.data[bitoff // 8] = tag & 255
        self.data[bitoff // 8 + 1] = tag >> 8

    def check(self, cells, pos, regions, what=''):
        """the struct at pos of cells (its sections have the static sizes)"""
        ctx = self.ctx
        d = len(self.data)
        for i in range(d):
            ctx.check(cells[pos + i] == self.data[i], what + 'byte %d of the data section' % i)
        for k in range(self.s['ptrs']):
            p = pos + d + 8 * k
            if k not in self.ptrs:
                ctx.check(wire.rd(cells, p, 8) == 0, what + 'pointer %d is null' % k)
            else:
                self.ptrs[k](cells, p, regions, what + 'pointer %d: ' % k)


def deref(ctx, cells, pos, regions, what):
    """(kind, target, word): the pointer must be direct, within the message"""
    w = ctx.force(wire.rd(cells, pos, 8))
    target = pos + 8 + 8 * wire.off(w)
    return wire.kind(w), target, w


def region(ctx, cells, regions, start, end, what):
    ctx.check(0 <= start and end <= len(cells), what + 'inside the message')
    for a, b in regions:
        ctx.check(end <= a or start >= b or a == b or start == end, what + 'does not overlap other objects')
    regions.append((start, end))


def exp_list(ctx, tag, n, items):
    """items: expected bytes"""
    def check(cells, pos, regions, what):
        kind, target, w = deref(ctx, cells, pos, regions, what)
        ctx.check(kind == wire.LIST, what + 'a list pointer')
        ctx.check(wire.field(w, 32, 3) == tag, what + 'element size')
        ctx.check(wire.field(w, 35, 29) == n, what + 'element count')
        region(ctx, cells, regions, target, target + (len(items) + 7) // 8 * 8, what)
        for i, b in enumerate(items):
            ctx.check(cells[target + i] == b, what + 'contents')
        for i in range(len(items), (len(items) + 7) // 8 * 8):
            ctx.check(cells[target + i] == 0, what + 'padding')
    return check


def exp_ptrlist(ctx, items):
    """items: None or a checker"""
    def check(cells, pos, regions, what):
        kind, target, w = deref(ctx, cells, pos, regions, what)
        ctx.check(kind == wire.LIST, what + 'a list pointer')
        ctx.check(wire.field(w, 32, 3) == 6, what + 'element size')
        ctx.check(wire.field(w, 35, 29) == len(items), what + 'element count')
        region(ctx, cells, regions, target, target + 8 * len(items), what)
        for i, c in enumerate(items):
            if c is None:
                ctx.check(wire.rd(cells, target + 8 * i, 8) == 0, what + 'null item')
            else:
                c(cells, target + 8 * i, regions, what + 'item %d: ' % i)
    return check


def exp_struct(ctx, e):
    def check(cells, pos, regions, what):
        kind, target, w = deref(ctx, cells, pos, regions, what)
        ctx.check(kind == wire.STRUCT, what + 'a struct pointer')
        ctx.check(wire.field(w, 32, 16) == e.s['data'], what + 'data size')
        ctx.check(wire.field(w, 48, 16) == e.s['ptrs'], what + 'pointers size')
        region(ctx, cells, regions, target, target + 8 * (e.s['data'] + e.s['ptrs']), what)
        e.check(cells, target, regions, what)
    return check


def exp_composite(ctx, es, s):
    def check(cells, pos, regions, what):
        kind, target, w = deref(ctx, cells, pos, regions, what)
        size = s['data'] + s['ptrs']
        ctx.check(kind == wire.LIST, what + 'a list pointer')
        ctx.check(wire.field(w, 32, 3) == 7, what + 'element size')
        ctx.check(wire.field(w, 35, 29) == size * len(es), what + 'word count')
        region(ctx, cells, regions, target, target + 8 + 8 * size * len(es), what)
        ctx.check(wire.rd(cells, target, 8) == wire.mk_struct(len(es), s['data'], s['ptrs']), what + 'tag word')
        for i, e in enumerate(es):
            e.check(cells, target + 8 + 8 * size * i, regions, what + 'item %d: ' % i)
    return check


def text_checker(ctx, cells, nul=1):
    return exp_list(ctx, 2, len(cells) + nul, list(cells) + [0] * nul)


def unicode_of(t):
    return t in ('tu',)


class Field(object):
    """a value for one field: what is passed, what is expected on the wire and what is read back"""

    def __init__(self, ctx, mod, lay, f, name, size=2, depth=0):
        t = f['type']
        self.f = f
        self.ctx = ctx
        self.mod = mod
        self.lay = lay
        enums = lay['enums']
        self.bits = None
        self.checker = None
        if t == 'Void':
            self.value = None
        elif t == 'Bool':
            self.value = ctx.bool(name)
            self.bits = ctx.ite(self.value, 1, 0)
        elif t in INTS:
            self.value = ctx.int(name, *width_range(t))
            self.bits = self.value & ((1 << f['width']) - 1)
        elif t in ('Float32', 'Float64'):
            self.value = ctx.float(name, f['width'])
            self.bits = ctx.float_bits(self.value, f['width'])
        elif t in enums:
            self.value = ctx.int(name, 0, 65535)
            self.bits = self.value
        elif t in ('Text', 'Data'):
            if unicode_of(f['name']):
                self.value = ctx.text(name, size, 0, 0xffff)
                b = self.value.encode('utf-8')
                cells = [b[i] for i in range(len(b))]
            else:
                self.value = ctx.bytes(name, size)
                cells = [self.value[i] for i in range(size)]
            self.checker = text_checker(ctx, cells, int(t == 'Text'))
        elif t.startswith('List('):
            it = t[5:-1]
            if it in INTS:
                self.value = [ctx.int('%s_%d' % (name, i), *width_range(it)) for i in range(size)]
                n = INTS[it] // 8
                cells = [(v >> (8 * i)) & 255 for v in self.value for i in range(n)]
                self.checker = exp_list(ctx, {1: 2, 2: 3, 4: 4, 8: 5}[n], size, cells)
            elif it == 'Text':
                self.value = [ctx.bytes('%s_%d' % (name, i), i) for i in range(size)]
                self.checker = exp_ptrlist(ctx, [text_checker(ctx, [v[i] for i in range(len(v))])
                                                 for v in self.value])
            else:
                s = lay['structs'][it]
                objs = [make(ctx, mod, lay, it, '%s_%d' % (name, i)) for i in range(size)]
                self.value = [o for o, e, fs in objs]
                self.items = [fs for o, e, fs in objs]
                self.checker = exp_composite(ctx, [e for o, e, fs in objs], s)
        else:
            self.value, e, self.fields = make(ctx, mod, lay, t, name)
            self.checker = exp_struct(ctx, e)

    def expect(self, e):
        """store into the reference image"""
        if self.checker:
            e.ptrs[self.f['ptr']] = self.checker
        elif self.bits is not None:
            e.put_bits(self.f, self.bits ^ mk.default_bits(self.f, self.lay['enums']))

    def check_read(self, got, what):
        ctx, f = self.ctx, self.f
        t = f['type']
        if self.bits is not None or t == 'Void':
            mk.check_value(ctx, got, f, self.bits, what)
            ctx.out(got)
        elif t in ('Text', 'Data'):
            ctx.check(type(got) is type(self.value), what + ': type')
            ctx.check(got == self.value, what)
            ctx.out(got)
        elif t.startswith('List('):
            ctx.check(len(got) == len(self.value), what + ': length')
            for i in range(len(self.value)):
                if t[5:-1] in self.lay['structs']:
                    for g in self.items[i]:
                        g.check_read(getattr(got[i], g.f['name']), what + ': item')
                else:
                    ctx.check(got[i] == self.value[i], what + ': item')
        else:
            for g in self.fields:
                g.check_read(getattr(got, g.f['name']), what + '.' + g.f['name'])


def make(ctx, mod, lay, sname, name):
    """a simple struct with every field given; returns (object, expected image, fields)"""
    e = Expected(ctx, mod, lay, sname)
    fs = []
    kw = {}
    for f in lay['structs'][sname]['fields']:
        x = Field(ctx, mod, lay, f, name + '.' + f['name'], size=1)
        x.expect(e)
        fs.append(x)
        kw[mk.py(f['name'])] = x.value
    return getattr(mod, sname)(**kw), e, fs


def check_default(ctx, lay, obj, path, f, d):
    got = mk.get(obj, path, f['name'])
    what = 'default of ' + f['name']
    if 'ptr' in f:
        ctx.check(got is None, what)
        ctx.check(not mk.get(obj, path, 'has_' + f['name'])(), what)
    else:
        mk.check_value(ctx, got, f, mk.default_bits(f, lay['enums']), what)


def ctor(ctx, schema, struct, fields=None, size=2, how='tuple'):
    """the given fields (dotted names; None: all) are passed, the others omitted.  Groups: passed as a tuple with the
    defaults of the other members, or through the function which builds it"""
    mod, lay = load(schema)
    s = lay['structs'][struct]
    e = Expected(ctx, mod, lay, struct)
    cls = getattr(mod, struct)
    kw = {}
    given = []
    for f in s['fields']:
        if f['kind'] == 'slot':
            if fields is None or f['name'] in fields:
                if f['type'] == 'Void':
                    continue
                x = Field(ctx, mod, lay, f, f['name'], size)
                x.expect(e)
                given.append(((), x))
                kw[mk.py(f['name'])] = x.value
        else:
            names = [g['name'] for g in f['fields'] if fields is None or f['name'] + '.' + g['name'] in fields]
            if not names:
                continue
            gkw = {}
            for g in f['fields']:
                if g['name'] in names:
                    x = Field(ctx, mod, lay, g, f['name'] + '.' + g['name'], size)
                    x.expect(e)
                    given.append(((f,), x))
                    gkw[mk.py(g['name'])] = x.value
            if how == 'tuple' and len(gkw) == len(f['fields']):
                kw[mk.py(f['name'])] = tuple(gkw[mk.py(g['name'])] for g in f['fields'])
            else:
                kw[mk.py(f['name'])] = getattr(cls, mk.py(f['name']).capitalize())(**gkw)
    obj = cls(**kw)
    buf = obj._seg.buf
    n = len(buf)
    cells = [buf[i] for i in range(n)]
    pos = obj._data_offset
    ctx.check(n % 8 == 0, 'whole words')
    ctx.check(obj._data_size == s['data'], 'data size')
    ctx.check(obj._ptrs_size == s['ptrs'], 'pointers size')
    regions = []
    region(ctx, cells, regions, pos, pos + 8 * (s['data'] + s['ptrs']), 'struct ')
    e.check(cells, pos, regions)
    names = set()
    for path, x in given:
        names.add(tuple(g['name'] for g in path) + (x.f['name'],))
        x.check_read(mk.get(obj, path, x.f['name']), 'reading ' + x.f['name'])
        if 'ptr' in x.f:
            ctx.check(mk.get(obj, path, 'has_' + x.f['name'])(), 'has_' + x.f['name'])
    for path, f in mk.slots(s['fields']):
        if tuple(g['name'] for g in path) + (f['name'],) not in names:
            check_default(ctx, lay, obj, path, f, s['data'])

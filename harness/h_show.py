"""C29: the textual form of an object"""
import importlib
import re

from harness import wire, mk

WORD = re.compile(r'[^ ,()\[\]]+')


def layouts():
    return importlib.import_module('layout_sh').LAYOUT


class Expect(object):
    """what the text of an object is, as a list of strings and (field, bits)"""

    def __init__(self, ctx, cells):
        self.ctx = ctx
        self.cells = cells
        self.lay = layouts()
        self.out = []

    def struct(self, name, pos, d, p):
        s = self.lay['structs'][name]
        self.out.append('(')
        self.fields(s['fields'], s['union'], pos, d, p, True)
        self.out.append(')')

    def fields(self, fields, tagbit, pos, d, p, first):
        tag = None
        if tagbit is not None:
            tag = wire.rd(self.cells, pos + tagbit // 8, 2) if tagbit < d * 64 else 0
        for f in fields:
            if f['tag'] is not None:
                if not (tag == f['tag']):
                    continue
                if f.get('ptr') is not None and f['tag'] == 0 and self.null(f, pos, d, p):
                    continue
            elif 'ptr' in f and self.null(f, pos, d, p):
                continue
            self.out.append(('' if first else ', ') + f['name'] + ' = ')
            first = False
            if f['kind'] == 'group':
                self.out.append('(')
                self.fields(f['fields'], f['union'], pos, d, p, True)
                self.out.append(')')
            elif 'ptr' in f:
                self.pointer(f['type'], pos + 8 * (d + f['ptr']) if f['ptr'] < p else None)
            elif f['type'] == 'Void':
                self.out.append('void')
            else:
                self.out.append((f, mk.bits_of(f, self.cells, pos, d, self.lay['enums'])))

    def null(self, f, pos, d, p):
        # (pointers are concrete)
        return f['ptr'] >= p or self.word(pos + 8 * (d + f['ptr'])) == 0

    def word(self, at):
        return sum(c << (8 * i) for i, c in enumerate(self.cells[at:at + 8]))

    def pointer(self, t, at):
        w = self.word(at) if at is not None else 0
        if w == 0:
            if t in ('Text', 'Data'):
                self.out.append('""')
            elif t.startswith('List'):
                self.out.append('[]')
            else:
                self.struct(t, 0, 0, 0)
            return
        to = at + 8 + 8 * wire.off(w)
        if wire.kind(w) == wire.STRUCT:
            self.struct(t, to, wire.field(w, 32, 16), wire.field(w, 48, 16))
            return
        tag, n = wire.field(w, 32, 3), wire.field(w, 35, 29)
        if t in ('Text', 'Data'):
            self.out.append('"%s"' % ''.join(chr(c) for c in self.cells[to:to + n - (t == 'Text')]))
            return
        it = t[5:-1]
        self.out.append('[')
        if tag == 7:
            h = self.word(to)
            n, ds, ps = wire.off(h), wire.field(h, 32, 16), wire.field(h, 48, 16)
        for i in range(n):
            if i:
                self.out.append(', ')
            if tag == 7:
                self.struct(it, to + 8 + 8 * (ds + ps) * i, ds, ps)
            elif tag == 6:
                self.pointer(it, to + 8 * i)
            elif tag == 0:
                self.out.append('void')
            else:
                w = wire.ELEM_BITS[tag]
                if w == 1:
                    bits = (self.cells[to + i // 8] >> (i % 8)) & 1
                else:
                    bits = wire.rd(self.cells, to + i * w // 8, w // 8)
                self.out.append((dict(name='item', type=it, width=w), bits))
        self.out.append(']')


def compare(ctx, text, out, what):
    """is this the text?"""
    i = 0
    enums = layouts()['enums']
    for x in out:
        if not isinstance(x, tuple):
            if text[i:i + len(x)] != x:
                ctx.fail('%s: %r is not in the text at its place' % (what, x))
                return
            i += len(x)
            continue
        f, bits = x
        m = WORD.match(text, i)
        if m is None:
            ctx.fail('%s: no value of %s' % (what, f['name']))
            return
        w = m.group()
        i = m.end()
        t = f['type']
        label = '%s: value of %s' % (what, f['name'])
        if t == 'Bool':
            ctx.check((w == 'true') if bits == 1 else (w == 'false'), label)
        elif t in enums:
            names = dict((k, mk.py(v)) for k, v in enums[t]['members'].items())
            for k in sorted(names):
                if bits == k:
                    ctx.check(w == names[k], label)
                    break
            else:
                ctx.check(w not in names.values(), label + ': unknown')
        else:
            try:
                v = ctx.denoted(w)
            except ValueError:
                ctx.fail(label + ': not a number')
                return
            if not t.startswith('Float') and isinstance(v, float):
                ctx.fail(label + ': not an integer')
                return
            if isinstance(v, float) and v != v:
                # (the payload is not shown)
                e, w = (0xff << 23, 31) if t == 'Float32' else (0x7ff << 52, 63)
                ctx.check((bits & ((1 << w) - 1)) > e, label)
            else:
                mk.check_value(ctx, v, f, bits, label)
    if i != len(text):
        ctx.fail('%s: something more' % what)


def check(ctx, o, m, name, pos, d, p, what):
    e = Expect(ctx, m.cells)
    e.struct(name, pos, d, p)
    ctx.check(True, what)
    compare(ctx, ctx.generate(o.shortrepr), e.out, what)


def root(ctx, m, name, d=None, p=None):
    s = layouts()['structs'][name]
    d = s['data'] if d is None else d
    p = s['ptrs'] if p is None else p
    return m.zeros(d + p), d, p


def cls(name):
    return getattr(importlib.import_module('sh'), name)


def fill(ctx, m, f, pos, name):
    """an arbitrary value of a field"""
    b, w = f['bit'], f['width']
    if w == 1:
        at = pos + b // 8
        m.cells[at] = m.cells[at] | (ctx.int(name, 0, 1) << (b % 8))
    elif w:
        c = ctx.bytes(name, w // 8)
        at = pos + b // 8
        m.cells[at:at + w // 8] = [c[i] for i in range(w // 8)]


def scalars(ctx, names, d=None):
    """fields of A with any value; the data section possibly shorter"""
    m = mk.Msg(ctx)
    pos, d, p = root(ctx, m, 'A', d)
    for f in layouts()['structs']['A']['fields']:
        if f['name'] in names and 'bit' in f and f['bit'] + f['width'] <= 64 * d:
            fill(ctx, m, f, pos, f['name'])
    o = cls('A').from_buffer(m.bytes(), pos, d, p)
    check(ctx, o, m, 'A', pos, d, p, 'A')


def sub(ctx, m, at, name, any=True):
    """a B"""
    t = m.garbage(1, name) if any else m.zeros(1)
    m.add([0] * 8)
    m.put_struct(at, t, 1, 1)
    return t


def target(ctx, m, t, at, name):
    if t == 'Text':
        m.put_list(at, m.add(bytearray(b'a b\0')), 2, 4)
    elif t == 'Data':
        m.put_list(at, m.add(bytearray(b'xy')), 2, 2)
    elif t == 'B':
        sub(ctx, m, at, name)
    elif t == 'List(Int16)':
        c = ctx.bytes(name, 4)
        m.put_list(at, m.add([c[i] for i in range(4)]), 3, 2)
    else:
        assert t == 'List(B)'
        structs(ctx, m, at, 1, name)


def structs(ctx, m, at, n, name):
    h = m.zeros(1)
    m.put(h, wire.mk_struct(n, 1, 1))
    for i in range(n):
        m.garbage(1, '%s%d' % (name, i))
        m.zeros(1)
    m.put_list(at, h, 7, 2 * n)


def pointers(ctx, present, cut=None):
    """pointer fields, null or not"""
    m = mk.Msg(ctx)
    pos, d, p = root(ctx, m, 'P', None, cut)
    for f in layouts()['structs']['P']['fields']:
        if 'ptr' not in f:
            fill(ctx, m, f, pos, f['name'])
        elif f['name'] in present and f['ptr'] < p:
            target(ctx, m, f['type'], pos + 8 * (d + f['ptr']), f['name'])
    o = cls('P').from_buffer(m.bytes(), pos, d, p)
    check(ctx, o, m, 'P', pos, d, p, 'P')


def lists(ctx, name, n, null=False):
    m = mk.Msg(ctx)
    pos, d, p = root(ctx, m, 'L')
    f = [f for f in layouts()['structs']['L']['fields'] if f['name'] == name][0]
    at = pos + 8 * (d + f['ptr'])
    it = f['type'][5:-1]
    tags = {'Void': 0, 'Bool': 1, 'Int8': 2, 'UInt8': 2, 'Int16': 3, 'UInt16': 3, 'En': 3, 'Int32': 4, 'UInt32': 4,
            'Float32': 4, 'Int64': 5, 'UInt64': 5, 'Float64': 5}
    if it in tags:
        tag = tags[it]
        k = (wire.ELEM_BITS[tag] * n + 7) // 8
        c = ctx.bytes('c', k) if k else b''
        m.put_list(at, m.add([c[i] for i in range(k)]), tag, n)
    elif it == 'B':
        structs(ctx, m, at, n, 'c')
    else:
        l = m.zeros(n)
        m.put_list(at, l, 6, n)
        for i in range(n):
            if null and i == 0:
                continue
            if it == 'List(B)':
                structs(ctx, m, l + 8 * i, i + 1, 'c%d.' % i)
            else:
                c = ctx.bytes('c%d' % i, i + 1)
                m.put_list(l + 8 * i, m.add([c[j] for j in range(i + 1)]), 2, i + 1)
    o = cls('L').from_buffer(m.bytes(), pos, d, p)
    check(ctx, o, m, 'L', pos, d, p, 'list')
    # the list alone
    e = Expect(ctx, m.cells)
    e.pointer(f['type'], at)
    compare(ctx, ctx.generate(getattr(o, name).shortrepr), e.out, 'list alone')


def union(ctx, struct, member, present=True, tags=None, d=None):
    """only the current member is shown; ``member``: the one which has contents, None: any tag and all data"""
    m = mk.Msg(ctx)
    s = layouts()['structs'][struct]
    pos, d, p = root(ctx, m, struct, d)
    if d:
        b = ctx.bytes('data', 8 * d)
        m.cells[pos:pos + 8 * d] = [b[i] for i in range(8 * d)]
        tag = wire.rd(m.cells, pos + s['union'] // 8, 2)
        if member is not None:
            f = [f for f in s['fields'] if f['name'] == member][0]
            ctx.assume(tag == f['tag'])
    for f in s['fields']:
        if present and 'ptr' in f and (member is None or member == f['name']):
            target(ctx, m, f['type'], pos + 8 * (d + f['ptr']), f['name'] + '_')
            break
    o = cls(struct).from_buffer(m.bytes(), pos, d, p)
    check(ctx, o, m, struct, pos, d, p, struct)


def groups(ctx, names, present):
    m = mk.Msg(ctx)
    s = layouts()['structs']['G']
    pos, d, p = root(ctx, m, 'G')

    def walk(fields, path):
        for f in fields:
            q = path + f['name']
            if f['kind'] == 'group':
                if f['union'] is not None and q in names:
                    c = ctx.bytes(q, 2)
                    at = pos + f['union'] // 8
                    m.cells[at:at + 2] = [c[0], c[1]]
                walk(f['fields'], q + '.')
            elif 'ptr' in f:
                if present:
                    target(ctx, m, f['type'], pos + 8 * (d + f['ptr']), q)
            elif any(q == n or q.startswith(n + '.') for n in names):
                # (members of a union share their place)
                fill(ctx, m, f, pos, q)
    walk(s['fields'], '')
    o = cls('G').from_buffer(m.bytes(), pos, d, p)
    check(ctx, o, m, 'G', pos, d, p, 'G')


def built(ctx, x, y):
    """an object made by its constructor, and repr()"""
    o = cls('V')(x=ctx.int('x', -2 ** 31, 2 ** 31 - 1), y=ctx.int('y', -2 ** 15, 2 ** 15 - 1))
    x, y = o.x, o.y
    t = ctx.generate(repr, o)
    f = dict(name='x', type='Int32', width=32)
    g = dict(name='y', type='Int16', width=16)
    ctx.check(True, 'repr')
    compare(ctx, t, ['<V: (x = ', (f, x & 0xffffffff), ', y = ', (g, y & 0xffff), ', pos = void)>'], 'repr')

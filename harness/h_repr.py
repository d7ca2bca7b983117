"""C20: the literals of text and data"""
import importlib

from harness import wire, mk

SIMPLE = {'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, "'": 39, '"': 34, '\\': 92, '?': 63}


class Bad(Exception):
    pass


def utf8(c):
    """the bytes of a character (given as a number)"""
    if c < 0x80:
        return [c]
    if c < 0x800:
        return [0xc0 | (c >> 6), 0x80 | (c & 63)]
    if c < 0x10000:
        return [0xe0 | (c >> 12), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63)]
    return [0xf0 | (c >> 18), 0x80 | ((c >> 12) & 63), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63)]


def octal(c):
    return c >= 48 and c <= 55


def hexval(c):
    if c >= 48 and c <= 57:
        return c - 48
    if c >= 97 and c <= 102:
        return c - 87
    if c >= 65 and c <= 70:
        return c - 55
    raise Bad('hex digit')


def literal(ctx, cs, i):
    """the string literal at cs[i]: the bytes it denotes and where it ends (the grammar of capnp)"""
    if i >= len(cs) or not (cs[i] == 34):
        raise Bad('a literal starts with a double quote')
    i += 1
    out = []
    while True:
        if i >= len(cs):
            raise Bad('unterminated literal')
        c = cs[i]
        i += 1
        if c == 34:
            return out, i
        if c == 10:
            raise Bad('newline in a literal')
        if not (c == 92):
            out += utf8(c)
            continue
        if i >= len(cs):
            raise Bad('unterminated escape')
        c = cs[i]
        i += 1
        if c == 120:
            if i + 2 > len(cs):
                raise Bad('unterminated escape')
            out.append(16 * hexval(cs[i]) + hexval(cs[i + 1]))
            i += 2
        elif octal(c):
            v = c - 48
            n = 1
            while n < 3 and i < len(cs) and octal(cs[i]):
                v = 8 * v + (cs[i] - 48)
                i += 1
                n += 1
            out.append(v & 255)
        else:
            if not ctx.any(*[c == ord(k) for k in SIMPLE]):
                raise Bad('unknown escape')
            v = c
            for k in SIMPLE:
                v = ctx.ite(c == ord(k), SIMPLE[k], v)
            out.append(v)


def parse(ctx, s, shape):
    """matches s against a shape: strings, None for a literal; returns the bytes of the literals"""
    cs = [ord(c) for c in s]
    i = 0
    out = []
    try:
        for x in shape:
            if x is None:
                v, i = literal(ctx, cs, i)
                out.append(v)
                continue
            for c in x:
                if i >= len(cs) or not (cs[i] == ord(c)):
                    raise Bad('expected %r' % x)
                i += 1
        if i != len(cs):
            raise Bad('something more')
    except Bad as e:
        ctx.fail('not the textual form of a message: %s' % e)
        return None
    return out


def verify(ctx, s, shape, values, what):
    got = parse(ctx, s, shape)
    if got is None:
        return
    ctx.check(len(got) == len(values), what + ': number of literals')
    for g, v in zip(got, values):
        ctx.check(len(g) == len(v), what + ': length')
        for a, b in zip(g, v):
            ctx.check(a == b, what + ': the literal denotes the value')


# the contents of a text: number of bytes of each character
def char(ctx, name, n):
    """the bytes of any character of n bytes"""
    lo, hi = {1: (0, 0x7f), 2: (0x80, 0x7ff), 3: (0x800, 0xffff), 4: (0x10000, 0x10ffff)}[n]
    c = ctx.int(name, lo, hi)
    if n == 3:
        ctx.assume(ctx.any(c < 0xd800, c > 0xdfff))
    return {1: lambda: [c], 2: lambda: [0xc0 | (c >> 6), 0x80 | (c & 63)],
            3: lambda: [0xe0 | (c >> 12), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63)],
            4: lambda: [0xf0 | (c >> 18), 0x80 | ((c >> 12) & 63), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63)]}[n]()


def value(ctx, kind, spec, name):
    """(the bytes of a value, its cells in the message)"""
    if kind in ('d', 'ld', 'ud'):
        c = [ctx.int('%s%d' % (name, i), 0, 255) for i in range(spec)]
        return c, c
    c = []
    for i, n in enumerate(spec):
        c += char(ctx, '%s%d' % (name, i), n)
    return c, c + [0]


def field(ctx, name, spec):
    """a field of P"""
    mod = importlib.import_module('sp')
    lay = importlib.import_module('layout_sp').LAYOUT['structs']['P']
    slot = [f for f in lay['fields'] if f['name'] == name][0]['ptr']
    m = mk.Msg(ctx)
    root = m.zeros(lay['ptrs'])
    v, cells = value(ctx, name, spec, 'c')
    at = root + 8 * slot
    t = m.add(cells)
    m.put_list(at, t, 2, len(cells))
    o = mod.P.from_buffer(m.bytes(), root, lay['data'], lay['ptrs'])
    s = o.shortrepr()
    verify(ctx, s, ['(%s = ' % name, None, ')'], [v], name)


def items(ctx, name, specs):
    """a list of text or data"""
    mod = importlib.import_module('sp')
    lay = importlib.import_module('layout_sp').LAYOUT['structs']['P']
    slot = [f for f in lay['fields'] if f['name'] == name][0]['ptr']
    m = mk.Msg(ctx)
    root = m.zeros(lay['ptrs'])
    vs = lst(ctx, m, name, specs, root + 8 * slot)
    o = mod.P.from_buffer(m.bytes(), root, lay['data'], lay['ptrs'])
    shape = ['(%s = [' % name]
    for i in range(len(specs)):
        shape += [', ', None] if i else [None]
    verify(ctx, o.shortrepr(), shape + ['])'], vs, name)
    verify(ctx, getattr(o, name).shortrepr(), ['['] + shape[1:] + [']'], vs, name + ' alone')


def lst(ctx, m, name, specs, at):
    n = len(specs)
    l = m.zeros(n)
    m.put_list(at, l, 6, n)
    vs = []
    for i, spec in enumerate(specs):
        if spec is None:
            # a null item reads as the empty one
            vs.append([])
            continue
        v, cells = value(ctx, name, spec, 'c%d.' % i)
        t = m.add(cells)
        m.put_list(l + 8 * i, t, 2, len(cells))
        vs.append(v)
    return vs


def nested(ctx, kind):
    """inside of other objects"""
    mod = importlib.import_module('sp')
    L = importlib.import_module('layout_sp').LAYOUT['structs']
    m = mk.Msg(ctx)
    P = L['P']
    np = P['ptrs']
    if kind in ('p', 'lp'):
        root = m.zeros(L['O']['ptrs'])
        if kind == 'p':
            s = m.zeros(np)
            m.put_struct(root, s, P['data'], np)
        else:
            t = m.zeros(1)
            s = m.zeros(np)
            m.put(t, wire.mk_struct(1, P['data'], np))
            m.put_list(root + 8, t, 7, np)
        vs = []
        for name, spec in (('t', [1]), ('d', 1)):
            f = [f for f in P['fields'] if f['name'] == name][0]
            v, cells = value(ctx, name, spec, name)
            x = m.add(cells)
            m.put_list(s + 8 * f['ptr'], x, 2, len(cells))
            vs.append(v)
        o = mod.O.from_buffer(m.bytes(), root, L['O']['data'], L['O']['ptrs'])
        shape = ['(t = ', None, ', d = ', None, ')']
        shape = ['(p = '] + shape + [')'] if kind == 'p' else ['(lp = ['] + shape + ['])']
        verify(ctx, o.shortrepr(), shape, vs, kind)
        return
    if kind in ('lld', 'llt'):
        root = m.zeros(L['O']['ptrs'])
        f = [f for f in L['O']['fields'] if f['name'] == kind][0]
        l = m.zeros(2)
        m.put_list(root + 8 * f['ptr'], l, 6, 2)
        name = 'ld' if kind == 'lld' else 't'
        a = lst(ctx, m, name, [1 if name == 'ld' else [1]], l)
        b = lst(ctx, m, name, [0 if name == 'ld' else []], l + 8)
        o = mod.O.from_buffer(m.bytes(), root, L['O']['data'], L['O']['ptrs'])
        verify(ctx, o.shortrepr(), ['(%s = [[' % kind, None, '], [', None, ']])'], a + b, kind)
        return
    G = L['G']
    root = m.zeros(G['data'] + G['ptrs'])
    g = [f for f in G['fields'] if f['name'] == 'g'][0]
    vs = []
    shape = ['(g = (']
    for i, (name, spec) in enumerate((('t', [1]), ('d', 1))):
        f = [f for f in g['fields'] if f['name'] == name][0]
        v, cells = value(ctx, name, spec, name)
        x = m.add(cells)
        m.put_list(root + 8 * (G['data'] + f['ptr']), x, 2, len(cells))
        vs.append(v)
        shape += [', ' * i + name + ' = ', None]
    f = [f for f in G['fields'] if f['name'] == kind][0]
    m.put(root + 8 * (G['tag'] // 64) if G.get('tag') else root, {'ut': 0, 'ud': 1}[kind])
    v, cells = value(ctx, kind, 1 if kind == 'ud' else [1], 'u')
    x = m.add(cells)
    m.put_list(root + 8 * (G['data'] + f['ptr']), x, 2, len(cells))
    vs.append(v)
    shape += ['), %s = ' % kind, None, ')']
    o = mod.G.from_buffer(m.bytes(), root, G['data'], G['ptrs'])
    verify(ctx, o.shortrepr(), shape, vs, kind)


def full(ctx, name, spec):
    """repr(): the same, with the name of the class"""
    mod = importlib.import_module('sp')
    v, cells = value(ctx, name, spec, 'c')
    b = ctx.pack(v)
    if name == 'u':
        b = b.decode('utf-8')
    o = mod.P(**{name: b})
    verify(ctx, repr(o), ['<P: (%s = ' % name, None, ')>'], [v], 'repr')


def two(ctx, name, a, b):
    """different values never print the same"""
    mod = importlib.import_module('sp')
    v, _ = value(ctx, name, a, 'a')
    w, _ = value(ctx, name, b, 'b')
    x = ctx.pack(v)
    y = ctx.pack(w)
    if name == 'u':
        x, y = x.decode('utf-8'), y.decode('utf-8')
    sx = mod.P(**{name: x}).shortrepr()
    sy = mod.P(**{name: y}).shortrepr()
    if sx == sy:
        ctx.check(x == y, 'the same text for different values')
    else:
        ctx.check(x != y, 'different text for the same value')

"""C13: hashing and comparing structs which declare a key"""
import importlib

from harness import wire, mk

KEYS = {'KI': 'abc', 'KS': ['i8', 'u8', 'i32', 'u32', 'u16'], 'KB': 'pqev', 'KF': 'fg', 'KT': 't', 'KD': 'dn', 'KU': 'u',
        'KM': 'tui', 'KO': 'n', 'KE': ['le', 'li']}


def load():
    return importlib.import_module('sk'), importlib.import_module('layout_sk').LAYOUT


def build(ctx, sname, pre, texts, lead, short):
    """an instance with arbitrary contents; texts: per pointer field None or the length of its contents"""
    mod, lay = load()
    s = lay['structs'][sname]
    m = mk.Msg(ctx)
    if lead:
        m.garbage(lead, pre + 'lead')
    d = s['data'] - short
    if d < 0:
        return None
    pos = m.garbage(d, pre + 'data')
    ptrs = m.zeros(s['ptrs'])
    for f in s['fields']:
        if f['kind'] != 'slot' or 'ptr' not in f:
            continue
        n = texts.get(f['name'])
        if n is None:
            continue
        where = ptrs + 8 * f['ptr']
        isdata = f['type'] == 'Data'
        size = n if isdata else n + 1
        if f['name'] == 'u':
            b = [ctx.int('%s%s%d' % (pre, f['name'], i), 1, 127) for i in range(n)]
        else:
            c = ctx.bytes(pre + f['name'], n)
            b = [c[i] for i in range(n)]
        target = m.add(b + ([] if isdata else [0]))
        m.put_list(where, target, 2, size)
    if lead:
        m.garbage(lead, pre + 'tail')
    cls = getattr(mod, sname)
    obj = cls.from_buffer(m.bytes(), pos, d, s['ptrs'])
    ref = []
    for f in s['fields']:
        if f['name'] in KEYS[sname]:
            if 'bit' in f:
                ref.append((f['name'], mk.bits_of(f, m.cells, pos, d, lay['enums'])))
            else:
                n = texts.get(f['name'])
                if n is None:
                    ref.append((f['name'], None))
                else:
                    at = pos + 8 * d + 8 * f['ptr']
                    t = at + 8 + 8 * wire.off(ctx.force(wire.rd(m.cells, at, 8)))
                    ref.append((f['name'], m.cells[t:t + n]))
    return obj, dict(ref)


def tup(obj, sname):
    """the tuple of the key fields"""
    return tuple([getattr(obj, k) for k in KEYS[sname]])


def not_nan(ctx, t):
    for x in t:
        if isinstance(x, float):
            ctx.assume(x == x)


def equal_refs(ctx, sname, a, b):
    lay = load()[1]
    r = True
    for f in lay['structs'][sname]['fields']:
        n = f['name']
        if n not in a:
            continue
        x, y = a[n], b[n]
        if x is None or y is None:
            r = r and x is y if not isinstance(x, int) else False
        elif isinstance(x, list):
            if len(x) != len(y):
                return False
            for i, j in zip(x, y):
                r = ctx.all(r, i == j)
        elif f['type'] in ('Float32', 'Float64'):
            w = f['width']
            r = ctx.all(r, ctx.any(x == y, ctx.all(x & ((1 << (w - 1)) - 1) == 0, y & ((1 << (w - 1)) - 1) == 0)))
        else:
            r = ctx.all(r, x == y)
    return r


def pair(ctx, struct, ta, tb, lead=(0, 0), short=(0, 0)):
    """two instances"""
    ra = build(ctx, struct, 'a.', ta, lead[0], short[0])
    rb = build(ctx, struct, 'b.', tb, lead[1], short[1])
    if ra is None or rb is None:
        return
    a, ka = ra
    b, kb = rb
    t, u = tup(a, struct), tup(b, struct)
    not_nan(ctx, t)
    not_nan(ctx, u)
    ctx.check(a == t, 'equal to the tuple of its key')
    ctx.check(t == a, 'the tuple is equal to it')
    ctx.check(not (a != t), 'not different from the tuple of its key')
    ctx.check(hash(a) == hash(t), 'same hash as the tuple of its key')
    same = equal_refs(ctx, struct, ka, kb)
    ctx.check(ctx.iff(a == b, same), 'equal exactly when the key fields are')
    ctx.check(ctx.iff(a != b, ctx.not_(same)), 'different exactly when the key fields are')
    ctx.check(ctx.iff(a == u, same), 'equal to a tuple exactly when the key fields are')
    if same:
        ctx.check(hash(a) == hash(b), 'equal objects have equal hashes')
        ctx.reach('equal')
    else:
        ctx.reach('different')


def nested(ctx, has):
    """a key with a struct which has a key"""
    mod, lay = load()
    ins, out = lay['structs']['KO'], lay['structs']['KN']
    objs = []
    vals = []
    for pre, h in zip('ab', has):
        m = mk.Msg(ctx)
        at = m.garbage(out['data'], pre + 'data')
        ptr = m.zeros(out['ptrs'])
        if h:
            t = m.garbage(ins['data'], pre + 'inner')
            m.put_struct(ptr, t, ins['data'], 0)
            vals.append([(mk.bits_of(f, m.cells, t, ins['data'])) for f in ins['fields'] if f['name'] == 'n'] +
                        [wire.rd(m.cells, at, 8)])
        else:
            vals.append([None, wire.rd(m.cells, at, 8)])
        objs.append(mod.KN.from_buffer(m.bytes(), at, out['data'], out['ptrs']))
    a, b = objs
    same = has[0] == has[1]
    if same:
        for x, y in zip(*vals):
            if x is not None:
                same = ctx.all(same, x == y)
    ctx.check(ctx.iff(a == b, same), 'equal exactly when the key fields are')
    t = (a.s, a.m)
    ctx.check(a == t, 'equal to the tuple of its key')
    ctx.check(hash(a) == hash(t), 'hash')
    if has[0]:
        t2 = ((a.s.n,), a.m)
        ctx.check(a == t2, 'equal to the nested tuple')
        ctx.check(hash(a) == hash(t2), 'hash of the nested tuple')


def group(ctx):
    """a key naming a group: neither has a key of its own"""
    mod, lay = load()
    s = lay['structs']['KG']
    m = mk.Msg(ctx)
    m.garbage(s['data'])
    a = mod.KG.from_buffer(m.bytes(), 0, s['data'], s['ptrs'])
    refused(ctx, lambda: hash(a), 'hash of a group without key')


def refused(ctx, f, what):
    try:
        f()
        ok = False
    except TypeError:
        ok = True
    ctx.check(ok, what + ' has to be refused')


def no_key(ctx, other):
    mod, lay = load()
    s = lay['structs']['NoKey']
    m = mk.Msg(ctx)
    m.garbage(s['data'] + 0)
    m.zeros(s['ptrs'])
    buf = m.bytes()
    a = mod.NoKey.from_buffer(buf, 0, s['data'], s['ptrs'])
    b = mod.NoKey.from_buffer(buf, 0, s['data'], s['ptrs'])
    refused(ctx, lambda: hash(a), 'hash of a struct without key')
    o = b if other == 'same' else (a.a, a.t) if other == 'tuple' else (a.a,) if other == 'short' else None
    if o is not None:
        refused(ctx, lambda: a == o, 'comparing a struct without key')
        refused(ctx, lambda: a != o, 'comparing a struct without key')
    if other == 'keyed':
        k = mod.KO.from_buffer(buf, 0, 1, 1)
        refused(ctx, lambda: a == k, 'comparing a struct without key')


def ordering(ctx, struct, other):
    """ordering is always refused"""
    mod, lay = load()
    s = lay['structs'][struct]
    m = mk.Msg(ctx)
    m.garbage(s['data'])
    m.zeros(s['ptrs'])
    buf = m.bytes()
    cls = getattr(mod, struct)
    a = cls.from_buffer(buf, 0, s['data'], s['ptrs'])
    b = cls.from_buffer(buf, 0, s['data'], s['ptrs'])
    o = b if other == 'same' else tup(a, struct) if other == 'tuple' else 1
    refused(ctx, lambda: a < o, '<')
    refused(ctx, lambda: a <= o, '<=')
    refused(ctx, lambda: a > o, '>')
    refused(ctx, lambda: a >= o, '>=')


def others(ctx, struct):
    """never equal to something else"""
    mod, lay = load()
    s = lay['structs'][struct]
    m = mk.Msg(ctx)
    m.garbage(s['data'])
    m.zeros(s['ptrs'])
    cls = getattr(mod, struct)
    a = cls.from_buffer(m.bytes(), 0, s['data'], s['ptrs'])
    t = tup(a, struct)
    for o in (None, 1, b'abc', list(t), t + (None,), t[:-1]):
        ctx.check(not (a == o), 'equal to something which is not the tuple of its key')
        ctx.check(a != o, 'different from anything else')

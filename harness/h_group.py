"""C26: virtual groups ($Py.group) are views of the fields they name"""
import importlib

from harness import wire, mk

# path of the struct or group which holds the virtual group, its name, its fields, its key
GROUPS = {
    'all': ((), 's cc b e f t u d l i v g n h'.split(), None),
    'ints': ((), 'h cc s'.split(), 'cc h'.split()),
    'bits': ((), 'e v b'.split(), 'e v b'.split()),
    'ptrs': ((), 't u d s'.split(), 't d s'.split()),
    'xy': (('g',), 'y x'.split(), 'x y'.split()),
    'two': ((), 's h'.split(), 'h'.split()),
    'three': ((), 'cc'.split(), None),
}
TAGS = {'two': 1, 'three': 2}


def load():
    return importlib.import_module('sg'), importlib.import_module('layout_sg').LAYOUT


def build(ctx, pre, d, p, sizes, lead):
    """a Gp with arbitrary data; sizes: contents of the pointer fields (a missing one is null)"""
    mod, lay = load()
    m = mk.Msg(ctx)
    if lead:
        m.garbage(lead, pre + 'lead')
    pos = m.garbage(d, pre + 'data')
    ptrs = m.zeros(p)
    texts = {}
    for f in lay['structs']['Gp']['fields']:
        if f['kind'] != 'slot' or 'ptr' not in f:
            continue
        n = sizes.get(f['name'])
        if n is None or f['ptr'] >= p:
            continue
        at = ptrs + 8 * f['ptr']
        t = f['type']
        if t in ('Text', 'Data'):
            if f['name'] == 'u':
                b = [ctx.int('%su%d' % (pre, i), 1, 127) for i in range(n)]
            else:
                c = ctx.bytes(pre + f['name'], n)
                b = [c[i] for i in range(n)]
            target = m.add(b + [0] * (t == 'Text'))
            m.put_list(at, target, 2, n + (t == 'Text'))
            texts[f['name']] = b
        elif t == 'In':
            n = max(n, 1)
            target = m.garbage(n, pre + 'in')
            m.put_struct(at, target, n, 0)
            texts['i'] = [wire.signed(wire.rd(m.cells, target, 8), 64)]
        else:
            c = ctx.bytes(pre + 'l', 2 * n)
            target = m.add([c[i] for i in range(2 * n)])
            m.put_list(at, target, 3, n)
            texts['l'] = [wire.signed(wire.rd(m.cells, target + 2 * i, 2), 16) for i in range(n)]
    if lead:
        m.garbage(lead, pre + 'tail')
    return mod.Gp.from_buffer(m.bytes(), pos, d, p), m, pos, texts


def field(lay, path, name):
    fs = lay['structs']['Gp']['fields']
    for g in path:
        fs = [f for f in fs if f['name'] == g][0]['fields']
    return [f for f in fs if f['name'] == name][0]


def check_field(ctx, got, has, val, f, m, pos, d, lay, texts, what):
    """val is what the field holds"""
    name = f['name']
    if f['kind'] == 'slot' and mk.is_data(f):
        mk.check_value(ctx, val, f, mk.bits_of(f, m.cells, pos, d, lay['enums']), what)
        return
    if name == 'g':
        for x in f['fields']:
            if x['type'] != 'Void':
                mk.check_value(ctx, getattr(val, x['name']), x, mk.bits_of(x, m.cells, pos, d, lay['enums']), what + '.' + x['name'])
        return
    if name == 'n':
        null, v = [mk.bits_of(x, m.cells, pos, d, lay['enums']) for x in f['fields']]
        ctx.check(ctx.iff(val is None, null != 0), what + ' is None exactly when isNull is set')
        if val is not None:
            ctx.check(val == wire.signed(v, 32), what)
        return
    exp = texts.get(name)
    ctx.check(has() == (exp is not None), 'has_' + name)
    ctx.check((val is None) == (exp is None), what + ' is None exactly when null')
    if exp is None:
        g = got()
        if f['type'] in ('Text', 'Data'):
            ctx.check(len(g) == 0, 'get_%s of null' % name)
            ctx.check(type(g) is type(u'' if name == 'u' else b''), 'type of get_%s' % name)
        elif name == 'l':
            ctx.check(len(g) == 0, 'get_l of null')
        else:
            ctx.check(g.q == 0, 'get_i of null')
        return
    for v in (val, got()):
        if name == 'u':
            ctx.check(v == ctx.pack(exp).decode('utf-8'), what)
        elif f['type'] in ('Text', 'Data'):
            ctx.check(v == ctx.pack(exp), what)
        elif name == 'i':
            ctx.check(v.q == exp[0], what)
        else:
            ctx.check(len(v) == len(exp), what + ': length')
            for i in range(len(exp)):
                ctx.check(v[i] == exp[i], what + ': item')


def view(ctx, group, d, p, sizes, lead):
    """every field of the group is the field of the struct"""
    mod, lay = load()
    path, names, key = GROUPS[group]
    obj, m, pos, texts = build(ctx, '', d, p, sizes, lead)
    tag = TAGS.get(group)
    holder = obj
    for g in path:
        holder = getattr(holder, g)
    if tag is not None:
        bit = lay['structs']['Gp']['union']
        cur = wire.rd(m.cells, pos + bit // 8, 2) if bit < d * 64 else 0
        try:
            g = getattr(holder, group)
        except ValueError:
            ctx.check(cur != tag, 'the group of the current member can be read')
            ctx.reach('refused')
            return
        ctx.check(cur == tag, 'the group of another member of the union is refused')
        ctx.reach('current')
    else:
        g = getattr(holder, group)
    for name in names:
        f = field(lay, path, name)
        val = getattr(g, name)
        check_field(ctx, getattr(g, 'get_' + name, None), getattr(g, 'has_' + name, None), val, f, m, pos, d, lay,
                    texts, '%s.%s' % (group, name))
        flat = getattr(holder, name)
        if f['kind'] == 'slot' and f['type'] not in ('In', 'List(Int16)', 'Float32'):
            ctx.check(flat == val, '%s.%s is the field itself' % (group, name))
            ctx.check(type(flat) is type(val), '%s.%s has the type of the field' % (group, name))
    hidden = [f['name'] for f in lay['structs']['Gp']['fields'] if f['name'] not in names]
    ctx.check(not [x for x in hidden if hasattr(g, x)], 'a group has no other field')


def keyed(ctx, group, d, p, sizes, lead):
    """two groups with a key, of different messages"""
    path, names, key = GROUPS[group]
    objs = [build(ctx, pre, dd, p, sz, ld)[0] for pre, dd, sz, ld in zip(('a.', 'b.'), d, sizes, lead)]
    gs = []
    ts = []
    for o in objs:
        if group in TAGS:
            ctx.assume(o.is_two())
        for g in path:
            o = getattr(o, g)
        gs.append(getattr(o, group))
        ts.append(tuple([getattr(o, k) for k in key]))
    a, b = gs
    t, u = ts
    ctx.check(a == t, 'equal to the tuple of its key')
    ctx.check(t == a, 'the tuple is equal to it')
    ctx.check(not (a != t), 'not different from the tuple of its key')
    ctx.check(hash(a) == hash(t), 'same hash as the tuple of its key')
    same = t == u
    ctx.check(ctx.iff(a == b, same), 'equal exactly when the keys are')
    ctx.check(ctx.iff(a != b, ctx.not_(same)), 'different exactly when the keys are')
    ctx.check(ctx.iff(a == u, same), 'equal to a tuple exactly when the keys are')
    if same:
        ctx.check(hash(a) == hash(b), 'equal groups have equal hashes')
        ctx.reach('equal')
    else:
        ctx.reach('different')


def no_key(ctx, group):
    """without a key: neither hashed nor compared; the struct itself has none either"""
    path, names, key = GROUPS[group]
    obj = build(ctx, '', 5, 5, {}, 0)[0]
    if group in TAGS:
        ctx.assume(obj.is_three())
    g = getattr(obj, group)
    t = tuple([getattr(obj, k) for k in names])
    for f in (lambda: hash(g), lambda: g == t, lambda: g == g, lambda: hash(obj), lambda: obj == t, lambda: g != t):
        try:
            f()
            ok = False
        except TypeError:
            ok = True
        ctx.check(ok, 'no key: refused')

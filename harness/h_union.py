"""C17: unions; C24: nullable groups; C19: enums"""
import importlib

from harness import wire, mk
from harness.h_ctor import load, Expected, Field, region


def members(s):
    """members of the anonymous union of a struct or of a group"""
    return sorted([f for f in s['fields'] if f['tag'] is not None], key=lambda f: f['tag'])


def unions(s):
    """(path, node) of every union of a struct"""
    out = []
    if s['union'] is not None:
        out.append(((), s))
    for f in s['fields']:
        if f['kind'] == 'group' and f['union'] is not None:
            out.append(((f,), f))
    return out


def walk(obj, path):
    for g in path:
        obj = getattr(obj, mk.py(g['name']))
    return obj


def raises(exc, fn, *args):
    try:
        fn(*args)
    except exc:
        return True
    return False


def check_selected(ctx, u, node, tag, what):
    """u: the object with the union; only the member number tag is readable"""
    w = u.which()
    ctx.check(w == tag, what + 'which()')
    for f in members(node):
        n = mk.py(f['name'])
        act = tag == f['tag']
        ctx.check(ctx.iff(getattr(u, 'is_' + n)(), act), what + 'is_' + n)
        try:
            getattr(u, n)
            ok = True
        except ValueError:
            ok = False
        ctx.check(ctx.iff(ok, act), what + n + ' is readable exactly when selected')
        if 'ptr' in f and hasattr(u, 'get_' + n):
            try:
                getattr(u, 'get_' + n)()
                ok = True
            except ValueError:
                ok = False
            ctx.check(ctx.iff(ok, act), what + 'get_' + n + ' works exactly when selected')


def read_tag(ctx, schema, struct, k, d, p):
    """union number k of the struct: any tag; arbitrary data, null pointers"""
    mod, lay = load(schema)
    s = lay['structs'][struct]
    path, node = unions(s)[k]
    m = mk.Msg(ctx)
    m.garbage(1, 'before')
    start = m.garbage(d, 'data')
    m.zeros(p)
    obj = getattr(mod, struct).from_buffer(m.bytes(), start, d, p)
    u = walk(obj, path)
    bit = node['union']
    tag = wire.rd(m.cells, start + bit // 8, 2) if bit < 64 * d else 0
    check_selected(ctx, u, node, tag, '')
    w = u.which()
    ctx.out(int(w) if not ctx.symbolic else w)
    for f in members(node):
        if f['kind'] == 'slot' and mk.is_data(f):
            try:
                got = getattr(u, mk.py(f['name']))
            except ValueError:
                continue
            mk.check_value(ctx, got, f, mk.bits_of(f, m.cells, start, d, lay['enums']), f['name'])
    name = w.name
    if len(members(node)):
        for f in members(node):
            ctx.check(ctx.implies(tag == f['tag'], name == mk.py(f['name'])), 'name of the tag')
    text = str(w)
    ctx.check(text == name, 'str() of the tag')


def arg_of(ctx, mod, lay, e, f, pre):
    """value for a member (slot or group), stored into the expected image; returns (value, [(path, Field)])"""
    if f['kind'] == 'slot':
        x = Field(ctx, mod, lay, f, pre + f['name'], 1)
        x.expect(e)
        return x.value, [((), x)]
    vals, fs = [], []
    for g in f['fields']:
        x = Field(ctx, mod, lay, g, pre + f['name'] + '.' + g['name'], 1)
        x.expect(e)
        vals.append(x.value)
        fs.append(((f,), x))
    return tuple(vals), fs


def build(ctx, schema, struct, k, member, how):
    """the constructor with one member of one union (and the fields outside of unions)"""
    mod, lay = load(schema)
    s = lay['structs'][struct]
    path, node = unions(s)[k]
    cls = getattr(mod, struct)
    e = Expected(ctx, mod, lay, struct)
    f = [x for x in members(node) if x['name'] == member][0]
    value, fs = arg_of(ctx, mod, lay, e, f, '')
    kw = {}
    if path:
        g = path[0]
        args = []
        names = [x['name'] for x in g['fields']]
        fn = getattr(cls, mk.py(g['name']).capitalize())
        kw[mk.py(g['name'])] = fn(**{mk.py(member): value})
    else:
        kw[mk.py(member)] = value
    e.put_tag(node['union'], f['tag'])
    # the other fields
    for x in s['fields']:
        if x['kind'] == 'slot' and x['tag'] is None and x['type'] != 'Void':
            y = Field(ctx, mod, lay, x, x['name'], 1)
            y.expect(e)
            kw[mk.py(x['name'])] = y.value
    if how == 'new':
        obj = getattr(cls, 'new_' + mk.py(member))(**kw)
    else:
        obj = cls(**kw)
    buf = obj._seg.buf
    n = len(buf)
    cells = [buf[i] for i in range(n)]
    pos = obj._data_offset
    regions = []
    region(ctx, cells, regions, pos, pos + 8 * (s['data'] + s['ptrs']), 'struct ')
    e.check(cells, pos, regions)
    u = walk(obj, path)
    check_selected(ctx, u, node, f['tag'], '')
    got = getattr(u, mk.py(member))
    for p, x in fs:
        x.check_read(getattr(got, mk.py(x.f['name'])) if p else got, 'reading ' + x.f['name'])


def several(ctx, schema, struct, k, size):
    """subsets of the members"""
    mod, lay = load(schema)
    s = lay['structs'][struct]
    path, node = unions(s)[k]
    cls = getattr(mod, struct)
    ms = members(node)
    given = [f for f in ms if ctx.choice('give_' + f['name'], [False, True])]
    if size is not None and len(given) > size and len(given) != len(ms):
        return
    e = Expected(ctx, mod, lay, struct)
    kw = {mk.py(f['name']): arg_of(ctx, mod, lay, e, f, '')[0] for f in given}
    if path:
        g = path[0]
        fn = getattr(cls, mk.py(g['name']).capitalize())
        kw = {mk.py(g['name']): fn(**kw)}
    try:
        obj = cls(**kw)
    except TypeError:
        ctx.check(len(given) > 1, 'TypeError for at most one member')
        return
    ctx.check(len(given) <= 1, 'no TypeError for several members')
    check_selected(ctx, walk(obj, path), node, given[0]['tag'] if given else 0, '')


# -- nullable groups -------------------------------------------------------------
def null_read(ctx, struct, name, d):
    mod, lay = load('su')
    s = lay['structs'][struct]
    g = [f for f in s['fields'] if f['name'] == name][0]
    m = mk.Msg(ctx)
    m.garbage(1, 'before')
    start = m.garbage(d, 'data')
    p = s['ptrs']
    m.zeros(p)
    m.garbage(1, 'after')
    obj = getattr(mod, struct).from_buffer(m.bytes(), start, d, p)
    flag, val = g['fields']
    null = mk.bits_of(flag, m.cells, start, d) != 0
    got = getattr(obj, mk.py(name))
    ctx.check(ctx.iff(got is None, null), 'None exactly when flagged null')
    if got is not None:
        mk.check_value(ctx, got, val, mk.bits_of(val, m.cells, start, d, lay['enums']), 'value')
        ctx.out(got)


def null_build(ctx, struct, given, none):
    """given: names of the fields with a value; none: with None; the rest is omitted"""
    mod, lay = load('su')
    s = lay['structs'][struct]
    e = Expected(ctx, mod, lay, struct)
    kw = {}
    fields = {}
    for f in s['fields']:
        if f['kind'] == 'slot':
            continue
        flag, val = f['fields']
        enc = mk.default_bits(flag)
        name = f['name']
        if name in none:
            kw[name] = None
            e.put_bits(flag, 1 ^ enc)
        elif name in given:
            x = Field(ctx, mod, lay, val, name)
            x.expect(e)
            kw[name] = x.value
            e.put_bits(flag, 0 ^ enc)
            fields[name] = x
    obj = getattr(mod, struct)(**kw)
    buf = obj._seg.buf
    cells = [buf[i] for i in range(len(buf))]
    e.check(cells, obj._data_offset, [])
    for f in s['fields']:
        if f['kind'] == 'slot':
            continue
        got = getattr(obj, mk.py(f['name']))
        name = f['name']
        flag, val = f['fields']
        if name in none or (name not in given and mk.default_bits(flag)):
            ctx.check(got is None, name + ' reads as None')
        else:
            ctx.check(got is not None, name + ' is not None')
            if name in given:
                fields[name].check_read(got, name)
            else:
                mk.check_value(ctx, got, val, mk.default_bits(val, lay['enums']), name + ' (omitted)')


# -- enums -----------------------------------------------------------------------
def enum_read(ctx, enum, field, d):
    mod, lay = load('se')
    s = lay['structs']['S']
    f = [x for x in s['fields'] if x['name'] == field][0]
    m = mk.Msg(ctx)
    m.garbage(1, 'before')
    start = m.garbage(d + s['ptrs'], 'data')
    obj = mod.S.from_buffer(m.bytes(), start, d, s['ptrs'])
    got = getattr(obj, field)
    bits = mk.bits_of(f, m.cells, start, d, lay['enums'])
    check_enum(ctx, mod, lay, enum, got, bits)


def check_enum(ctx, mod, lay, enum, got, bits):
    cls = getattr(mod, enum)
    mem = lay['enums'][enum]['members']
    ctx.check(got == bits, 'value')
    ctx.check(type(got) is cls, 'type')
    name = got.name
    for n, t in mem.items():
        ctx.check(ctx.iff(bits == n, got == getattr(cls, mk.py(t))), 'equal to the member')
        ctx.check(ctx.iff(bits == n, name == mk.py(t)), 'name of a member')
    k = len(mem)
    if ctx.choice('known', [False, True]):
        ctx.assume(bits < k)
        ctx.check(str(got) == name, 'str')
    else:
        ctx.assume(bits >= k)
        ctx.check(name == 'unknown<%d>' % bits, 'name of an unknown value')
        ctx.check(str(got) == 'unknown<%d>' % bits, 'str of an unknown value')
    repr(got)
    ctx.out(got, name)


def enum_write(ctx, enum, field, wrap):
    mod, lay = load('se')
    s = lay['structs']['S']
    f = [x for x in s['fields'] if x['name'] == field][0]
    e = Expected(ctx, mod, lay, 'S')
    x = Field(ctx, mod, lay, f, 'e')
    x.expect(e)
    v = x.value
    if wrap:
        v = getattr(mod, enum)(v)
    obj = mod.S(**{field: v})
    buf = obj._seg.buf
    e.check([buf[i] for i in range(len(buf))], obj._data_offset, [])
    got = getattr(obj, field)
    ctx.check(got == x.value, 'reads back')
    check_enum(ctx, mod, lay, enum, got, x.value)


def enum_list(ctx, enum, field, n, wrap):
    mod, lay = load('se')
    vals = [ctx.int('e%d' % i, 0, 65535) for i in range(n)]
    cls = getattr(mod, enum)
    obj = mod.S(**{field: [cls(v) for v in vals] if wrap else vals})
    lst = getattr(obj, field)
    ctx.check(len(lst) == n, 'len')
    for i in range(n):
        got = lst[i]
        ctx.check(got == vals[i], 'item')
        ctx.check(type(got) is cls, 'type')
        mem = lay['enums'][enum]['members']
        name = got.name
        for k, t in mem.items():
            ctx.check(ctx.iff(vals[i] == k, name == mk.py(t)), 'name of an item')
        ctx.out(got)

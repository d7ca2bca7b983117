"""C05, C18: reading the fields of one struct"""
import importlib

from harness import wire, mk


def load(schema):
    lay = importlib.import_module('layout_' + schema).LAYOUT
    mod = importlib.import_module(schema)
    return mod, lay


def find(lay, sname, fname):
    for path, f in mk.slots(lay['structs'][sname]['fields']):
        if '.'.join([g['name'] for g in path] + [f['name']]) == fname:
            return path, f
    raise KeyError(fname)


def data(ctx, schema, struct, d, p, field=None, off=1):
    """every data field, for given section sizes; everything else is arbitrary"""
    mod, lay = load(schema)
    m = mk.Msg(ctx)
    m.garbage(off, 'before')
    start = m.garbage(d + p, 'obj')
    m.garbage(1, 'after')
    buf = m.bytes()
    obj = getattr(mod, struct).from_buffer(buf, start, d, p)
    for path, f in mk.slots(lay['structs'][struct]['fields']):
        name = '.'.join([g['name'] for g in path] + [f['name']])
        if not mk.is_data(f) or (field and name != field):
            continue
        got = mk.get(obj, path, f['name'])
        mk.check_value(ctx, got, f, mk.bits_of(f, m.cells, start, d, lay['enums']), name)
        ctx.out(got)


def pointer(ctx, schema, struct, field, d, p, size, gap=1):
    """one pointer field: null, or designating an object of the given size"""
    mod, lay = load(schema)
    path, f = find(lay, struct, field)
    m = mk.Msg(ctx)
    m.garbage(1, 'before')
    start = m.garbage(d + p, 'obj')
    m.garbage(gap, 'after')
    k = f['ptr']
    t = f['type']
    name = f['name']
    pos = start + (d + k) * 8
    present = k < p
    null = True
    if present:
        null = ctx.choice('null', [True, False])
        if null:
            m.put(pos, 0)
    if not null:
        if t in ('Text', 'Data'):
            n = size
            target = m.garbage(mk.words(n + (t == 'Text')) , 'target')
            if t == 'Text':
                n += 1
                m.cells[target + size] = 0
            m.put_list(pos, target, 2, n)
        elif t == 'List(Int32)':
            target = m.garbage(mk.words(4 * size), 'target')
            m.put_list(pos, target, 4, size)
        elif t == 'List(Text)':
            target = m.zeros(size)
            m.put_list(pos, target, 6, size)
        elif t.startswith('List('):
            # a composite list, each element (1, 1)
            target = m.garbage(1 + 2 * size, 'target')
            m.put(target, wire.mk_struct(size, 1, 1))
            for i in range(size):
                m.put(target + 8 + 16 * i + 8, 0)
            m.put_list(pos, target, 7, 2 * size)
        else:
            target = m.garbage(size + 1, 'target')
            m.put_struct(pos, target, size, 1)
            m.put(target + 8 * size, 0)
    buf = m.bytes()
    cells = m.cells
    if field in UNICODE and not null:
        try:
            uni = ctx.pack(cells[target:target + size]).decode('utf-8')
        except UnicodeDecodeError:
            return
    obj = getattr(mod, struct).from_buffer(buf, start, d, p)
    for g in path:
        obj = getattr(obj, g['name'])
    has = getattr(obj, 'has_' + name)()
    ctx.check(has == (not null), 'has_' + name)
    val = getattr(obj, name)
    got = getattr(obj, 'get_' + name)()
    ctx.check((val is None) == null, name + ' is None exactly when null')
    ctx.out(has, val is None)
    if t in ('Text', 'Data'):
        exp = ctx.pack(cells[target:target + size]) if not null else b''
        if field in UNICODE:
            if null:
                ctx.check(type(got) is type(u'') and got == u'', 'get of a null unicode text')
            else:
                ctx.check(val == uni, name)
                ctx.check(got == uni, 'get_' + name)
            return
        ctx.check(got == exp, 'get_' + name)
        if not null:
            ctx.check(val == exp, name)
        ctx.out(got)
    elif t == 'List(Int32)':
        n = size if not null else 0
        ctx.check(len(got) == n, 'length of get_' + name)
        for i in range(n):
            e = wire.signed(wire.rd(cells, target + 4 * i, 4), 32)
            ctx.check(val[i] == e, 'items of ' + name)
            ctx.check(got[i] == e, 'items of get_' + name)
    elif t.startswith('List('):
        n = size if not null else 0
        ctx.check(len(got) == n, 'length of get_' + name)
        if not null:
            ctx.check(len(val) == n, 'length of ' + name)
        for i in range(n):
            if t == 'List(Text)':
                ctx.check(val[i] is None and got[i] is None, 'null items')
            else:
                e = wire.signed(wire.rd(cells, target + 8 + 16 * i, 8), 64)
                ctx.check(val[i].x == e and got[i].x == e, 'items')
                ctx.check(val[i].t is None, 'null field of an item')
        if t == 'List(Leaf)' and n:
            # beyond the data section of the item
            ctx.check(got[n - 1].y == -7, 'default in an item')
            ctx.check(got[n - 1].b == True, 'default in an item')   # noqa
    else:
        for path2, f2 in mk.slots(lay['structs'][t]['fields']):
            if mk.is_data(f2):
                bits = mk.bits_of(f2, cells, target, size, lay['enums']) if not null else \
                    mk.default_bits(f2, lay['enums'])
                mk.check_value(ctx, getattr(got, f2['name']), f2, bits, 'get_%s.%s' % (name, f2['name']))
                if not null:
                    mk.check_value(ctx, getattr(val, f2['name']), f2, bits, '%s.%s' % (name, f2['name']))
            else:
                ctx.check(getattr(got, f2['name']) is None, 'null field')
                ctx.check(getattr(got, 'has_' + f2['name'])() == False, 'null field')  # noqa


UNICODE = ('tu',)


def none_args(ctx, schema, struct, field):
    """None for a pointer argument writes a null pointer"""
    mod, lay = load(schema)
    path, f = find(lay, struct, field)
    s = lay['structs'][struct]
    if path:
        g = path[0]
        args = []
        for x in g['fields']:
            args.append(None if x['name'] == field.split('.')[-1] else 0)
        obj = getattr(mod, struct)(**{g['name']: tuple(args)})
    else:
        obj = getattr(mod, struct)(**{f['name']: None})
    buf = obj._seg.buf
    pos = (s['data'] + f['ptr']) * 8
    ctx.check(len(buf) == (s['data'] + s['ptrs']) * 8, 'nothing else is allocated')
    ctx.check(wire.rd(buf, pos, 8) == 0, 'null pointer')
    ctx.check(mk.get(obj, path, 'has_' + f['name'])() == False, 'has')  # noqa
    ctx.check(mk.get(obj, path, f['name']) is None, 'reads back as None')


def has_word(ctx, schema, struct, field, d, p):
    """any word in the place of the pointer: only zero is null"""
    mod, lay = load(schema)
    path, f = find(lay, struct, field)
    m = mk.Msg(ctx)
    m.garbage(1, 'before')
    start = m.garbage(d + p, 'obj')
    m.garbage(1, 'after')
    pos = start + (d + f['ptr']) * 8
    obj = getattr(mod, struct).from_buffer(m.bytes(), start, d, p)
    for g in path:
        obj = getattr(obj, g['name'])
    has = getattr(obj, 'has_' + f['name'])()
    null = wire.rd(m.cells, pos, 8) == 0 if f['ptr'] < p else True
    ctx.check(ctx.iff(has, ctx.not_(null)), 'has_' + f['name'])
    ctx.out(has)

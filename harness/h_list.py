"""C14: items of lists"""
import importlib

from harness import wire, mk

# field -> (element size tag, element bits, kind)
PRIMS = {'b': (1, 1), 'i8': (2, 8), 'u8': (2, 8), 'i16': (3, 16), 'u16': (3, 16), 'i32': (4, 32), 'u32': (4, 32),
         'i64': (5, 64), 'u64': (5, 64), 'f32': (4, 32), 'f64': (5, 64), 'e': (3, 16)}


def load():
    return importlib.import_module('sl')


def field_index(name):
    lay = importlib.import_module('layout_sl').LAYOUT
    for f in lay['structs']['L']['fields']:
        if f['name'] == name:
            return f['ptr']


def prim_value(ctx, field, cells, base, i):
    tag, bits = PRIMS[field]
    if bits == 1:
        return (cells[base + i // 8] >> (i % 8)) & 1
    return wire.rd(cells, base + i * (bits // 8), bits // 8)


def item_ok(ctx, field, got, bits, what):
    w = PRIMS[field][1]
    if field == 'b':
        ctx.check(got == (bits == 1), what)
    elif field in ('f32', 'f64'):
        ctx.check(ctx.same_float(got, bits, w), what)
    elif field[0] == 'i':
        ctx.check(got == wire.signed(bits, w), what)
    else:
        ctx.check(got == bits, what)


def make(ctx, field, n, extra=1):
    """L with one list of n items; returns (msg, list object, position of the first element)"""
    m = mk.Msg(ctx)
    m.garbage(1, 'before')
    root = m.zeros(21)
    k = field_index(field)
    pos = root + 8 * k
    m.garbage(extra, 'gap')
    return m, root, pos


def obj_of(m, root, field):
    mod = load()
    lay = importlib.import_module('layout_sl').LAYOUT['structs']['L']
    o = mod.L.from_buffer(m.bytes(), root, lay['data'], lay['ptrs'])
    return getattr(o, field)


def index(ctx, lst, n, name='i'):
    """an arbitrary index, checked for range; returns the element and its position from the start, or None"""
    i = ctx.int(name, -n - 3, n + 3)
    try:
        got = lst[i]
    except IndexError:
        ctx.check(ctx.any(i < -n, i >= n), 'IndexError for a valid index')
        return None, None
    ctx.check(ctx.all(i >= -n, i < n), 'no IndexError for an invalid index')
    i = ctx.force(i)
    return got, i % n


def prim(ctx, field, n, composite=None):
    m, root, pos = make(ctx, field, n)
    tag, bits = PRIMS[field]
    if composite is None:
        base = m.garbage((n * bits + 63) // 64, 'body')
        m.put_list(pos, base, tag, n)
        at = lambda i: (base, i)
    else:
        # the same list as it is written by a schema where the elements have become structs
        d, p = composite
        t = m.garbage(1 + n * (d + p), 'body')
        m.put(t, wire.mk_struct(n, d, p))
        m.put_list(pos, t, 7, n * (d + p))
        at = lambda i: (t + 8 + 8 * (d + p) * i, 0)
    m.garbage(1, 'after')
    lst = obj_of(m, root, field)
    ctx.check(len(lst) == n, 'len')
    got, i = index(ctx, lst, n)
    if i is not None:
        item_ok(ctx, field, got, prim_value(ctx, field, m.cells, *at(i)), 'item')
        ctx.out(got)
    k = 0
    for x in lst:
        if k < n:
            item_ok(ctx, field, x, prim_value(ctx, field, m.cells, *at(k)), 'iteration')
        k += 1
    ctx.check(k == n, 'number of items in the iteration')


def slices(ctx, field, n):
    m, root, pos = make(ctx, field, n)
    tag, bits = PRIMS[field]
    base = m.garbage((n * bits + 63) // 64, 'body')
    m.put_list(pos, base, tag, n)
    lst = obj_of(m, root, field)
    a = ctx.choice('a', [None] + list(range(-n - 2, n + 3)))
    b = ctx.choice('b', [None] + list(range(-n - 2, n + 3)))
    c = ctx.choice('c', [None, 1, 2, -1, -2])
    exp = list(range(n))[a:b:c]
    got = lst[a:b:c]
    ctx.check(len(got) == len(exp), 'length of the slice')
    for x, i in zip(got, exp):
        item_ok(ctx, field, x, prim_value(ctx, field, m.cells, base, i), 'item of the slice')


def void(ctx, n):
    m, root, pos = make(ctx, 'v', n)
    cnt = ctx.int('count', 0, (1 << 29) - 1)
    m.put_list(pos, m.here(), 0, cnt)
    lst = obj_of(m, root, 'v')
    ctx.check(len(lst) == cnt, 'len')
    i = ctx.int('i', -(1 << 30), 1 << 30)
    try:
        got = lst[i]
    except IndexError:
        ctx.check(ctx.any(i < -cnt, i >= cnt), 'IndexError for a valid index')
        return
    ctx.check(ctx.all(i >= -cnt, i < cnt), 'no IndexError for an invalid index')
    ctx.check(got is None, 'item')


def counts(ctx, field):
    """lists of any length: the count, and the indexes near both ends"""
    m, root, pos = make(ctx, field, 0)
    tag, bits = PRIMS[field]
    cnt = ctx.int('count', 0, (1 << 29) - 1)
    base = m.garbage(8, 'body')
    m.put_list(pos, base, tag, cnt)
    lst = obj_of(m, root, field)
    ctx.check(len(lst) == cnt, 'len')
    avail = 512 // bits
    k = ctx.choice('k', [-2, -1, 0, 1, 3, avail - 1, avail])
    if ctx.choice('from', ['start', 'end']) == 'start':
        i = k
    else:
        i = k - cnt
        ctx.assume(i < 0)
    if k < 0 and i is k:
        return
    try:
        got = lst[i]
    except IndexError:
        ctx.check(ctx.any(i < -cnt, i >= cnt, k >= avail), 'IndexError for a valid index')
        return
    ctx.check(ctx.all(i >= -cnt, i < cnt, k < avail, ctx.any(k >= 0, i >= 0)), 'no IndexError for an invalid index')
    if k >= 0:
        item_ok(ctx, field, got, prim_value(ctx, field, m.cells, base, k), 'item')


def texts(ctx, field, sizes):
    """sizes: length of each item, or None for null"""
    n = len(sizes)
    m, root, pos = make(ctx, field, n)
    base = m.zeros(n)
    m.put_list(pos, base, 6, n)
    exp = []
    for k, s in enumerate(sizes):
        if s is None:
            exp.append(None)
            continue
        if field == 'tu':
            u = ctx.text('t%d' % k, s, 0, 0x7ff)
            b = u.encode('utf-8')
            cells = [b[i] for i in range(len(b))]
            exp.append(u)
        else:
            b = ctx.bytes('t%d' % k, s)
            cells = [b[i] for i in range(s)]
            exp.append(b)
        nul = [] if field == 'd' else [0]
        target = m.add(cells + nul)
        m.put_list(base + 8 * k, target, 2, len(cells + nul))
        m.garbage(1)
    lst = obj_of(m, root, field)
    ctx.check(len(lst) == n, 'len')
    got, i = index(ctx, lst, n)
    if i is not None:
        ctx.check((got is None) == (exp[i] is None), 'null item')
        if exp[i] is not None:
            ctx.check(got == exp[i], 'item')
        ctx.out(got)
    items = list(lst)
    ctx.check(len(items) == n, 'iteration')
    for x, y in zip(items, exp):
        ctx.check((x is None) == (y is None), 'null item in the iteration')
        if y is not None:
            ctx.check(x == y, 'iteration')


def structs(ctx, field, n, d, p, size=2):
    """composite list with items of d data and p pointer words"""
    m, root, pos = make(ctx, field, n)
    t = m.garbage(1 + n * (d + p), 'body')
    m.put(t, wire.mk_struct(n, d, p))
    m.put_list(pos, t, 7, n * (d + p))
    lay = importlib.import_module('layout_sl').LAYOUT
    sname = {'p': 'P', 'q': 'D'}[field]
    texts_ = {}
    for i in range(n):
        for k in range(p):
            pp = t + 8 + 8 * (d + p) * i + 8 * d + 8 * k
            if (i + k) % 2 == 0:
                b = ctx.bytes('text%d_%d' % (i, k), size)
                target = m.add([b[j] for j in range(size)] + [0])
                m.put_text(pp, target, size + 1)
                texts_[i, k] = b
            else:
                m.put(pp, 0)
    m.garbage(1, 'after')
    lst = obj_of(m, root, field)
    ctx.check(len(lst) == n, 'len')
    got, i = index(ctx, lst, n)
    if i is not None:
        off = t + 8 + 8 * (d + p) * i
        for path, f in mk.slots(lay['structs'][sname]['fields']):
            v = getattr(got, f['name'])
            if mk.is_data(f):
                mk.check_value(ctx, v, f, mk.bits_of(f, m.cells, off, d), f['name'])
                ctx.out(v)
            else:
                e = texts_.get((i, f['ptr']))
                ctx.check((v is None) == (e is None), 'null text')
                if e is not None:
                    ctx.check(v == e, 'text')
    items = list(lst)
    ctx.check(len(items) == n, 'iteration')
    for i, x in enumerate(items):
        off = t + 8 + 8 * (d + p) * i
        f = lay['structs'][sname]['fields'][0]
        mk.check_value(ctx, x.x, f, mk.bits_of(f, m.cells, off, d), 'iteration')


def nested(ctx, field, sizes):
    n = len(sizes)
    m, root, pos = make(ctx, field, n)
    base = m.zeros(n)
    m.put_list(pos, base, 6, n)
    where = []
    for k, s in enumerate(sizes):
        if field == 'll':
            target = m.garbage((s * 16 + 63) // 64, 'inner%d' % k)
            m.put_list(base + 8 * k, target, 3, s)
        elif field == 'lt':
            target = m.zeros(s)
            m.put_list(base + 8 * k, target, 6, s)
            for j in range(s):
                x = m.garbage(1, 'x%d_%d' % (k, j))
                m.put_text(target + 8 * j, x, 4)
        else:
            target = m.garbage(1 + s, 'inner%d' % k)
            m.put(target, wire.mk_struct(s, 1, 0))
            m.put_list(base + 8 * k, target, 7, s)
        where.append(target)
    lst = obj_of(m, root, field)
    ctx.check(len(lst) == n, 'len')
    got, i = index(ctx, lst, n)
    if i is None:
        return
    s = sizes[i]
    ctx.check(len(got) == s, 'len of the inner list')
    g2, j = index(ctx, got, s, 'j')
    if j is None:
        return
    if field == 'll':
        ctx.check(g2 == wire.signed(wire.rd(m.cells, where[i] + 2 * j, 2), 16), 'inner item')
    elif field == 'lt':
        x = where[i] + 8 * s + 8 * j
        ctx.check(g2 == ctx.pack(m.cells[x:x + 3]), 'inner item')
    else:
        ctx.check(g2.x == wire.signed(wire.rd(m.cells, where[i] + 8 + 8 * j, 4), 32), 'inner item')

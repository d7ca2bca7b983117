"""C04, C05: fields with arbitrary defaults (the message which capnp gives to the compiler is symbolic there)"""
import importlib

from harness import wire, mk

# where schema.capnp's Value has it (byte), and its bits
SCALARS = {'Bool': (2, 1), 'Int8': (2, 8), 'UInt8': (2, 8), 'Int16': (2, 16), 'UInt16': (2, 16), 'En': (2, 16),
           'Int32': (4, 32), 'UInt32': (4, 32), 'Float32': (4, 32), 'Int64': (8, 64), 'UInt64': (8, 64),
           'Float64': (8, 64)}


def lay():
    return importlib.import_module('layout_sq').LAYOUT


_places = {}
_slots = {}
_nodes = []


def slot_places():
    """name of a field -> position of the data section of its Field"""
    places()
    return _slots


def places():
    """path of a field -> position of the Value of its default"""
    if not _places:
        S = importlib.import_module('capnpy.schema')
        loads = importlib.import_module('capnpy.message').loads
        raw = importlib.import_module('layout_sq').REQUEST
        req = loads(raw, S.CodeGeneratorRequest)
        head = len(raw) - len(req._seg.buf)
        for node in req.nodes:
            dn = node.displayName
            if dn.startswith(b'sq.capnp:Q') and node.which() == S.Node.__tag__.struct:
                _nodes.append(head + node._data_offset)
                prefix = dn.split(b':')[1].decode('ascii').split('.')[1:]
                for f in node.struct.fields:
                    if f.which() == S.Field.__tag__.slot:
                        _slots['.'.join(prefix + [f.name.decode('ascii')])] = head + f._data_offset
                        _places['.'.join(prefix + [f.name.decode('ascii')])] = head + f.slot.defaultValue._data_offset
    return _places


class Imports(object):
    def load_schema(self, **kw):
        return importlib.import_module('capnpy.annotate')


def fields():
    out = {}
    for path, f in mk.slots(lay()['structs']['Q']['fields']):
        out['.'.join([g['name'] for g in path] + [f['name']])] = (path, f)
    return out


def is_nan(ctx, bits, w):
    m, e, s = (52, 2047, 52) if w == 64 else (23, 255, 23)
    return ctx.all(bits & ((1 << m) - 1) != 0, (bits >> s) & e == e)


def module(ctx, which, slots=(), first=0, words=None):
    """the generated module, with arbitrary defaults of some fields; and the defaults, as bits"""
    C = importlib.import_module('capnpy.compiler.compiler')
    cells = list(bytearray(importlib.import_module('layout_sq').REQUEST))
    defaults = {}
    for name, (path, f) in sorted(fields().items()):
        d = mk.default_bits(f, lay()['enums'])
        if name in which:
            o, w = SCALARS[f['type']]
            at = places()[name] + o
            d = ctx.int('default of ' + name, 0, (1 << w) - 1)
            if f['type'].startswith('Float'):
                # the only NaN which a schema can say
                ctx.assume(ctx.any(ctx.not_(is_nan(ctx, d, w)), d == (0x7ff8 << 48 if w == 64 else 0x7fc0 << 16)))
            for i in range(max(w // 8, 1)):
                cells[at + i] = (d >> (8 * i)) & 255
        defaults[name] = d
    slot = {}
    for name, n in slots:
        # (the offset is the second half of the first word of schema.capnp's Field)
        slot[name] = ctx.int('slot of ' + name, 0, n - 1)
        at = slot_places()[name] + 4
        k = slot[name] + first
        cells[at:at + 4] = [k & 255, (k >> 8) & 255, 0, 0]
    if words is not None:
        # dataWordCount of schema.capnp's Node
        for at in _nodes:
            cells[at + 14] = words

    class Compiler(C.DynamicCompiler):
        def _capnp_compile(self, filename):
            self.capnproto_version = '1.0.1'
            return ctx.pack(cells)
    m, src = ctx.generate(Compiler(['/']).generate_py_source, 'sq.capnp', False, None)
    ns = ctx.execute(src, 'sq', {'__name__': 'sq', '__file__': '/sq.capnp', '__schema__': '/sq.capnp',
                                 '__compiler': Imports()})
    if slots:
        return ns['Q'], defaults, slot
    return ns['Q'], defaults


def stored(f, cells, pos, d):
    """the bits on the wire (0 beyond the section)"""
    bit, w = f['bit'], f['width']
    if bit >= d * 64:
        return 0
    if w == 1:
        return (cells[pos + bit // 8] >> (bit % 8)) & 1
    return wire.rd(cells, pos + bit // 8, w // 8)


def check_bits(ctx, got, f, bits, what):
    if f['type'] in ('Float32', 'Float64') and not isinstance(got, int):
        w = f['width']
        if is_nan(ctx, bits, w):
            ctx.check(got != got, what + ': not a number')
        else:
            ctx.check(ctx.same_float(got, bits, w), what)
    else:
        mk.check_value(ctx, got, f, bits, what)


def check_fields(ctx, obj, cells, pos, d, defaults, names):
    fs = fields()
    for name in names:
        path, f = fs[name]
        if name.startswith('n.'):
            null = stored(fs['n.isNull'][1], cells, pos, d) ^ defaults['n.isNull']
            bits = stored(fs['n.value'][1], cells, pos, d) ^ defaults['n.value']
            ctx.check(ctx.iff(obj.n is None, null != 0), 'n is None exactly when isNull is set')
            if obj.n is not None:
                ctx.check(obj.n == wire.signed(bits, 32), 'n')
            continue
        if name in ('ui', 'ub', 'ue'):
            tag = f['tag']
            bit = lay()['structs']['Q']['union']
            cur = wire.rd(cells, pos + bit // 8, 2) if bit < d * 64 else 0
            if cur != tag:
                try:
                    getattr(obj, name)
                    ok = False
                except ValueError:
                    ok = True
                ctx.check(ok, name + ' is refused: it is not the current member')
                continue
        bits = stored(f, cells, pos, d) ^ defaults[name]
        check_bits(ctx, mk.get(obj, path, f['name']), f, bits, name)


def read(ctx, which, d):
    """any contents: what is there XOR the default"""
    Q, defaults = module(ctx, which)
    m = mk.Msg(ctx)
    m.garbage(1, 'before')
    pos = m.garbage(d, 'data')
    m.garbage(1, 'after')
    obj = Q.from_buffer(m.bytes(), pos, d, 0)
    check_fields(ctx, obj, m.cells, pos, d, defaults, which)


def value_of(ctx, f):
    """an arbitrary value of the field and its bits"""
    t, name = f['type'], 'value of ' + f['name']
    if t == 'Bool':
        v = ctx.bool(name)
        return v, ctx.ite(v, 1, 0)
    if t in ('Float32', 'Float64'):
        w = f['width']
        v = ctx.float(name, w)
        bits = ctx.float_bits(v, w)
        ctx.assume(ctx.not_(is_nan(ctx, bits, w)))
        return v, bits
    if t == 'En':
        v = ctx.int(name, 0, 65535)
        return v, v
    w = mk.INTS[t]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t[0] == 'I' else (0, (1 << w) - 1)
    v = ctx.int(name, lo, hi)
    return v, v & ((1 << w) - 1)


def ctor(ctx, which, given):
    """constructing with some of the fields: what is written, and what is read back"""
    Q, defaults = module(ctx, which)
    fs = fields()
    s = lay()['structs']['Q']
    exp = {}
    kw = {}
    groups = {}
    member = 'ui'
    for name in given:
        if name == 'n.isNull':
            kw['n'] = None
            exp['n.isNull'] = defaults['n.isNull'] ^ 1
            exp['n.value'] = 0
            continue
        path, f = fs[name]
        v, bits = value_of(ctx, f)
        exp[name] = bits ^ defaults[name]
        if name == 'n.value':
            kw['n'] = v
            exp['n.isNull'] = defaults['n.isNull']
        elif path:
            groups[name] = v
        else:
            kw[name] = v
            if name in ('ub', 'ue'):
                member = name
    if groups:
        kw['g'] = Q.G(**dict((k.split('.')[1], v) for k, v in groups.items()))
    if member == 'ui' and 'ui' not in kw:
        v, bits = value_of(ctx, fs['ui'][1])
        kw['ui'] = v
        exp['ui'] = bits ^ defaults['ui']
    if 'n' not in kw:
        # omitted: null exactly when the default says so
        exp['n.isNull'] = None
    obj = Q(**kw)
    buf = obj._seg.buf
    cells = [buf[i] for i in range(len(buf))]
    ctx.check(len(cells) >= 8 * s['data'], 'size')
    pos = obj._data_offset
    tag = wire.rd(cells, pos + s['union'] // 8, 2)
    ctx.check(tag == fs[member][1]['tag'], 'tag of the union')
    for name, (path, f) in sorted(fs.items()):
        if name in ('ui', 'ub', 'ue') and name != member:
            continue
        got = stored(f, cells, pos, s['data'])
        if name.startswith('n.') and exp['n.isNull'] is None:
            if name == 'n.isNull':
                null = defaults['n.isNull'] != 0
                ctx.check(ctx.iff(obj.n is None, null), 'n omitted')
                if obj.n is not None:
                    ctx.check(obj.n == wire.signed(defaults['n.value'], 32), 'n omitted: its default')
            continue
        ctx.check(got == exp.get(name, 0), name + ' on the wire')
    check_fields(ctx, obj, cells, pos, s['data'], defaults, sorted(set(list(given) + list(which))))


def explicit(ctx, which):
    """omitting an argument is the same as giving the default"""
    Q, defaults = module(ctx, which)
    fs = fields()
    kw = {}
    for name in which:
        path, f = fs[name]
        t, d, w = f['type'], defaults[name], f['width']
        kw[name] = d == 1 if t == 'Bool' else wire.signed(d, w) if t.startswith('I') else d
    a = Q(ui=0)
    b = Q(ui=0, **kw)
    ctx.check(a._seg.buf == b._seg.buf, 'omitting is giving the default')
    ctx.check(a.dumps() == b.dumps(), 'omitting is giving the default')


def at(ctx, k, values, default):
    """values[k], or default beyond them"""
    r = default
    for i, v in enumerate(values):
        r = ctx.ite(k == i, v, r)
    return r


def slot_values(f, cells, pos, d):
    """the bits of every slot of the width of the field in the section"""
    w = f['width']
    if w == 1:
        return [(cells[pos + i // 8] >> (i % 8)) & 1 for i in range(64 * d)]
    return [wire.rd(cells, pos + w // 8 * i, w // 8) for i in range(64 * d // w)]


def read_slot(ctx, name, words, d, with_default):
    """a field at an arbitrary position of a section of this many words, read from a section of d words"""
    path, f = fields()[name]
    n = words * 64 // f['width']
    Q, defaults, slot = module(ctx, [name] if with_default else [], [(name, n)])
    m = mk.Msg(ctx)
    m.garbage(1, 'before')
    pos = m.garbage(d, 'data')
    m.garbage(1, 'after')
    obj = Q.from_buffer(m.bytes(), pos, d, 0)
    bits = at(ctx, slot[name], slot_values(f, m.cells, pos, d), 0) ^ defaults[name]
    check_bits(ctx, mk.get(obj, path, f['name']), f, bits, name)


def write_slot(ctx, name, with_default, extra):
    """constructing with a field at an arbitrary position of the last words"""
    fs = fields()
    path, f = fs[name]
    d = lay()['structs']['Q']['data'] + extra
    w = f['width']
    first = (d - extra) * 64 // w
    Q, defaults, slot = module(ctx, [name] if with_default else [], [(name, extra * 64 // w)], first, d)
    k = slot[name]
    v, bits = value_of(ctx, f)
    kw = dict(ui=5)
    if path:
        kw['g'] = Q.G(**{f['name']: v})
    else:
        kw[name] = v
    obj = Q(**kw)
    buf = obj._seg.buf
    cells = [buf[i] for i in range(len(buf))]
    ctx.check(len(cells) >= 8 * d, 'size')
    got = slot_values(f, cells, obj._data_offset, d)
    stored_bits = bits ^ defaults[name]
    # (everything else has its default)
    ctx.check(ctx.all(*[x == ctx.ite(k == i - first, stored_bits, 0) for i, x in enumerate(got)]), name + ' on the wire')
    check_bits(ctx, mk.get(obj, path, f['name']), f, bits, name)


def truthy(ctx, which, name):
    """a Bool field which is given any number: it holds whether this is true, and no other field changes"""
    Q, defaults = module(ctx, which)
    fs = fields()
    s = lay()['structs']['Q']
    v = ctx.int('value', -70000, 70000)
    kw = {'ui': 0}
    path, f = fs[name]
    if path:
        kw['g'] = Q.G(**{f['name']: v})
    else:
        kw[name] = v
    obj = Q(**kw)
    buf = obj._seg.buf
    cells = [buf[i] for i in range(len(buf))]
    pos = obj._data_offset
    for n, (_, g) in sorted(fs.items()):
        if n in ('ub', 'ue') or n.startswith('n.'):
            continue
        want = 0
        if n == name:
            want = ctx.ite(v != 0, 1, 0) ^ defaults[name]
        elif n == 'ui':
            want = defaults['ui'] & ((1 << g['width']) - 1)
        ctx.check(stored(g, cells, pos, s['data']) == want, n + ' on the wire')
    ctx.check(ctx.iff(mk.get(obj, path, f['name']), v != 0), name)

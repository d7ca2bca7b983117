"""C27: constants have the values of the schema"""
import importlib

from harness import wire, mk

TYPES = {
    'v': 'Void', 'b': 'Bool', 'i8': 'Int8', 'i16': 'Int16', 'i32': 'Int32', 'i64': 'Int64', 'u8': 'UInt8', 'u16': 'UInt16',
    'u32': 'UInt32', 'u64': 'UInt64', 'f32': 'Float32', 'f64': 'Float64', 'en': 'En', 't0': 'Text', 't1': 'Text',
    't5': 'Text', 't8': 'Text', 'd0': 'Data', 'd1': 'Data', 'd9': 'Data', 'pt': 'Pt', 'pe': 'Pt',
    'Outer.oi': 'Int16', 'Outer.of': 'Float64', 'Outer.op': 'Pt', 'Outer.Inner.ot': 'Text', 'Outer.Inner.ob': 'Bool',
    'lv': '[Void', 'lb': '[Bool', 'li8': '[Int8', 'li16': '[Int16', 'li32': '[Int32', 'li64': '[Int64', 'lu8': '[UInt8',
    'lu16': '[UInt16', 'lu32': '[UInt32', 'lu64': '[UInt64', 'lf32': '[Float32', 'lf64': '[Float64', 'le': '[En',
    'lt': '[Text', 'ld': '[Data', 'lp': '[Pt', 'll': '[[Int16', 'l0': '[Int32',
}
# where a scalar is in the data section of schema.capnp's Value (bytes) and its size in bits
SCALARS = {'Bool': (2, 1), 'Int8': (2, 8), 'UInt8': (2, 8), 'Int16': (2, 16), 'UInt16': (2, 16), 'En': (2, 16),
           'Int32': (4, 32), 'UInt32': (4, 32), 'Float32': (4, 32), 'Int64': (8, 64), 'UInt64': (8, 64),
           'Float64': (8, 64)}
WIDTH = dict((k, v[1]) for k, v in SCALARS.items())


def load(schema):
    return importlib.import_module('layout_' + schema)


_places = {}


def places(schema):
    """name -> (position of the Value of the constant, of its pointer, of its other pointers) in the message"""
    if schema not in _places:
        S = importlib.import_module('capnpy.schema')
        loads = importlib.import_module('capnpy.message').loads
        raw = load(schema).REQUEST
        req = loads(raw, S.CodeGeneratorRequest)
        head = len(raw) - len(req._seg.buf)
        r = {}
        for node in req.nodes:
            if node.which() == S.Node.__tag__.const:
                v = node.const.value
                name = node.displayName.split(b':')[1].decode('ascii')
                r[name] = (head + v._data_offset, head + v._ptrs_offset)
        _places[schema] = r
    return _places[schema]


def target(cells, at):
    """the list or struct which the (concrete) pointer at this position designates"""
    w = sum(c << (8 * i) for i, c in enumerate(cells[at:at + 8]))
    if w == 0:
        return None
    k = wire.kind(w)
    pos = at + 8 + 8 * wire.off(w)
    if k == wire.STRUCT:
        return ('s', pos, wire.field(w, 32, 16), wire.field(w, 48, 16))
    assert k == wire.LIST
    tag, n = wire.field(w, 32, 3), wire.field(w, 35, 29)
    if tag == 7:
        h = sum(c << (8 * i) for i, c in enumerate(cells[pos:pos + 8]))
        return ('c', pos + 8, wire.off(h), wire.field(h, 32, 16), wire.field(h, 48, 16))
    return ('l', pos, tag, n)


class Patcher(object):
    """arbitrary contents for constants; structure (pointers, lengths) as it is"""

    def __init__(self, ctx, schema):
        self.ctx = ctx
        self.lay = load(schema).LAYOUT
        self.orig = list(bytearray(load(schema).REQUEST))
        self.cells = list(self.orig)
        self.n = 0

    def put(self, pos, n):
        self.n += 1
        if n:
            b = self.ctx.bytes('c%d' % self.n, n)
            self.cells[pos:pos + n] = [b[i] for i in range(n)]

    def scalar(self, t, at):
        if t == 'Void':
            return
        o, w = SCALARS[t]
        if w == 1:
            self.n += 1
            self.cells[at + o] = self.ctx.int('c%d' % self.n, 0, 1)
        else:
            self.put(at + o, w // 8)

    def pointer(self, t, at):
        x = target(self.orig, at)
        if x is None:
            return
        if t in ('Text', 'Data'):
            self.put(x[1], x[3] - (t == 'Text'))
        elif t == 'Pt':
            self.struct(x[1], x[2], x[3])
        elif x[0] == 'c':
            for i in range(x[2]):
                self.struct(x[1] + 8 * (x[3] + x[4]) * i, x[3], x[4])
        elif x[2] == 6:
            for i in range(x[3]):
                self.pointer(t[1:], x[1] + 8 * i)
        else:
            self.put(x[1], (wire.ELEM_BITS[x[2]] * x[3] + 7) // 8)

    def struct(self, pos, d, p):
        self.put(pos, 8 * d)
        for f in self.lay['structs']['Pt']['fields']:
            if 'ptr' in f and f['ptr'] < p:
                t = f['type']
                self.pointer('[Int16' if t == 'List(Int16)' else t, pos + 8 * d + 8 * f['ptr'])


class Checker(object):

    def __init__(self, ctx, p):
        self.ctx = ctx
        self.orig = p.orig
        self.cells = p.cells
        self.lay = p.lay

    def number(self, got, t, bits, what):
        if t == 'Void':
            self.ctx.check(got is None, what)
        elif t in ('Float32', 'Float64'):
            w = WIDTH[t]
            m = (1 << (52 if w == 64 else 23)) - 1
            nan = self.ctx.all(bits & m != 0, (bits >> (52 if w == 64 else 23)) & (2047 if w == 64 else 255) == (2047 if w == 64 else 255))
            self.ctx.check(isinstance(got, float), what + ': a float')
            if nan:
                self.ctx.check(got != got, what + ': not a number')
            else:
                self.ctx.check(self.ctx.same_float(got, bits, w), what)
        elif t == 'Bool':
            self.ctx.check(got == (bits == 1), what)
        elif t.startswith('I'):
            self.ctx.check(got == wire.signed(bits, WIDTH[t]), what)
        else:
            self.ctx.check(got == bits, what)

    def scalar(self, got, t, at, what):
        if t == 'Void':
            return self.number(got, t, 0, what)
        o, w = SCALARS[t]
        self.number(got, t, wire.rd(self.cells, at + o, max(w // 8, 1)), what)

    def pointer(self, got, t, at, what):
        ctx = self.ctx
        x = target(self.orig, at)
        if t in ('Text', 'Data'):
            if x is None:
                ctx.check(got is None or len(got) == 0, what + ': null')
                return
            exp = self.cells[x[1]:x[1] + x[3] - (t == 'Text')]
            ctx.check(isinstance(got, bytes), what + ': type')
            ctx.check(got == ctx.pack(exp), what)
        elif t == 'Pt':
            if x is None:
                self.struct(got, 0, 0, 0, what)
            else:
                self.struct(got, x[1], x[2], x[3], what)
        else:
            n = 0 if x is None else x[2] if x[0] == 'c' else x[3]
            ctx.check(len(got) == n, what + ': length')
            it = t[1:]
            for i in range(n):
                w = '%s[%d]' % (what, i)
                if x[0] == 'c':
                    self.struct(got[i], x[1] + 8 * (x[3] + x[4]) * i, x[3], x[4], w)
                elif x[2] == 6:
                    self.pointer(got[i], it, x[1] + 8 * i, w)
                elif it == 'Bool':
                    self.number(got[i], it, (self.cells[x[1] + i // 8] >> (i % 8)) & 1, w)
                else:
                    s = wire.ELEM_BITS[x[2]] // 8
                    self.number(got[i], it, wire.rd(self.cells, x[1] + s * i, s), w)

    def struct(self, got, pos, d, p, what):
        for f in self.lay['structs']['Pt']['fields']:
            name = f['name']
            w = '%s.%s' % (what, name)
            if 'bit' in f:
                mk.check_value(self.ctx, getattr(got, name), f, mk.bits_of(f, self.cells, pos, d, self.lay['enums']), w)
                continue
            at = pos + 8 * d + 8 * f['ptr']
            null = f['ptr'] >= p or target(self.orig, at) is None
            val = getattr(got, name)
            if null:
                self.ctx.check(val is None, w + ': null')
            else:
                t = f['type']
                self.pointer(val, '[Int16' if t == 'List(Int16)' else t, at, w)


def constants(ctx, schema, which, reflection):
    """the generated module, for arbitrary values of some constants"""
    C = importlib.import_module('capnpy.compiler.compiler')
    A = importlib.import_module('capnpy.annotate')
    at = places(schema)
    p = Patcher(ctx, schema)
    for name in which:
        t = TYPES[name]
        if t in SCALARS or t == 'Void':
            p.scalar(t, at[name][0])
        else:
            p.pointer(t, at[name][1])

    class Compiler(C.DynamicCompiler):
        def _capnp_compile(self, filename):
            self.capnproto_version = '1.0.1'
            return ctx.pack(p.cells)
    comp = Compiler(['/'])
    o = A.Options.from_dict({'include_reflection_data': reflection, 'version_check': False})
    m, src = ctx.generate(comp.generate_py_source, schema + '.capnp', False, o)
    ns = ctx.execute(src, schema, {'__name__': schema, '__file__': '/%s.capnp' % schema,
                                   '__schema__': '/%s.capnp' % schema, '__compiler': None})
    c = Checker(ctx, p)
    for name in sorted(at):
        t = TYPES[name]
        parts = name.split('.')
        got = ns[parts[0]]
        for x in parts[1:]:
            got = getattr(got, x)
        if t in SCALARS or t == 'Void':
            c.scalar(got, t, at[name][0], name)
        else:
            c.pointer(got, t, at[name][1], name)
    ctx.check('_reflection_data' in ns if reflection else '_reflection_data' not in ns, 'reflection data')

"""C22: compilation options"""
import importlib

from harness import wire

FIELDS = ('version_check', 'convert_case', 'text_type', 'include_reflection_data')
# (the xor mask of the default, the value which means not set)
DEF = {'version_check': 2, 'convert_case': 2, 'text_type': 0, 'include_reflection_data': 2}


def annotate():
    return importlib.import_module('capnpy.annotate')


def opts(ctx, name, only=None, force=False):
    """arbitrary options: the object and the values, None for the ones which are not set"""
    vals = {}
    cells = []
    for f in FIELDS:
        if only is not None and f not in only:
            v = DEF[f]
        elif force:
            v = ctx.choice(name + '.' + f, (0, 1, 2))
        else:
            v = ctx.int(name + '.' + f, 0, 2)
        vals[f] = v
        cells += [v ^ DEF[f], 0]
    return cells, vals


def over(ctx, vals, base):
    """base, where vals does not say"""
    return dict((f, ctx.ite(vals[f] == DEF[f], base[f], vals[f])) for f in FIELDS)


def check(ctx, o, vals, what):
    for f in FIELDS:
        ctx.check(getattr(o, f) == vals[f], '%s: %s' % (what, f))


def combine(ctx, off):
    O = annotate().Options
    ca, va = opts(ctx, 'a')
    cb, vb = opts(ctx, 'b')
    ba = ctx.pack([0] * (8 * off) + ca)
    bb = ctx.pack(cb)
    a = O.from_buffer(ba, 8 * off, 1, 0)
    b = O.from_buffer(bb, 0, 1, 0)
    r = a.combine(b)
    check(ctx, r, over(ctx, vb, va), 'combine')
    # the sets which are combined stay as they are
    check(ctx, a, va, 'the general set')
    check(ctx, b, vb, 'the specific set')
    ctx.check(a._seg.buf == ba, 'bytes of the general set')
    ctx.check(b._seg.buf == bb, 'bytes of the specific set')
    # and again
    check(ctx, a.combine(b), over(ctx, vb, va), 'combine again')


def three(ctx, field):
    """combining is associative, with the most specific set last"""
    O = annotate().Options
    v, o = [], []
    for n in 'abc':
        c, x = opts(ctx, n, (field,))
        v.append(x)
        o.append(O.from_buffer(ctx.pack(c), 0, 1, 0))
    exp = over(ctx, v[2], over(ctx, v[1], v[0]))
    check(ctx, o[0].combine(o[1]).combine(o[2]), exp, '(a+b)+c')
    check(ctx, o[0].combine(o[1].combine(o[2])), exp, 'a+(b+c)')
    for i in range(3):
        check(ctx, o[i], v[i], 'unchanged')


def short(ctx, words):
    """options of another version: the ones which are not there are not set"""
    O = annotate().Options
    ca, va = opts(ctx, 'a')
    a = O.from_buffer(ctx.pack(ca), 0, 1, 0)
    b = O.from_buffer(ctx.pack([0] * (8 * words)), 0, words, 0)
    check(ctx, a.combine(b), va, 'nothing is set')
    check(ctx, b.combine(a), va, 'nothing else is set')


def parsed(ctx):
    """options given by name"""
    A = annotate()
    d = {}
    exp = dict(DEF)
    for f in FIELDS:
        if f == 'text_type':
            k = ctx.choice(f, (None, 'bytes', 'unicode'))
            exp[f] = {None: 0, 'bytes': 1, 'unicode': 2}[k]
        else:
            k = ctx.choice(f, (None, False, True))
            exp[f] = {None: 2, False: 0, True: 1}[k]
        if k is not None:
            d[f] = k
    check(ctx, A.Options.from_dict(dict(d)), exp, 'from_dict')
    t = ctx.choice('bad', ('', 'Bytes', 'str', 'notset'))
    for bad in ({'text_type': t}, {'text_types': 'bytes'}, {'': True}):
        try:
            A.Options.from_dict(bad)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, 'wrong options are refused')
    # the truth of an option
    v = ctx.choice('bool', (0, 1, 2))
    try:
        r = bool(A.BoolOption(v))
    except ValueError:
        r = None
    ctx.check(r is {0: False, 1: True, 2: None}[v], 'truth')


# -- the options of the entities of a schema -----------------------------------------
CHAINS = {
    # what encloses an entity, from the file down
    'file': [],
    'Plain': [],
    'Plain.fieldOne': [],
    'Plain.fieldTwo': ['Plain.fieldTwo'],
    'Outer': ['Outer'],
    'Outer.fieldOne': ['Outer'],
    'Outer.fieldTwo': ['Outer', 'Outer.fieldTwo'],
    'Outer.Inner': ['Outer'],
    'Outer.Inner.fieldOne': ['Outer'],
    'Outer.Inner.fieldTwo': ['Outer', 'Outer.Inner.fieldTwo'],
    'Outer.Inner.Deep': ['Outer', 'Outer.Inner.Deep'],
    'Outer.Inner.Deep.fieldOne': ['Outer', 'Outer.Inner.Deep'],
    'Outer.Inner.Deep.fieldTwo': ['Outer', 'Outer.Inner.Deep', 'Outer.Inner.Deep.fieldTwo'],
    'Outer.Other': ['Outer', 'Outer.Other'],
    'Outer.Other.fieldOne': ['Outer', 'Outer.Other'],
    'Outer.Other.fieldTwo': ['Outer', 'Outer.Other', 'Outer.Other.fieldTwo'],
    'Outer.groupOne': ['Outer'],
    'Outer.groupOne.fieldSix': ['Outer'],
    'Outer.groupOne.fieldTen': ['Outer', 'Outer.groupOne.fieldTen'],
}


def request():
    return importlib.import_module('layout_so').REQUEST


def entities(m):
    """name -> entity"""
    out = {}
    for node in m.allnodes.values():
        dn = node.displayName
        if not dn.startswith(b'so.capnp'):
            continue
        if node.is_file():
            out['file'] = node
            continue
        name = dn.split(b':')[1].decode('ascii')
        out[name] = node
        if node.is_struct():
            for f in node.get_struct_fields() or []:
                if f.is_slot():
                    out[name + '.' + f.name.decode('ascii')] = f
    return out


def compiler(ctx, cells):
    """a compiler which gets this message from capnp"""
    C = importlib.import_module('capnpy.compiler.compiler')

    class Compiler(C.DynamicCompiler):
        def _capnp_compile(self, filename):
            self.capnproto_version = '1.0.1'
            return ctx.pack(cells)
    return Compiler(['/'])


_places = {}


def places():
    """where the options of each entity are in the message"""
    if not _places:
        A = annotate()
        S = importlib.import_module('capnpy.schema')
        loads = importlib.import_module('capnpy.message').loads
        G = importlib.import_module('capnpy.compiler.module').ModuleGenerator
        C = importlib.import_module('capnpy.compiler.compiler')
        raw = request()
        req = loads(raw, S.CodeGeneratorRequest)
        head = len(raw) - len(req._seg.buf)
        m = G(req, False, True, C.DEFAULT_OPTIONS, None)
        for name, e in entities(m).items():
            for a in e.annotations or []:
                if a.id == A.options.__capnpy_id__:
                    o = a.value.struct.as_struct(A.Options)
                    _places[name] = head + o._data_offset
        assert len(_places) == 10, _places
    return _places


def patched(ctx, which, only, force=False):
    """the message, with arbitrary options for some entities (and nothing set for the others)"""
    cells = list(request())
    vals = {}
    for name, at in sorted(places().items()):
        if name in which:
            c, vals[name] = opts(ctx, name, only, force)
        else:
            c, vals[name] = opts(ctx, name, ())
        cells[at:at + 8] = c
    return cells, vals


def build(ctx, cells, base):
    """what the compiler makes of it"""
    c = compiler(ctx, cells)
    m, src = c.generate_py_source('so.capnp', False, base)
    return m, src


def precedence(ctx, which, only, base):
    """the nearest annotation which says"""
    A = annotate()
    S = importlib.import_module('capnpy.schema')
    loads = importlib.import_module('capnpy.message').loads
    G = importlib.import_module('capnpy.compiler.module').ModuleGenerator
    C = importlib.import_module('capnpy.compiler.compiler')
    cells, vals = patched(ctx, which, only)
    default = dict(version_check=1, convert_case=1, text_type=1, include_reflection_data=1)
    if base:
        c, v = opts(ctx, 'compiler', only)
        o = A.Options.from_buffer(ctx.pack(c), 0, 1, 0)
        d = C.DEFAULT_OPTIONS.combine(o)
        default = over(ctx, v, default)
    else:
        d = C.DEFAULT_OPTIONS
    buf = ctx.pack(cells)
    req = loads(buf, S.CodeGeneratorRequest)
    m = G(req, False, True, d, None)
    seen = entities(m)
    for name, chain in sorted(CHAINS.items()):
        exp = default
        for a in ['file'] + chain:
            exp = over(ctx, vals[a], exp)
        check(ctx, m.options(seen[name]), exp, name)
        f = seen[name]
        if name.endswith('fieldOne') or name.endswith('fieldSix'):
            # and what the generated code makes of them
            ctx.check(ctx.iff(f.is_text_bytes(m), exp['text_type'] == 1), name + ': bytes')
            ctx.check(ctx.iff(f.is_text_unicode(m), exp['text_type'] == 2), name + ': unicode')
            py = m.py_field_name(f)
            camel = name.split('.')[-1]
            ctx.check(py in (camel, camel[:5] + '_' + camel[5:].lower()), name + ': name')
            ctx.check(ctx.iff(py == camel, exp['convert_case'] == 0), name + ': case')
    check(ctx, C.DEFAULT_OPTIONS, dict(version_check=1, convert_case=1, text_type=1, include_reflection_data=1),
          'the defaults')


def generated(ctx, which, only, base):
    """the generated module (it contains the options: case by case)"""
    A = annotate()
    cells, vals = patched(ctx, which, only, True)
    default = dict(version_check=1, convert_case=1, text_type=1, include_reflection_data=1)
    o = None
    if base:
        c, v = opts(ctx, 'compiler', only, True)
        o = A.Options.from_buffer(ctx.pack(c), 0, 1, 0)
        default = over(ctx, v, default)
    m, src = build(ctx, cells, o)
    exp = {}
    for name, chain in sorted(CHAINS.items()):
        exp[name] = default
        for a in ['file'] + chain:
            exp[name] = over(ctx, vals[a], exp[name])
    checked = []
    U = importlib.import_module('capnpy.util')
    real = U.check_version
    U.check_version = lambda *a: checked.append(a)
    ns = {'__name__': 'so', '__file__': '/so.capnp', '__schema__': '/so.capnp', '__compiler': Imports()}
    try:
        exec(compile(str(src), 'so.py', 'exec'), ns)
    finally:
        U.check_version = real
    f = exp['file']
    ctx.check(ctx.iff(len(checked) > 0, f['version_check'] == 1), 'version check of the module')
    ctx.check(ctx.iff('_reflection_data' in ns, f['include_reflection_data'] == 1), 'reflection data')
    for name in ('Plain.fieldOne', 'Plain.fieldTwo', 'Outer.fieldOne', 'Outer.fieldTwo', 'Outer.Inner.fieldOne',
                 'Outer.Inner.Deep.fieldOne', 'Outer.Other.fieldTwo'):
        cls, fn = name.rsplit('.', 1)
        parts = cls.split('.')
        c = ns[parts[0]]
        for p in parts[1:]:
            c = getattr(c, p)
        snake = fn[:5] + '_' + fn[5:].lower()
        ctx.check(hasattr(c, fn) != hasattr(c, snake), name + ': one name')
        ctx.check(ctx.iff(hasattr(c, snake), exp[name]['convert_case'] == 1), name + ': case')
        k = 0 if fn == 'fieldOne' else 1
        obj = c.from_buffer(text_message(k), 0, 0, 2)
        got = getattr(obj, fn if hasattr(c, fn) else snake)
        ctx.check(ctx.iff(type(got) is bytes, exp[name]['text_type'] == 1), name + ': bytes')
        ctx.check(ctx.iff(type(got) is not bytes, exp[name]['text_type'] == 2), name + ': unicode')


def text_message(k):
    """two pointers, the k-th is a text"""
    w = [0, 0, 0x6261]
    w[k] = wire.mk_list(1 - k, 2, 3)
    return bytes(bytearray([c for x in w for c in wire.word(x)]))


class Imports(object):
    def load_schema(self, **kw):
        return annotate()

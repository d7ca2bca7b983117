"""C28: reflection: nodes, annotations and names of the entities of a schema"""
import importlib

from harness import wire

ANNS = {'aText': 'Text', 'aInt': 'Int32', 'aBig': 'UInt64', 'aSmall': 'Int8', 'aBool': 'Bool', 'aFloat': 'Float64',
        'aVoid': 'Void', 'aData': 'Data', 'aEnum': 'Enum', 'aNone': 'Int64'}
# the annotations of every entity, in the order of the schema
ENTITIES = {
    'file': ['aText'], 'Color': ['aInt'], 'Color.red': ['aText'], 'Color.green': [], 'Color.darkBlue': ['aData', 'aBool'],
    'Outer': ['aText', 'aBig', 'aFloat'], 'Outer.one': ['aSmall', 'aText'], 'Outer.two': [], 'Outer.three': ['aEnum', 'aVoid'],
    'Outer.grp': ['aBool'], 'Outer.grp.four': ['aInt'], 'Outer.grp.five': [], 'Outer.six': ['aFloat'],
    'Outer.seven': ['aText'], 'Outer.Inner': ['aInt'], 'Outer.Inner.eight': ['aInt', 'aInt'], 'Outer.nine': ['aText'],
    'Plain': [], 'Plain.ten': [],
}
SCALARS = {'Bool': (2, 1), 'Int8': (2, 8), 'Enum': (2, 16), 'Int32': (4, 32), 'UInt64': (8, 64), 'Float64': (8, 64)}


def raw():
    return importlib.import_module('layout_sr').REQUEST


def entities(allnodes):
    """name -> entity"""
    out = {}
    for node in allnodes.values():
        dn = node.displayName
        if not dn.startswith(b'sr.capnp'):
            continue
        if node.is_file():
            out['file'] = node
            continue
        name = dn.split(b':')[1].decode('ascii')
        if name not in out:
            out[name] = node
        if node.is_struct():
            for f in node.get_struct_fields() or []:
                out[name + '.' + f.name.decode('ascii')] = f
        elif node.is_enum():
            for e in node.get_enum_enumerants() or []:
                out[name + '.' + e.name.decode('ascii')] = e
    return out


_places = {}


def places():
    """entity -> [(position of the annotation, of its value, of the pointer of the value)]"""
    if not _places:
        S = importlib.import_module('capnpy.schema')
        loads = importlib.import_module('capnpy.message').loads
        req = loads(raw(), S.CodeGeneratorRequest)
        head = len(raw()) - len(req._seg.buf)
        nodes = {}
        for n in req.nodes:
            nodes[n.id] = n
        for name, e in entities(nodes).items():
            if name in ENTITIES:
                _places[name] = [(head + a._data_offset, head + a.value._data_offset, head + a.value._ptrs_offset)
                                 for a in e.annotations or []]
    return _places


def load_ids():
    """the ids of the annotations: name -> id, from the message"""
    S = importlib.import_module('capnpy.schema')
    req = importlib.import_module('capnpy.message').loads(raw(), S.CodeGeneratorRequest)
    return dict((n.displayName.split(b':')[1].decode('ascii'), n.id) for n in req.nodes if n.is_annotation())


class Holder(object):
    pass


def text_at(cells, at):
    """the bytes of a list of bytes"""
    w = sum(c << (8 * i) for i, c in enumerate(raw()[at:at + 8]))
    if w == 0:
        return None, 0
    return at + 8 + 8 * wire.off(w), wire.field(w, 35, 29)


def module(ctx, cells):
    """the generated module"""
    C = importlib.import_module('capnpy.compiler.compiler')
    A = importlib.import_module('capnpy.annotate')

    class Compiler(C.DynamicCompiler):
        def _capnp_compile(self, filename):
            self.capnproto_version = '1.0.1'
            return ctx.pack(cells)
    o = A.Options.from_dict({'version_check': False})
    m, src = ctx.generate(Compiler(['/']).generate_py_source, 'sr.capnp', False, o)
    ns = ctx.execute(src, 'sr', {'__name__': 'sr', '__file__': '/sr.capnp', '__schema__': '/sr.capnp', '__compiler': None})
    mod = Holder()
    mod.__dict__.update(ns)
    return mod


def value(ctx, got, t, cells, place, what):
    at, val, ptr = place
    if t == 'Void':
        ctx.check(got is None, what)
    elif t in ('Text', 'Data'):
        pos, n = text_at(cells, ptr)
        if pos is None:
            ctx.check(got is None or len(got) == 0, what)
        else:
            ctx.check(got == ctx.pack(cells[pos:pos + n - (t == 'Text')]), what)
    else:
        o, w = SCALARS[t]
        bits = wire.rd(cells, val + o, max(w // 8, 1))
        if t == 'Float64':
            nan = ctx.all(bits & (2 ** 52 - 1) != 0, (bits >> 52) & 2047 == 2047)
            if nan:
                ctx.check(got != got, what)
            else:
                ctx.check(ctx.same_float(got, bits, 64), what)
        elif t == 'Bool':
            ctx.check(got == (bits == 1), what)
        elif t.startswith('I'):
            ctx.check(got == wire.signed(bits, w), what)
        else:
            ctx.check(got == bits, what)


def patch_value(ctx, cells, t, place, name):
    at, val, ptr = place
    if t in ('Text', 'Data'):
        pos, n = text_at(cells, ptr)
        n -= t == 'Text'
        if pos is not None and n:
            b = ctx.bytes(name, n)
            cells[pos:pos + n] = [b[i] for i in range(n)]
    elif t == 'Bool':
        cells[val + 2] = ctx.int(name, 0, 1)
    elif t != 'Void':
        o, w = SCALARS[t]
        b = ctx.bytes(name, w // 8)
        cells[val + o:val + o + w // 8] = [b[i] for i in range(w // 8)]


def python_entity(mod, name):
    """the Python object of an entity, if there is one"""
    if name == 'file':
        return mod
    o = mod
    for p in name.split('.'):
        if p == 'grp':
            return None
        if not hasattr(o, p):
            return None
        o = getattr(o, p)
    return o if hasattr(o, '__capnpy_id__') and name in ('Color', 'Outer', 'Outer.Inner', 'Plain') else None


def compare(ctx, r, mod, e, py, name, cells, ids, entries):
    """entries: [(id, type, place)]"""
    for ann in sorted(ANNS):
        cls = getattr(mod, ann)
        ctx.check(cls.__capnpy_id__ == ids[ann], 'id of ' + ann)
        what = '%s of %s' % (ann, name)
        here = [x for x in entries if ctx.all(x[0] == ids[ann])]
        for obj in (e,) if py is None else (e, py):
            ctx.check(r.has_annotation(obj, cls) == (len(here) > 0), 'has ' + what)
            try:
                got = r.get_annotation(obj, cls)
            except KeyError:
                ctx.check(not here, 'get ' + what)
            else:
                ctx.check(len(here) > 0, 'get %s: it has none' % what)
                if here:
                    value(ctx, got, here[0][1], cells, here[0][2], what)


def annotations(ctx, which, ids_too):
    """arbitrary values, or ids (of the ones with these indices), of the annotations of some entities"""
    cells = list(bytearray(raw()))
    at = places()
    ids = load_ids()
    A = importlib.import_module('capnpy.annotate')
    special = [getattr(A, n).__capnpy_id__ for n in ('options', 'key', 'group', 'nullable')]
    entries = {}
    for name in sorted(ENTITIES):
        entries[name] = []
        assert len(at[name]) == len(ENTITIES[name]), name
        for i, (place, ann) in enumerate(zip(at[name], ENTITIES[name])):
            v = ids[ann]
            if name in which:
                if ids_too:
                    if i not in ids_too:
                        entries[name].append((v, ANNS[ann], place))
                        continue
                    b = ctx.bytes('%s.id%d' % (name, i), 8)
                    cells[place[0]:place[0] + 8] = [b[j] for j in range(8)]
                    v = wire.rd(cells, place[0], 8)
                    for x in special:
                        ctx.assume(v != x)
                else:
                    patch_value(ctx, cells, ANNS[ann], place, '%s.v%d' % (name, i))
            entries[name].append((v, ANNS[ann], place))
    mod = module(ctx, cells)
    r = importlib.import_module('capnpy.reflection').get_reflection_data(mod)
    seen = entities(r.allnodes)
    for name in sorted(ENTITIES):
        if ids_too and name not in which and name not in ('file', 'Plain', 'Outer', 'Outer.two'):
            continue
        compare(ctx, r, mod, seen[name], python_entity(mod, name), name, cells, ids, entries[name])
    # and once more: asking does not change anything
    for name in which:
        compare(ctx, r, mod, seen[name], python_entity(mod, name), name, cells, ids, entries[name])


def nodes(ctx):
    """the node of every id and of every Python entity"""
    cells = list(bytearray(raw()))
    mod = module(ctx, cells)
    r = importlib.import_module('capnpy.reflection').get_reflection_data(mod)
    q = ctx.int('id', 0, 2 ** 64 - 1)
    known = sorted(r.allnodes)
    ctx.check(len(known) == len(r.request.nodes), 'all the nodes')
    try:
        n = r.get_node(q)
    except KeyError:
        ctx.check(ctx.all(*[q != k for k in known]), 'every node has its id')
        ctx.reach('unknown')
    else:
        ctx.check(n.id == q, 'the node of an id')
        ctx.reach('node')
    for name in ('file', 'Color', 'Outer', 'Outer.Inner', 'Plain'):
        o = python_entity(mod, name)
        n = r.get_node(o)
        ctx.check(n.id == o.__capnpy_id__, 'node of ' + name)
        exp = b'sr.capnp' + (b'' if name == 'file' else b':' + name.encode('ascii'))
        ctx.check(n.displayName == exp, 'name of the node of ' + name)


def names(ctx):
    """the Python name of fields and enumerants is the one of the generated code"""
    A = importlib.import_module('capnpy.annotate')
    cells = list(bytearray(raw()))
    mod = module(ctx, cells)
    r = importlib.import_module('capnpy.reflection').get_reflection_data(mod)
    k = ctx.choice('node', ('Outer', 'Outer.Inner', 'Plain', 'Color'))
    cls = python_entity(mod, k)
    node = r.get_node(cls)
    fs = node.get_enum_enumerants() if k == 'Color' else node.get_struct_fields()
    for f in fs:
        n = r.field_name(f)
        ctx.check(hasattr(cls, n), 'the generated class has %s' % n)
        ctx.check(n == ''.join('_' + c.lower() if 'A' <= c <= 'Z' else c for c in f.name.decode('ascii')), 'name')


def missing(ctx, cls):
    """modules without reflection data"""
    R = importlib.import_module('capnpy.reflection')
    try:
        R.get_reflection_data(Holder())
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, 'no reflection data: ValueError')

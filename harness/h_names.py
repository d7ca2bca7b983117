"""C25: names"""
import importlib
import keyword
import types

from harness import wire

LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER = LOWER.upper()
NAMES = ('k', 'qx', 'qxz', 'qxzk', 'qxzkj', 'qxzkjv', 'qxzkjvw')


def truth(x):
    return True if x else False


def snake(ctx, c):
    """the characters of the name, as they have to be converted (c: their codes, one case split for each)"""
    def upper(i):
        return 0 <= i < len(c) and truth(ctx.all(c[i] >= 65, c[i] <= 90))

    def lower(i):
        return 0 <= i < len(c) and truth(ctx.all(c[i] >= 97, c[i] <= 122))

    def digit(i):
        return 0 <= i < len(c) and truth(ctx.all(c[i] >= 48, c[i] <= 57))

    out = []
    for i in range(len(c)):
        if upper(i):
            if i > 0 and (lower(i - 1) or digit(i - 1) or lower(i + 1)):
                out.append(95)
            out.append(c[i] + 32)
        else:
            out.append(c[i])
    return out


def letters(ctx, n, first_lower):
    cs = []
    for i in range(n):
        c = ctx.int('c%d' % i, 48, 122)
        low = ctx.all(c >= 97, c <= 122)
        up = ctx.all(c >= 65, c <= 90)
        if i == 0 and first_lower:
            ctx.assume(low)
        elif i == 0:
            ctx.assume(ctx.any(low, up))
        else:
            ctx.assume(ctx.any(low, up, ctx.all(c >= 48, c <= 57)))
        cs.append(c)
    return cs


def same_text(ctx, s, cs, what):
    ctx.check(len(s) == len(cs), what + ': length')
    ctx.check(ctx.all(*[ord(s[i]) == cs[i] for i in range(len(cs))]), what)


def convert(ctx, n):
    f = importlib.import_module('capnpy.convert_case').from_camel_case
    cs = letters(ctx, n, False)
    s = ctx.pack(cs).decode('ascii')
    r = f(s)
    same_text(ctx, r, snake(ctx, cs), 'converted name')
    # nothing is lost: without the underscores, it is the name in lower case
    same_text(ctx, r.replace('_', ''), [ctx.ite(ctx.all(c >= 65, c <= 90), c + 32, c) for c in cs], 'characters')
    ctx.check(f(r) == r, 'a converted name stays as it is')


# -- the names of the fields of a schema --------------------------------------------------
def request():
    return importlib.import_module('layout_si').REQUEST


def load(ctx, cells):
    S = importlib.import_module('capnpy.schema')
    return importlib.import_module('capnpy.message').loads(ctx.pack(cells), S.CodeGeneratorRequest)


def compiler(ctx, cells):
    C = importlib.import_module('capnpy.compiler.compiler')

    class Compiler(C.DynamicCompiler):
        def _capnp_compile(self, filename):
            self.capnproto_version = '1.0.1'
            return ctx.pack(cells)
    return Compiler(['/'])


def field(ctx, n):
    """the Python name of a field with any name"""
    G = importlib.import_module('capnpy.compiler.module').ModuleGenerator
    C = importlib.import_module('capnpy.compiler.compiler')
    raw = request()
    old = NAMES[n - 1].encode('ascii')
    at = raw.find(b'\0' + old + b'\0') + 1
    assert at > 0
    cs = letters(ctx, n, True)
    cells = list(raw)
    cells[at:at + n] = cs
    convert = ctx.choice('convert_case', (True, False))
    A = importlib.import_module('capnpy.annotate')
    opts = C.DEFAULT_OPTIONS.combine(A.Options.from_dict({'convert_case': convert}))
    m = G(load(ctx, cells), False, True, opts, None)
    for node in m.allnodes.values():
        if node.displayName == b'si.capnp:N':
            break
    f = [f for f in node.get_struct_fields() if f.is_slot() and len(f.name) == n][0]
    got = m.py_field_name(f)
    exp = snake(ctx, cs) if convert else list(cs)
    words = [k for k in keyword.kwlist if len(k) == len(exp)]
    reserved = ctx.any(False, *[ctx.all(*[ord(k[i]) == exp[i] for i in range(len(k))]) for k in words])
    if truth(reserved):
        exp = exp + [95]
    same_text(ctx, got, exp, 'name of the field')


def execute(ctx, cells, imports):
    c = compiler(ctx, cells)
    m, src = c.generate_py_source('si.capnp', False, None)
    ns = {'__name__': 'si', '__file__': '/si.capnp', '__schema__': '/si.capnp', '__compiler': imports}
    exec(compile(str(src), 'si.py', 'exec'), ns)
    return ns


WORDS = ('class', 'while', 'print', 'abcde', 'abCde', 'aBCDe', 'aBcDe', 'abcDE', 'ab1Cd', 'a1b2C', 'aB1C2', 'raise', 'yielD')


def generated(ctx):
    """the accessors of a struct have these names"""
    name = ctx.choice('name', WORDS)
    P0 = importlib.import_module('si').P0
    raw = request().replace(b'\0qxzkj\0', b'\0' + name.encode('ascii') + b'\0')
    ns = execute(ctx, list(raw), Loader(dict(('/import%d.capnp' % i, P0) for i in (1, 2, 3))))
    v = ctx.int('v', -128, 127)
    cells = [0] * 8
    cells[4] = v & 0xff
    o = ns['N'].from_buffer(ctx.pack(cells), 0, 1, 0)
    exp = ''.join(chr(x) for x in snake(ctx, [ord(c) for c in name]))
    if exp in keyword.kwlist:
        exp += '_'
    ctx.check(hasattr(ns['N'], exp), 'the field has this name')
    ctx.check(getattr(o, exp) == v, 'value')
    for other in ('k', 'qx', 'qxz', 'qxzk', 'qxzkjv', 'qxzkjvw'):
        ctx.check(getattr(o, other) == 0, 'the other fields')
    ctx.check(name == exp or not hasattr(ns['N'], name), 'no other name')


# -- imported files -----------------------------------------------------------------------
FILES = ('import1.capnp', 'x/name1.capnp', 'y/name1.capnp', 'xy/a+b1.capnp', 'aPLUSb1.capnp', 'xy/a-b1.capnp', 'xy/a_b1.capnp',
         'xy/a.b1.capnp', 'x/1name.capnp')


class Loader(object):
    """what the generated module imports the other ones with"""
    def __init__(self, classes):
        self.classes = classes
        self.loaded = []

    def load_schema(self, importname, **kw):
        self.loaded.append(importname)
        m = types.ModuleType('imported')
        m.P = self.classes[importname]
        return m


def imports(ctx, first):
    """the fields have the types of the right file"""
    si = importlib.import_module('si')
    a = FILES[first]
    rest = [f for f in FILES if f != a]
    b = ctx.choice('second', rest)
    rest = [f for f in rest if f != b]
    c = ctx.choice('third', rest)
    raw = request()
    tmp = ['IMPORT_%d_____' % i for i in range(3)]
    for i in range(3):
        raw = raw.replace(b'import%d.capnp' % (i + 1), tmp[i].encode('ascii'))
    for i, f in enumerate((a, b, c)):
        raw = raw.replace(tmp[i].encode('ascii'), f.encode('ascii'))
    classes = {'/' + a: si.P0, '/' + b: si.P1, '/' + c: si.P2}
    loader = Loader(classes)
    ns = execute(ctx, list(raw), loader)
    ctx.check(sorted(set(loader.loaded)) == sorted(classes), 'every file is imported')
    cells = [0] * (8 * 4)
    v = []
    for i in range(3):
        cells[8 * i:8 * i + 8] = wire.word(wire.mk_struct(3, 1, 0))
        x = ctx.int('x%d' % i, 0, 255)
        v.append(x)
        cells += [x] + [0] * 7
    o = ns['Q'].from_buffer(ctx.pack(cells), 0, 0, 4)
    ctx.check(type(o.a) is si.P0, 'type from the first file')
    ctx.check(type(o.b) is si.P1, 'type from the second file')
    ctx.check(type(o.c) is si.P2, 'type from the third file')
    ctx.check(ctx.all(o.a.x == v[0], o.b.x == v[1], o.c.x == v[2]), 'values')


def register(ctx, shapes):
    """the names of files with arbitrary characters in their base name"""
    G = importlib.import_module('capnpy.compiler.module').ModuleGenerator
    C = importlib.import_module('capnpy.compiler.compiler')
    m = G(load(ctx, list(request())), False, False, C.DEFAULT_OPTIONS, None)
    if not hasattr(m, 'register_import'):
        ctx.check(True, 'no such interface')
        return
    files = []
    for k, (d, n) in enumerate(shapes):
        cs = []
        for i in range(n):
            c = ctx.int('f%d.%d' % (k, i), 33, 126)
            ctx.assume(ctx.not_(ctx.any(c == 47, c == 46)))
            cs.append(c)
        files.append(d + ctx.pack(cs).decode('ascii') + '.capnp')
    for i in range(len(files)):
        for j in range(i):
            ctx.assume(ctx.not_(files[i] == files[j]))
    names = [m.register_import(f) for f in files]
    for i, n in enumerate(names):
        ctx.check(m.importnames[files[i]] == n, 'the name of the file')
        for ch in n:
            c = ord(ch)
            ctx.check(ctx.any(c == 95, ctx.all(c >= 48, c <= 57), ctx.all(c >= 65, c <= 90), ctx.all(c >= 97, c <= 122)),
                      'the name is an identifier')
        ctx.check(n[0] == '_', 'the name is an identifier (and not the one of a struct)')
        for j in range(i):
            ctx.check(ctx.not_(n == names[j]), 'different files have different names')

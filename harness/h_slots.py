"""C17, C18: tags of unions and pointers at arbitrary positions (the message which capnp gives to the compiler is symbolic there)"""
import importlib

from harness import wire, mk
from harness.h_defaults import Imports, at

_fields = {}
_nodes = {}


def lay():
    return importlib.import_module('layout_sy').LAYOUT


def places():
    """positions of the data sections of schema.capnp's Node and Field, by name"""
    if not _nodes:
        S = importlib.import_module('capnpy.schema')
        loads = importlib.import_module('capnpy.message').loads
        raw = importlib.import_module('layout_sy').REQUEST
        req = loads(raw, S.CodeGeneratorRequest)
        head = len(raw) - len(req._seg.buf)
        for node in req.nodes:
            dn = node.displayName
            if dn.startswith(b'sy.capnp:') and node.which() == S.Node.__tag__.struct:
                n = dn.split(b':')[1].decode('ascii')
                _nodes[n] = head + node._data_offset
                for f in node.struct.fields:
                    _fields[n + '.' + f.name.decode('ascii')] = head + f._data_offset


def module(ctx, slots=(), tags=(), words=None, ptrs=None):
    """slots, tags: (name, position)"""
    places()
    C = importlib.import_module('capnpy.compiler.compiler')
    cells = list(bytearray(importlib.import_module('layout_sy').REQUEST))
    for name, k in slots:
        p = _fields[name] + 4
        cells[p:p + 4] = [k & 255, (k >> 8) & 255, 0, 0]
    for name, k in tags:
        # discriminantOffset
        p = _nodes[name] + 32
        cells[p:p + 4] = [k & 255, (k >> 8) & 255, 0, 0]
    for n in ('T', 'T.u'):
        # dataWordCount, pointerCount
        if words is not None:
            cells[_nodes[n] + 14] = words
        if ptrs is not None:
            cells[_nodes[n] + 24] = ptrs

    class Compiler(C.DynamicCompiler):
        def _capnp_compile(self, filename):
            self.capnproto_version = '1.0.1'
            return ctx.pack(cells)
    m, src = ctx.generate(Compiler(['/']).generate_py_source, 'sy.capnp', False, None)
    return ctx.execute(src, 'sy', {'__name__': 'sy', '__file__': '/sy.capnp', '__schema__': '/sy.capnp',
                                   '__compiler': Imports()})


MEMBERS = {'T': ['a', 'b', 'c'], 'T.u': ['p', 'q', 'r']}


def tag_read(ctx, node, lo, hi, d):
    """a tag at an arbitrary position, read from a section of d words"""
    k = ctx.int('position of the tag', lo, hi)
    ns = module(ctx, tags=[(node, k)])
    m = mk.Msg(ctx)
    m.garbage(1, 'before')
    pos = m.garbage(d, 'data')
    m.garbage(1, 'after')
    o = ns['T'].from_buffer(m.bytes(), pos, d, 0)
    tag = at(ctx, k, [wire.rd(m.cells, pos + 2 * i, 2) for i in range(4 * d)], 0)
    if node == 'T.u':
        o = o.u
    ctx.check(o.__which__() == tag, 'tag')
    for i, n in enumerate(MEMBERS[node]):
        ctx.check(ctx.iff(getattr(o, 'is_' + n)(), tag == i), 'is_' + n)
        if n in ('b', 'q', 'c'):
            try:
                getattr(o, n)
                ok = True
            except ValueError:
                ok = False
            ctx.check(ctx.iff(ok, tag == i), n + ' can be read exactly when it is current')


def tag_write(ctx, member, extra):
    """constructing with a tag at an arbitrary position of the last words"""
    node = 'T.u' if member in 'pqr' else 'T'
    d = lay()['structs']['T']['data']
    k = ctx.int('position of the tag', 4 * d, 4 * (d + extra) - 1)
    ns = module(ctx, tags=[(node, k)], words=d + extra)
    T = ns['T']
    kw = {'b': dict(b=0), 'c': dict(c=0), 'a': dict(a=None)}.get(member, dict(a=None))
    if node == 'T.u':
        kw['u'] = T.U(**{member: {'p': None, 'q': 0, 'r': None}[member]})
    o = T(**kw)
    buf = o._seg.buf
    pos = o._data_offset
    i = MEMBERS[node].index(member)
    for j in range(4 * d, 4 * (d + extra)):
        u = buf[pos + 2 * j] | (buf[pos + 2 * j + 1] << 8)
        ctx.check(u == ctx.ite(k == j, i, 0), 'the tag is where it belongs, and nothing else')
    if node == 'T.u':
        o = o.u
    ctx.check(getattr(o, 'is_' + member)(), 'is_' + member)


def other_text(ctx, m, at_, name):
    c = ctx.bytes(name, 2)
    m.put_list(at_, m.add([c[0], c[1], 0]), 2, 3)
    return [c[0], c[1]]


def ptr_read(ctx, name, p, hi, null=None):
    """a pointer field at an arbitrary position"""
    k = ctx.int('position of the pointer', 0, hi)
    ns = module(ctx, slots=[('T.' + name, k)])
    m = mk.Msg(ctx)
    pos = m.garbage(1, 'data')
    m.zeros(p)
    # (followed by what must not be taken for a pointer)
    m.garbage(1, 'after')
    vals = []
    for i in range(p):
        if i == null:
            vals.append(None)
            continue
        w = pos + 8 + 8 * i
        if name in ('txt', 'uni'):
            c = [ctx.int('c%d' % i, 1, 127)]
            m.put_list(w, m.add(c + [0]), 2, 2)
        elif name == 'd':
            b = ctx.bytes('c%d' % i, 2)
            c = [b[0], b[1]]
            m.put_list(w, m.add(c), 2, 2)
        elif name == 'l':
            b = ctx.bytes('c%d' % i, 2)
            c = [b[0], b[1]]
            m.put_list(w, m.add(c), 3, 1)
        else:
            t = m.garbage(1, 'c%d' % i)
            c = m.cells[t:t + 8]
            m.put_struct(w, t, 1, 0)
        vals.append(c)
    o = ns['T'].from_buffer(m.bytes(), pos, 1, p)
    # (the position is decided now)
    there = None
    for i in range(p):
        if k == i:
            there = vals[i]
    has = getattr(o, 'has_' + name)()
    ctx.check(has == (there is not None), 'has_' + name)
    v = getattr(o, name)
    if there is None:
        ctx.check(v is None, name + ' is null')
        g = getattr(o, 'get_' + name)()
        ctx.check(g.n == 0 if name == 's' else len(g) == 0, 'get_%s is the default' % name)
    elif name in ('txt', 'd'):
        ctx.check(len(v) == len(there) and v == ctx.pack(there), name)
    elif name == 'uni':
        ctx.check(len(v) == 1 and ord(v[0]) == there[0], name)
    elif name == 'l':
        ctx.check(len(v) == 1 and v[0] == wire.signed(there[0] | (there[1] << 8), 16), name)
    else:
        ctx.check(v.n == wire.signed(wire.rd(there, 0, 8), 64), name)


def ptr_write(ctx, name, extra):
    """constructing with a pointer at an arbitrary position of the last ones"""
    s = lay()['structs']['T']
    P = s['ptrs']
    k = ctx.int('position of the pointer', P, P + extra - 1)
    ns = module(ctx, slots=[('T.' + name, k)], ptrs=P + extra)
    c = ctx.bytes('c', 2)
    if name == 'txt':
        v, want = c, [c[0], c[1], 0]
    elif name == 'd':
        v, want = c, [c[0], c[1]]
    elif name == 'l':
        x = ctx.int('item', -32768, 32767)
        v, want = [x], [x & 255, (x >> 8) & 255]
    else:
        x = ctx.int('n', -2 ** 63, 2 ** 63 - 1)
        v, want = ns['X'](n=x), [((x & (2 ** 64 - 1)) >> (8 * i)) & 255 for i in range(8)]
    o = ns['T'](**{'a': None, name: v})
    buf = o._seg.buf
    cells = [buf[i] for i in range(len(buf))]
    base = o._data_offset + 8 * s['data']
    for i in range(P + extra):
        w = cells[base + 8 * i:base + 8 * i + 8]
        if k == i:
            w = wire.rd(w, 0, 8)
            target = base + 8 * i + 8 + 8 * ctx.force(wire.signed((w >> 2) & 0x3fffffff, 30))
            ctx.check(w & 3 == (0 if name == 's' else 1), 'kind of the pointer')
            ctx.check(target == base + 8 * (P + extra), 'target')
            ctx.check(ctx.all(*[cells[target + j] == x for j, x in enumerate(want)]), 'contents')
        else:
            ctx.check(ctx.all(*[b == 0 for b in w]), 'other pointers are null')

from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('constructors of structs with every field type at many positions, with and without defaults, each field alone '
          'and all together, every value of the numeric, boolean and enum fields; text, data and lists of 0..3 elements '
          'with arbitrary contents; struct fields and struct lists with arbitrary values; groups; a struct with fields of every numeric type, in groups, '
          'unions and nullable groups, with arbitrary defaults and at arbitrary positions of 3 words (1 for Bool in the quick tier) (symbolic in the message which capnp gives to the compiler); '
          'pointer fields at arbitrary positions; Bool fields which are given any number of 17 bits')
OUTSIDE = 'longer contents; schemas outside the family'
ASSUMPTIONS = ['the Cap\'n Proto compiler assigns positions as it prints them (capnp compile -ocapnp)',
               'values in the range of their field (out-of-range values are another matter)']
SCHEMAS = schema('sx', 'sn', 'sq', 'sy', 'su')
PRELOAD = ['sx', 'layout_sx', 'sn', 'layout_sn', 'layout_sq', 'layout_sy', 'su', 'layout_su']
DATA = ('i8 u8 b0 b1 i16 u16 i32 u32 i64 u64 f32 f64 e e2 i8d u16d u32d i64d b2 b3 b4 b5 b6 b7 b8 b9').split()
PTRS = 't d l s tu lt ls'.split()


def tasks(tier):
    out = []

    def add(struct, fields, size=2, schema='sx', **kw):
        out.append(dict(func='ctor', params=dict(schema=schema, struct=struct, fields=fields, size=size, **kw)))
    for f in DATA:
        add('Rec', [f])
    add('Rec', [])
    add('Rec', DATA)
    for i in range(0, len(DATA) - 1, 1 if tier != 'quick' else 3):
        add('Rec', [DATA[i], DATA[i + 1]])
    for f in PTRS:
        for size in (0, 1, 2, 3) if tier == 'quick' else range(9 if f != 'tu' else 5):
            add('Rec', [f], size)
    add('Rec', ['t', 'd', 'l', 's', 'lt', 'ls', 'g.y'], 1)
    add('Rec', ['t', 'd', 'l', 's', 'lt', 'ls', 'g.y'], 2)
    for f in (['g.x'], ['g.y'], ['g.z'], ['g.x', 'g.z'], ['g.x', 'g.y', 'g.z']):
        for how in ('tuple', 'func'):
            add('Rec', f, 2, how=how)
    for f in 'abcd':
        add('Fl', [f])
    add('Fl', None)
    add('Leaf', None)
    add('Names', None, schema='sn')
    for f in ('pos', 'builder', 'buf', 'obj', 'value', 'p', 't', 'res'):
        add('Names', [f], schema='sn')
    add('Clash', None, schema='sn')
    add('Clash', ['fo.ba', 'fo.k'], schema='sn')
    add('Clash', ['foBa'], schema='sn')
    add('Clash', ['fob.a', 'fob.z'], schema='sn')
    add('Vg', ['x', 'h.y'], schema='sn')
    add('Vg', [], schema='sn')
    def dflt(func, **kw):
        out.append(dict(module='h_defaults', func=func, params=kw))
    for f in 'b0 b1 i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 e g.gi g.gb'.split():
        dflt('ctor', which=[f], given=[f])
        if tier != 'quick' or f[0] == 'f':
            dflt('ctor', which=[f], given=[])
    for f in ('b0', 'b1', 'g.gb'):
        dflt('truthy', which=[f], name=f)
    dflt('ctor', which=['i16', 'u32', 'e'], given=['u32'])
    dflt('ctor', which=['g.gi', 'g.gb', 'b0'], given=['g.gi'])
    dflt('ctor', which=['g.gi', 'g.gb'], given=[])
    for g in ([], ['n.isNull'], ['n.value']):
        dflt('ctor', which=['n.isNull', 'n.value'], given=g)
    for f in ('ui', 'ub', 'ue'):
        dflt('ctor', which=[f], given=[f])
    for w in (['i8', 'u64', 'b0'], ['i64', 'u16'], ['i32', 'e'], ['u8', 'i16', 'u32', 'b1']):
        dflt('explicit', which=w)
    for f in 'b0 i8 u8 i16 u16 i32 u32 i64 u64 f32 f64 e g.gi g.gb'.split():
        b = f in ('b0', 'g.gb')
        dflt('write_slot', name=f, with_default=f[0] in 'uie', extra=1 if b and tier == 'quick' else 3)
    for n in ('txt', 'd', 'l', 's'):
        out.append(dict(module='h_slots', func='ptr_write', params=dict(name=n, extra=3)))
    for st, names in (('Nu', 'i b f e u'.split()), ('Nd', 'a b c'.split())):
        for given, none in ((names, []), ([], names), ([], [])):
            out.append(dict(module='h_union', func='null_build', params=dict(struct=st, given=given, none=none)))
    return module(out, 'h_ctor')

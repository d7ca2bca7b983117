from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('a struct with every primitive type, defaults, enums, groups, text, data, lists and structs; every pair of actual '
          'section sizes from (0, 0) to two words more than the schema; arbitrary contents of the struct and of the '
          'words around it; pointed-to structs of 0..3 data words; a struct with fields of every numeric type, in groups, unions '
          'and nullable groups, with arbitrary defaults and at arbitrary positions of the first 3 words (the message which capnp gives to the compiler is symbolic there)')
OUTSIDE = 'schemas with more fields than the one checked'
ASSUMPTIONS = ['the Cap\'n Proto compiler assigns positions as it prints them (capnp compile -ocapnp)']
SCHEMAS = schema('sx', 'sq')
PRELOAD = ['sx', 'layout_sx', 'layout_sq']
DEFS = [['b0', 'b1'], ['i8', 'u16'], ['i16', 'u8'], ['i32'], ['i64'], ['u32'], ['u64'], ['f32'], ['f64'], ['e'],
        ['g.gi', 'g.gb'], ['n.isNull', 'n.value'], ['ui'], ['ub'], ['ue']]
PTRS = ['t', 'd', 'l', 's', 'g.y', 'tu', 'lt', 'ls']

SLOTS = 'b0 i8 u8 i16 u16 i32 u32 i64 u64 f32 f64 e g.gi g.gb'.split()


def tasks(tier):
    out = []
    for d in range(0, 11):
        for p in (0, 3, 8) if tier == 'quick' else range(0, 11):
            out.append(dict(func='data', params=dict(schema='sx', struct='Rec', d=d, p=p)))
    for f in PTRS:
        for p in range(0, 11) if tier != 'quick' else (0, 1, 2, 3, 4, 5, 6, 7, 8, 10):
            for d in (0, 3, 8, 10):
                if tier == 'quick' and d in (0, 10) and p in (2, 4, 6):
                    continue
                out.append(dict(func='pointer', params=dict(schema='sx', struct='Rec', field=f, d=d, p=p, size=1)))
    for size in range(4):
        out.append(dict(func='pointer', params=dict(schema='sx', struct='Rec', field='s', d=8, p=8, size=size)))
    for d in range(0, 5):
        for p in range(0, 2):
            out.append(dict(func='data', params=dict(schema='sx', struct='Fl', d=d, p=p)))
            out.append(dict(func='data', params=dict(schema='sx', struct='Leaf', d=d, p=p)))
    for w in DEFS:
        for d in (0, 2, 8) if tier == 'quick' else range(0, 10):
            out.append(dict(module='h_defaults', func='read', params=dict(which=w, d=d)))
    for f in SLOTS:
        for d in (0, 1, 3) if tier == 'quick' else range(5):
            out.append(dict(module='h_defaults', func='read_slot', params=dict(name=f, words=3, d=d, with_default=f[0] in 'uieb')))
    return module(out, 'h_fields')

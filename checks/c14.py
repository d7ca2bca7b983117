from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('lists of every element type of 0..9 elements (bits: 0..17) with arbitrary contents, every index and every slice '
          'with steps +-1, +-2; counts up to 2^29-1 and indexes up to 2^30 for element counts and ranges; text items of '
          '0..3 bytes and null; struct items of every section sizes up to 4+3 words; nested lists up to 3x3; lists of '
          'numbers encoded as lists of structs')
OUTSIDE = 'longer contents; pointer lists encoded as lists of structs with a data section'
ASSUMPTIONS = ['the Cap\'n Proto compiler assigns positions as it prints them (capnp compile -ocapnp)']
SCHEMAS = schema('sl')
PRELOAD = ['sl', 'layout_sl']
PRIMS = ('b', 'i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64', 'e')


def tasks(tier):
    out = []
    for f in PRIMS:
        for n in (0, 1, 3, 5) if tier == 'quick' else range(10):
            out.append(dict(func='prim', params=dict(field=f, n=n)))
        if f != 'b':
            out.append(dict(func='prim', params=dict(field=f, n=3, composite=[1, 0])))
            out.append(dict(func='prim', params=dict(field=f, n=2, composite=[2, 1])))
            out.append(dict(func='counts', params=dict(field=f)))
    for n in (8, 9, 17):
        out.append(dict(func='prim', params=dict(field='b', n=n)))
    for f in ('i32', 'b'):
        for n in (0, 1, 3):
            out.append(dict(func='slices', params=dict(field=f, n=n)))
    out.append(dict(func='counts', params=dict(field='b')))
    out.append(dict(func='void', params=dict(n=3)))
    for f in ('t', 'd', 'tu'):
        for sizes in ([], [0], [3], [None], [2, None, 0], [1, 2, 3]):
            if f == 'tu' and sizes == [1, 2, 3]:
                sizes = [1, None, 2]
            out.append(dict(func='texts', params=dict(field=f, sizes=sizes)))
    for f in ('p', 'q'):
        for n in (0, 1, 3):
            for d, p in ((0, 0), (1, 0), (2, 1), (3, 2), (0, 1), (4, 3)):
                out.append(dict(func='structs', params=dict(field=f, n=n, d=d, p=p)))
    for f in ('ll', 'lt', 'lp'):
        for sizes in ([], [0], [2], [1, 3], [3, 0, 2]):
            out.append(dict(func='nested', params=dict(field=f, sizes=sizes)))
    return module(out, 'h_list')

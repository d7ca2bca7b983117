from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('pairs of lists of 0..3 elements of every element type which can be compared, in messages of their own: any numbers '
          '(floats: all bit patterns but NaN), bits with any padding, text and data of 0..3 bytes and null with '
          'any padding and in any order, lists of numbers and of text; behind far pointers; numbers encoded as lists of '
          'structs; lists of different types; against the Python list of the items, other lists and other objects')
OUTSIDE = 'longer lists; NaN (Python compares lists with a NaN by identity of the objects)'
ASSUMPTIONS = []
SCHEMAS = schema('sw')
PRELOAD = ['sw', 'layout_sw']
PRIMS = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64', 'e')
ENC = ('plain', 'far', 'composite')


def tasks(tier):
    out = []

    def two(f, a, b, *enc, **kw):
        p = dict(field=f, a=a, b=b, **kw)
        if enc:
            p['enca'], p['encb'] = enc
        out.append(dict(func='two', params=p))
    ns = ((0, 0), (0, 1), (1, 1), (3, 3), (2, 3), (3, 2)) if tier == 'quick' else \
        [(a, b) for a in range(6) for b in range(6)]
    for f in PRIMS:
        for a, b in ns:
            two(f, a, b)
        for e in ENC:
            for e2 in ENC:
                if e != e2 or e != 'plain':
                    two(f, 2, 2, e, e2)
    for f, f2 in (('i8', 'i16'), ('i8', 'u8'), ('i32', 'u32'), ('u64', 'i64'), ('e', 'u16'), ('u16', 'e'), ('t', 'd'), ('d', 't')):
        if f in 'td':
            for a, b in (([2], [2]), ([None, 1], [None, 1]), ([0], [0])):
                two(f, a, b, field2=f2)
        else:
            two(f, 2, 2, field2=f2)
            two(f, 0, 0, field2=f2)
    for a, b in (([2], [2]), ([], []), ([None], [None]), ([0], [0])):
        two('t', a, b, field2='tu')
        two('tu', a, b, field2='t')
    for n, k in ((0, 0), (1, 1), (3, 3), (8, 8), (9, 9), (3, 4), (17, 17), (7, 8)):
        two('b', n, k)
    for n, k in ((0, 0), (2, 2), (2, 3)):
        two('v', n, k)
    specs = ([], [0], [2], [None], [1, None], [None, 1], [2, 3], [3, 2])
    for f in ('t', 'd', 'tu'):
        for a in specs:
            for b in specs:
                two(f, a, b)
        for a in ([2], [1, 2], [None, 3], [3, 0]):
            for e in ('plain', 'rev', 'gap', 'pad', 'far'):
                for e2 in ('rev', 'gap', 'pad', 'far'):
                    two(f, a, a, e, e2)
    for a, b in (([], []), ([1], [1]), ([2, 1], [2, 1]), ([None, 1], [None, 1]), ([None], [0]), ([1], [2]), ([1, 2], [2, 1])):
        for e in ('plain', 'rev'):
            two('ll', a, b, 'plain', e)
    for a, b in (([[1]], [[1]]), ([[1], []], [[1], []]), ([[None]], [[1]]), ([[1, 2]], [[1, 2]]), ([[2], [1]], [[2], [1]])):
        for e in ('plain', 'rev'):
            two('lt', a, b, 'plain', e)
    two('ll', [], 0, field2='i8')
    for f in PRIMS + ('b', 'v'):
        out.append(dict(func='itself', params=dict(field=f, a=3)))
        out.append(dict(func='others', params=dict(field=f, a=2)))
    for f in 't', 'd', 'tu':
        out.append(dict(func='itself', params=dict(field=f, a=[2, None])))
        out.append(dict(func='others', params=dict(field=f, a=[2, None])))
        out.append(dict(func='others', params=dict(field=f, a=[])))
    out.append(dict(func='itself', params=dict(field='ll', a=[2, 1])))
    for n in (0, 1, 2):
        for o in ('same', 'list', 'empty', 'other', 'ints'):
            out.append(dict(func='structs', params=dict(n=n, other=o)))
    for f in ('i8', 'b', 'f64'):
        out.append(dict(func='ordering', params=dict(field=f, a=2)))
    out.append(dict(func='ordering', params=dict(field='t', a=[1])))
    return module(out, 'h_leq')

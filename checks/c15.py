from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('lists of every element type of 0..4 items as field of a constructor: any values of numbers (and any number within '
          '+-2^66, in and out of range), text and data of 0..3 bytes and null, structs of 0..3 data words and 0..3 pointers '
          '(the schema has 1+1) from lists with mixed sizes, and from capnpy lists, in messages of 1..3 segments, with text, '
          'lists and structs below them; lists of lists; the source is a Python list, a tuple or a capnpy list of another '
          'message (numbers: also encoded as list of structs); items of 13 wrong types after 0..1 right ones')
OUTSIDE = 'longer lists'
ASSUMPTIONS = ['any exception is a refusal']
SCHEMAS = schema('sw')
PRELOAD = ['sw', 'layout_sw']
PRIMS = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64', 'e')
LAYOUTS = ('pre', 'rev', 'gap', 'far1', 'far2', 'mix')
A = ['s', 1, [['l', 2, 3]]]
B = ['s', 0, []]
C = ['s', 2, [['l', 2, 1], ['s', 1, [None]]]]
D = ['s', 1, []]
E = ['s', 0, [['l', 2, 2]]]
F = ['s', 3, [None, ['p', [['l', 2, 1], None]], ['l', 3, 2]]]
G = ['s', 1, [None]]
WRONG = {'i8': 'none float text list object tuple', 'u64': 'none float bytes object', 'i64': 'none float text',
         'f64': 'none text list object', 'f32': 'none bytes', 'e': 'none text float',
         't': 'int text list object float tuple', 'd': 'int text list object', 'tu': 'int list object float',
         's': 'none int bytes list object J tuple Emp', 'll': 'int strs object nones', 'lt': 'int list bytes object strs',
         'ls': 'int list bytes object Js nones', 'b': 'true int none', 'em': 'none J int'}


def tasks(tier):
    out = []
    ns = (0, 1, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 8, 9)
    for f in PRIMS:
        for src in ('list', 'tuple', 'capnpy', 'composite'):
            for n in ns:
                out.append(dict(func='prims', params=dict(field=f, n=n, src=src)))
        if f[0] != 'f':
            out.append(dict(func='ranges', params=dict(field=f), reach=['refused', 'stored']))
    for f in ('t', 'd', 'tu'):
        for sizes in ([], [0], [2], [None], [1, None, 3], [3, 0, 2]):
            for src in ('list', 'capnpy'):
                out.append(dict(func='texts', params=dict(field=f, sizes=sizes, src=src)))
    groups = [[], [A], [B], [C], [D], [E], [F], [G], [A, A], [A, B, A], [B, A], [C, A], [A, C], [D, E, A], [E, D], [F, A],
              [A, F, B], [F, C, E]]
    for lay in LAYOUTS:
        for g in groups:
            for src in ('list', 'capnpy'):
                out.append(dict(func='structs', params=dict(shapes=g, layout=lay, src=src)))
    for f in ('ll', 'lt', 'ls'):
        for sizes in ([], [0], [2], [1, 3], [3, 0, 2]):
            for src in ('list', 'capnpy'):
                out.append(dict(func='nested', params=dict(field=f, sizes=sizes, src=src)))
        out.append(dict(func='nested', params=dict(field=f, sizes=[1, 1], src='list', none=0)))
    for n in (0, 1, 5):
        out.append(dict(func='voids', params=dict(n=n)))
        out.append(dict(func='empties', params=dict(n=n)))
    for f, items in WRONG.items():
        for it in items.split():
            for pre in (0, 1):
                if pre and f in ('b', 'em'):
                    continue
                out.append(dict(func='wrong', params=dict(field=f, item=it, pre=pre)))
    for f in ('i8', 't', 's', 'll'):
        for w in ('int', 'object', 'float', 'struct'):
            out.append(dict(func='not_lists', params=dict(field=f, what=w)))
    return module(out, 'h_write')

from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('object graphs of up to 3 levels and 9 objects over structs (0..2 data words, 0..2 pointers), lists of every '
          'element size (0..9 elements), pointer lists and lists of structs (0..2 items); laid out in preorder, breadth '
          'first, reversed, with gaps, and over 3 segments with one- and two-word landing pads; arbitrary data')
OUTSIDE = 'larger graphs; capability pointers; lists written by a schema version with other element sizes (see C15)'
ASSUMPTIONS = []
SCHEMAS = schema('st')
PRELOAD = ['st']
LAYOUTS = ('pre', 'bfs', 'rev', 'gap', 'rgap', 'far1', 'far2', 'mix')
DEEP = [['s', 1, [['s', 0, [['p', [['l', 2, 5], None, ['s', 1, [['l', 3, 2]]]]]]], ['c', 1, 1, [[['l', 2, 1]], [['s', 1, []]]]]]],
        ['s', 0, [['c', 0, 2, [[['p', [['l', 5, 1]]], None], [None, ['c', 1, 1, [[['l', 1, 9]]]]]]], ['l', 4, 1]]],
        ['s', 2, [None, ['p', [['p', [['p', [['l', 2, 2], None]], ['p', []]]], ['s', 0, [['s', 1, [None]]]]]]]]]


def tasks(tier):
    out = []
    for how in ('compact', 'slow', 'dumps'):
        for lay in LAYOUTS:
            for fam in ('leaf', 'pair'):
                out.append(dict(func='copy', params=dict(how=how, layout=lay, fam=fam)))
            for s in DEEP:
                out.append(dict(func='copy', params=dict(how=how, layout=lay, shape=s)))
    if tier != 'quick':
        for lay in LAYOUTS:
            out.append(dict(func='copy', params=dict(how='slow', layout=lay, fam='deep'), time=3000))
    for lay in LAYOUTS:
        out.append(dict(func='into_field', params=dict(layout=lay, fam='pair', n=1)))
        out.append(dict(func='into_field', params=dict(layout=lay, fam='leaf', n=2)))
        for s in DEEP:
            out.append(dict(func='into_field', params=dict(layout=lay, shape=s, n=2)))
        T1 = ['s', 2, [['l', 2, 3], ['p', [None, ['l', 2, 1]]]]]
        T2 = ['s', 2, [None, ['s', 1, [['l', 3, 3]]]]]
        for ss in ([], [T1], [T1, T2], [T2, T1, T2]):
            out.append(dict(func='into_items', params=dict(layout=lay, shapes=ss)))
    return module(out, 'h_tree')

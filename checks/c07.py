from checks.common import schema, module
from checks.c06 import LAYOUTS, DEEP
LEVEL = 'model_checking'
BOUNDS = ('the object graphs and layouts of C06; and structs with up to 2 pointers with any offset in -2..3, '
          'words, any list kind of any length, to 2 (thorough: 3) words of which each is null, a far pointer, or a struct or list pointer with any offset in -3..4 and any small size')
OUTSIDE = 'larger graphs; other symbolic offsets'
ASSUMPTIONS = []
SCHEMAS = schema('st')
PRELOAD = ['st']


def tasks(tier):
    out = []
    for lay in LAYOUTS:
        for fam in ('leaf', 'pair') if tier == 'quick' else ('leaf', 'pair', 'deep'):
            out.append(dict(func='fast', params=dict(layout=lay, fam=fam), time=3000))
        for s in DEEP:
            out.append(dict(func='fast', params=dict(layout=lay, shape=s)))
    for body in (2,) if tier == 'quick' else (2, 3):
        for sh in ([0, 0], [0, 1], [1, 1], [0, 2], [2, 0]):
            out.append(dict(func='any_end', params=dict(kinds='s', body=body, shape=[sh]), time=3000))
        for tag in range(8):
            out.append(dict(func='any_end', params=dict(kinds='l', body=body, shape=[tag]), time=3000))
    for sh in ([[1, 0], [0, 1]], [[0, 1], [1, 0]], [[1, 0], 7], [[1, 0], 6], [[0, 1], 2], [2, [0, 1]], [6, [1, 0]], [7, [1, 0]],
               [7, 6], [6, 2], [7, 2]):
        kinds = ''.join('l' if isinstance(x, int) else 's' for x in sh)
        out.append(dict(func='any_end', params=dict(kinds=kinds, body=2, shape=sh), time=3000))
    return module(out, 'h_tree')

from checks.common import schema, module
from checks import c06
LEVEL = 'model_checking'
BOUNDS = ('every placement of the object and of the landing pad (one and two words) in messages of 1..3 segments of up to 4 '
          'words, for text, data, unicode text, lists of numbers, bits, structs and structs, as field of a struct and as '
          'item of a list, which begins the first or the second segment; arbitrary contents; any 29-bit offset, 32-bit segment number in messages of 1..3 segments; '
          'copies of object graphs spread over 3 segments (as in C06)')
OUTSIDE = 'larger messages'
ASSUMPTIONS = []
SCHEMAS = schema('sf', 'st')
PRELOAD = ['sf', 'layout_sf', 'st']


def tasks(tier):
    out = []
    sizes = ([0, 3, 0], [0, 2, 2], [3, 0, 3], [2, 2, 1]) if tier == 'quick' else \
        ([0, 3, 0], [0, 2, 2], [3, 0, 3], [2, 2, 1], [4, 4, 4], [0, 4, 3, 2], [1, 5])
    homes = ([3, 0], [3, 1, 1]) if tier == 'quick' else ([3, 0], [3, 1, 1], [3, 3, 0], [2, 2, 2])
    for sz, home in [(sz, 0) for sz in sizes] + [(sz, 1) for sz in homes]:
        p = dict(sizes=sz, home=home)
        for k in ('t', 'd', 'tu', 'l', 'b', 's', 'ls'):
            out.append(dict(func='fields', params=dict(kind=k, **p)))
        for lst, k in (('lt', 't'), ('e', 'd'), ('tul', 'tu'), ('ll', 'l')):
            out.append(dict(func='items', params=dict(lst=lst, kind=k, **p)))
        for k in ('t', 'd'):
            out.append(dict(func='keys', params=dict(kind=k, **p)))
    for k in ('t', 'd', 's'):
        for nseg in (1, 2, 3):
            out.append(dict(func='rejected', params=dict(kind=k, nseg=nseg, words=3), reach=['rejected']))
    module(out, 'h_far')
    more = []
    for lay in ('far1', 'far2', 'mix'):
        for how in ('compact', 'dumps'):
            more.append(dict(func='copy', params=dict(how=how, layout=lay, fam='pair')))
    return out + module(more, 'h_tree')

from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('every stream of 0..40 bytes with 1..5 segments of any size (32 bits), and with any larger segment count; messages '
          'of 1..5 segments of 0..3 words with arbitrary contents between other bytes')
OUTSIDE = 'streams which hold more than 5 segments; file objects whose read() returns less than what was asked for'
ASSUMPTIONS = []
SCHEMAS = schema('st')
PRELOAD = ['st']


def tasks(tier):
    out = []
    for how in ('file', 'string'):
        for size in range(0, 41):
            if size < 4:
                out.append(dict(func='header', params=dict(size=size, how=how)))
                continue
            if how == 'string' and size % 4:
                continue
            for n in (1, 2, 3, 4, 5):
                out.append(dict(func='header', params=dict(size=size, how=how, nseg=n)))
            m = (size - 4) // 4
            out.append(dict(func='header', params=dict(size=size, how=how, maxseg=m)))
    for how, chunks in (('file', ()), ('string', ()), ('socket', [1] * 200), ('socket', [7] * 40), ('socket', [8] * 40)):
        for sizes in ([2], [3], [2, 2], [1, 2, 0], [1, 2, 2], [2, 0, 2], [1, 0, 0, 2], [2, 1, 1, 1], [1, 1, 1, 1, 2]):
            for lead in (0, 3):
                out.append(dict(func='content', params=dict(sizes=sizes, how=how, chunks=list(chunks), lead=lead)))
    module(out, 'h_stream')
    more = []
    S = ['s', 1, [['l', 2, 3], None, ['s', 1, []]]]
    for lay in ('pre', 'far2'):
        for ss in ([], [S], [S, S, S], [['s', 0, []], S]):
            more.append(dict(func='files', params=dict(layout=lay, shapes=ss, fast=True)))
    return out + module(more, 'h_tree')

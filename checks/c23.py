from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('structs at any position with any section sizes (0..65535) of buffers of up to 4 arbitrary words, in one segment or '
          'in 1..3 segments with arbitrary boundaries, of top-level, nested and group classes; fields of all kinds in one '
          'segment and through both kinds of far pointers; built and loaded objects; pickle protocols 0..4, deepcopy, '
          'raw dumps')
OUTSIDE = 'the byte format of pickle and marshal themselves: they are taken to keep ints, bytes, str, None and tuples'
ASSUMPTIONS = ['pickle, copy and marshal of the standard library follow their documentation']
SCHEMAS = schema('sx', 'sf', 'su')
PRELOAD = ['sx', 'sf', 'su', 'layout_sx', 'layout_sf', 'layout_su']
HOWS = ('raw', 'copy', 0, 1, 2, 3, 4)


def tasks(tier):
    out = []
    for h in HOWS:
        for n in (0, 1, 2, 3):
            out.append(dict(func='anywhere', params=dict(how=h, nseg=n, words=2)))
        out.append(dict(func='anywhere', params=dict(how=h, nseg=0, words=4, schema='sf', cls='Leaf')))
        for lay in ('one', 'far'):
            out.append(dict(func='fields', params=dict(how=h, layout=lay)))
        out.append(dict(func='group', params=dict(how=h, path='g')))
        out.append(dict(func='built', params=dict(how=h)))
        out.append(dict(func='message', params=dict(how=h)))
        if isinstance(h, int):
            for n in (0, 1, 3):
                out.append(dict(func='segment', params=dict(how=h, nseg=n, words=8)))
    return module(out, 'h_pickle')

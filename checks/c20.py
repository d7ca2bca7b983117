from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('text of up to 3 characters of any size (all code points), as bytes and as unicode, and data of up to 2 arbitrary '
          'bytes (3 thorough): in fields, lists (with null items), lists of lists, groups, unions, nested structs; the '
          'output is parsed by the grammar of Cap\'n Proto string literals')
OUTSIDE = 'longer values; text which is not valid UTF-8'
ASSUMPTIONS = ['text is valid UTF-8']
SCHEMAS = schema('sp')
PRELOAD = ['sp', 'layout_sp']


def tasks(tier):
    out = []
    deep = tier != 'quick'
    for f in 't', 'u':
        for spec in [[], [1], [2], [3], [4], [1, 1], [1, 2], [2, 1], [3, 4], [2, 1, 2]] + ([[1, 1, 1], [4, 1, 1]] if deep else []):
            out.append(dict(func='field', params=dict(name=f, spec=spec)))
    for n in (0, 1, 2) + ((3,) if deep else ()):
        out.append(dict(func='field', params=dict(name='d', spec=n)))
    for f in ('lt', 'lu'):
        for specs in ([[1]], [[2], []], [None], [[2], None], [[3], [1]]):
            out.append(dict(func='items', params=dict(name=f, specs=specs)))
    for specs in ([1], [1, 0], [None], [0, None, 1], [2]):
        out.append(dict(func='items', params=dict(name='ld', specs=specs)))
    for k in ('p', 'lp', 'lld', 'llt', 'ut', 'ud'):
        out.append(dict(func='nested', params=dict(kind=k)))
    for f, spec in (('t', [1, 2]), ('u', [1, 3]), ('d', 1)):
        out.append(dict(func='full', params=dict(name=f, spec=spec)))
    for f, a, b in (('t', [1], [1]), ('u', [1], [1]), ('t', [1], [2]), ('d', 1, 1), ('d', 1, 0)):
        out.append(dict(func='two', params=dict(name=f, a=a, b=b)))
    for t in out:
        t['max_paths'] = 60000
    return module(out, 'h_repr')

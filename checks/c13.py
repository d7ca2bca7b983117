from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('keys of up to 5 fields of all the kinds which hash: every value of all integer types, Bool, enum, Void, Float32 and '
          'Float64 (without NaN); text, unicode text (ASCII) and data: null or any contents of up to 4 bytes, each of the two '
          'objects at different positions and in messages with shorter data sections; a key with a nested keyed struct; '
          'against the other object, the tuple, longer and shorter tuples, lists, None, numbers')
OUTSIDE = ('NaN (the hash of a NaN is its identity on CPython 3.10 and later); longer text; non-ASCII unicode text; keys which '
           'are lists (not hashable)')
ASSUMPTIONS = ['hash() of strings, floats and, on PyPy, of tuples is a function of the value (nothing else is assumed of it)']
SCHEMAS = schema('sk')
PRELOAD = ['sk', 'layout_sk']


def tasks(tier):
    out = []
    leads = [(0, 0), (0, 1), (2, 0)]
    for st in ('KI', 'KS', 'KB', 'KF', 'KE'):
        out.append(dict(func='pair', params=dict(struct=st, ta={}, tb={}), reach=['equal', 'different']))
        for sh in ((1, 1),) if st == 'KI' and tier == 'quick' else ((0, 1), (1, 0), (1, 1)):
            out.append(dict(func='pair', params=dict(struct=st, ta={}, tb={}, lead=(0, 1), short=sh)))
    ns = (None, 0, 1, 3) if tier == 'quick' else (None, 0, 1, 2, 3, 4, 7, 8, 9)
    for st, f in (('KT', 't'), ('KD', 'd'), ('KU', 'u')):
        for x in ns:
            for y in ns:
                for ld in leads:
                    out.append(dict(func='pair', params=dict(struct=st, ta={f: x}, tb={f: y}, lead=ld)))
        # the other text is not part of the key
        g = 'u' if f == 't' else 't'
        out.append(dict(func='pair', params=dict(struct=st, ta={f: 2, g: 1}, tb={f: 2, g: 2})))
        out.append(dict(func='pair', params=dict(struct=st, ta={f: 2}, tb={f: 2, g: 2})))
    for x in (None, 0, 2):
        for y in (None, 0, 2):
            for z in (None, 0, 2):
                out.append(dict(func='pair', params=dict(struct='KM', ta=dict(t=x, u=y), tb=dict(t=z, u=y))))
                out.append(dict(func='pair', params=dict(struct='KM', ta=dict(t=x, u=y), tb=dict(t=y, u=z))))
    for h in ((0, 0), (0, 1), (1, 0), (1, 1)):
        out.append(dict(func='nested', params=dict(has=h)))
    out.append(dict(func='pair', params=dict(struct='KO', ta=dict(t=1), tb={})))
    out.append(dict(func='group', params={}))
    for o in ('same', 'tuple', 'short', 'keyed'):
        out.append(dict(func='no_key', params=dict(other=o)))
    for st in ('KI', 'KT', 'KB'):
        for o in ('same', 'tuple', 'int'):
            out.append(dict(func='ordering', params=dict(struct=st, other=o)))
        out.append(dict(func='others', params=dict(struct=st)))
    return module(out, 'h_key')

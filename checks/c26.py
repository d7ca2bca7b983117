from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('a struct with fields of 14 kinds (integers, Bool, enum, Float32, Text, unicode Text, Data, lists, structs, Void, '
          'groups, nullable groups, with and without defaults) and 7 virtual groups over them (with and without keys, in a '
          'group, in a union), every content of the data section, data sections of 0..6 and pointer sections of 0..5 words, '
          'pointer fields null or with any contents of up to 3 bytes (thorough: 9) or items')
OUTSIDE = 'groups of groups of other modules; non-ASCII unicode text; NaN keys'
ASSUMPTIONS = ['hash() of strings and, on PyPy, of tuples is a function of the value']
SCHEMAS = schema('sg')
PRELOAD = ['sg', 'layout_sg']
FULL = dict(t=2, u=1, d=3, l=2, i=1)


def tasks(tier):
    out = []
    ns = (0, 3) if tier == 'quick' else (0, 1, 2, 7, 8, 9)
    for g in ('all', 'ints', 'bits', 'ptrs', 'xy', 'two', 'three'):
        u = g in ('two', 'three')
        for d in range(7):
            t = dict(func='view', params=dict(group=g, d=d, p=5, sizes={}, lead=d % 2))
            if u:
                t['reach'] = ['refused', 'current'] if d >= 5 else ['refused']
            out.append(t)
        if g in ('all', 'ptrs'):
            for p in range(6):
                out.append(dict(func='view', params=dict(group=g, d=5, p=p, sizes=FULL, lead=p % 2)))
            for n in ns:
                for k in FULL:
                    out.append(dict(func='view', params=dict(group=g, d=4, p=5, sizes={k: n}, lead=1)))
        if g in ('ints', 'bits', 'xy', 'two'):
            for d in ((5, 5), (5, 4), (2, 6)):
                if u and min(d) < 5:
                    continue
                out.append(dict(func='keyed', params=dict(group=g, d=d, p=5, sizes=({}, {}), lead=(0, 1))))
    for x in (None,) + ns:
        for y in (None,) + ns:
            sa, sb = [{} if n is None else n if isinstance(n, dict) else dict(t=n, d=2) for n in (x, y)]
            out.append(dict(func='keyed', params=dict(group='ptrs', d=(5, 5), p=5, sizes=(sa, sb), lead=(0, 1))))
    out.append(dict(func='keyed', params=dict(group='ptrs', d=(5, 5), p=5, sizes=(dict(u=1), dict(u=2)), lead=(0, 1))))
    for g in ('all', 'three'):
        out.append(dict(func='no_key', params=dict(group=g)))
    return module(out, 'h_group')

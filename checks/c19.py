from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('enums of 0, 1, 2 and 3 members; fields with and without default; all 65536 values; data sections from 0 words '
          'on; lists of up to 3 enum values')
OUTSIDE = 'enums with more members'
ASSUMPTIONS = ['the Cap\'n Proto compiler assigns positions and ordinals as it prints them (capnp compile -ocapnp)']
SCHEMAS = schema('se')
PRELOAD = ['se', 'layout_se']
FIELDS = [('a', 'E3'), ('b', 'E3'), ('c', 'E1'), ('d', 'E2'), ('z', 'E0'), ('e', 'E3')]


def tasks(tier):
    out = []
    for f, e in FIELDS:
        for d in range(5):
            out.append(dict(func='enum_read', params=dict(enum=e, field=f, d=d)))
        for wrap in (False, True):
            out.append(dict(func='enum_write', params=dict(enum=e, field=f, wrap=wrap)))
    for f, e in (('la', 'E3'), ('lc', 'E1'), ('ld', 'E2'), ('lz', 'E0')):
        for n in range(4):
            for wrap in (False, True):
                out.append(dict(func='enum_list', params=dict(enum=e, field=f, n=n, wrap=wrap)))
    return module(out, 'h_union')

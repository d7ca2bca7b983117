import itertools
from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('nullable groups of Int64, Bool, Float64, enum and UInt16 with a default; every flag and value, data sections '
          'from 0 words on; every combination of None, a value and omission')
OUTSIDE = 'value types which are not in the family'
ASSUMPTIONS = ['the Cap\'n Proto compiler assigns positions as it prints them (capnp compile -ocapnp)']
SCHEMAS = schema('su')
PRELOAD = ['su', 'layout_su']
NAMES = 'i b f e u'.split()
NAMES2 = 'a b c'.split()


def tasks(tier):
    out = []
    for st, names, dmax in (('Nu', NAMES, 6), ('Nd', NAMES2, 4)):
        for n in names:
            for d in range(dmax):
                out.append(dict(func='null_read', params=dict(struct=st, name=n, d=d)))
        for n in names:
            out.append(dict(func='null_build', params=dict(struct=st, given=[n], none=[])))
            out.append(dict(func='null_build', params=dict(struct=st, given=[], none=[n])))
        out.append(dict(func='null_build', params=dict(struct=st, given=names, none=[])))
        out.append(dict(func='null_build', params=dict(struct=st, given=[], none=names)))
        for n in names:
            out.append(dict(func='null_build', params=dict(struct=st, given=[x for x in names if x != n], none=[n])))
            out.append(dict(func='null_build', params=dict(struct=st, given=[n], none=[x for x in names if x != n])))
    return module(out, 'h_union')

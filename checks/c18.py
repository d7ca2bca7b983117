from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('every kind of pointer field (text bytes/unicode, data, list of numbers, text and structs, struct, text in a '
          'group); null, absent (section too short) or designating an object of 0..3 elements/words with arbitrary '
          'contents; pointer section sizes 0..10 (schema: 8); fields at any '
          'of the first 4 slots and far beyond the section, symbolic in the message which capnp gives to the compiler')
OUTSIDE = 'longer objects; AnyPointer fields (C21)'
ASSUMPTIONS = ['the Cap\'n Proto compiler assigns positions as it prints them (capnp compile -ocapnp)']
SCHEMAS = schema('sx', 'sy')
PRELOAD = ['sx', 'layout_sx', 'layout_sy']
PTRS = ['t', 'd', 'l', 's', 'g.y', 'tu', 'lt', 'ls']


def tasks(tier):
    out = []
    for f in PTRS:
        for size in range(4) if tier == 'quick' else range(9):
            for p in (0, 5, 8, 9) if tier == 'quick' else range(11):
                if f == 'tu' and size > 3:
                    continue
                out.append(dict(func='pointer', params=dict(schema='sx', struct='Rec', field=f, d=8, p=p, size=size,
                                                          gap=(size + p) % 2)))
        for p in (0, 5, 8, 9):
            out.append(dict(func='has_word', params=dict(schema='sx', struct='Rec', field=f, d=8, p=p)))
        out.append(dict(func='none_args', params=dict(schema='sx', struct='Rec', field=f)))
    for n in ('txt', 'uni', 'd', 'l', 's'):
        for p in (0, 3) if tier == 'quick' else range(5):
            out.append(dict(module='h_slots', func='ptr_read', params=dict(name=n, p=p, hi=3, null=1)))
        out.append(dict(module='h_slots', func='ptr_read', params=dict(name=n, p=2, hi=65535)))
    return module(out, 'h_fields')

from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('an anonymous union of 10 members of every kind, two named unions, a union alone, and a group with a union and '
          'another field; all 65536 tags and arbitrary contents when reading, with data sections from 0 words on; every '
          'member with every value, alone and in every combination with others, when building; the tag of an anonymous '
          'and a named union at any position of 3 words and far beyond the section, symbolic in the message which capnp gives '
          'to the compiler')
OUTSIDE = 'unions with more members; unions nested in groups of unions'
ASSUMPTIONS = ['the Cap\'n Proto compiler assigns positions and tags as it prints them (capnp compile -ocapnp)']
SCHEMAS = schema('su', 'sy')
PRELOAD = ['su', 'layout_su', 'layout_sy']
U = 'x t s v b e l f d g'.split()
ALL = [('U', 0, U), ('N', 0, ['square', 'text', 'none']), ('N', 1, ['a', 'b']), ('W', 0, ['one', 'two']),
       ('E0', 0, ['one', 'two'])]
SIZES = {'U': (2, 2), 'N': (2, 1), 'W': (2, 1), 'E0': (2, 0)}


def tasks(tier):
    out = []
    for s, k, ms in ALL:
        dd, pp = SIZES[s]
        for d in range(dd + 2):
            for p in (0, pp, pp + 1):
                out.append(dict(func='read_tag', params=dict(schema='su', struct=s, k=k, d=d, p=p)))
        for m in ms:
            out.append(dict(func='build', params=dict(schema='su', struct=s, k=k, member=m, how='init')))
            if s in 'UW':
                out.append(dict(func='build', params=dict(schema='su', struct=s, k=k, member=m, how='new')))
        out.append(dict(func='several', params=dict(schema='su', struct=s, k=k, size=2 if tier == 'quick' else None),
                        max_paths=5000))
    for node in ('T', 'T.u'):
        for d in (0, 1, 3) if tier == 'quick' else range(6):
            out.append(dict(module='h_slots', func='tag_read', params=dict(node=node, lo=0, hi=13, d=d)))
        out.append(dict(module='h_slots', func='tag_read', params=dict(node=node, lo=120, hi=300, d=1)))
    for n in 'abcpqr':
        out.append(dict(module='h_slots', func='tag_write', params=dict(member=n, extra=3 if tier == 'quick' else 6)))
    return module(out, 'h_union')

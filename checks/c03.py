LEVEL = 'model_checking'
BOUNDS = ('one operation (allocate, struct, list, text, data, None) from an arbitrary state of up to 24 bytes with '
          'arbitrary contents, at every pointer position, for initial capacities below, at and above the size needed, '
          'followed by a second allocation; struct: every split of up to 3 words between the sections; text and data: '
          'arbitrary contents of the listed lengths; pointer words and positions for every section size below 2^16 and '
          'every list body up to 2^27 bytes; chains of 4 operations')
OUTSIDE = 'longer chains (each step is checked from an arbitrary state, so a longer one is a composition of checked steps)'
ASSUMPTIONS = ['allocation succeeds', 'positions passed to the builder are positions it handed out']


def tasks(tier):
    out = []
    caps = (8, 24, 40, 512) if tier == 'quick' else (8, 16, 24, 32, 40, 48, 64, 512, 520)
    ends = (8, 24) if tier == 'quick' else (8, 16, 24, 40, 64)
    ops = [('allocate', 0), ('allocate', 2), ('struct', 0), ('struct', 1), ('struct', 3), ('list', 0), ('list', 3),
           ('list', 8), ('list', 17), ('text', 0), ('text', 7), ('text', 8), ('data', 0), ('data', 8), ('data', 9),
           ('none', 0), ('none', 1)]
    if tier != 'quick':
        ops += [('text', i) for i in range(1, 20)] + [('data', i) for i in range(1, 20)] + \
               [('list', i) for i in range(1, 26)] + [('struct', i) for i in range(2, 9)]
    for op, size in ops:
        for end in ends:
            for cap in caps:
                # the capacity only matters to the compiled builder
                m = ['pyx'] if cap != 512 else ['pure', 'pyx']
                out.append(dict(func='step', params=dict(op=op, size=size, cap=cap, end=end), modes=m))
        if tier == 'quick':
            out.append(dict(func='step', params=dict(op=op, size=size, cap=512, end=504), modes=['pyx'], samples=3))
    out.append(dict(func='wide', params=dict(op='struct'), noreplay=True))
    out.append(dict(func='wide', params=dict(op='list'), noreplay=True))
    chains = [[('struct', 3), ('text', 8), ('list', 17), ('struct', 2)],
              [('list', 8), ('struct', 1), ('data', 9), ('text', 7)],
              [('text', 3), ('allocate', 1), ('struct', 2), ('list', 5)]]
    for c in chains:
        for cap in (8, 512):
            out.append(dict(func='chain', params=dict(ops=c, cap=cap), modes=['pyx'] if cap == 8 else ['pure', 'pyx']))
    for t in out:
        t['module'] = 'h_builder'
    return out

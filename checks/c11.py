from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('arbitrary data of 0..5 bytes in all possible pieces, every sequence of 3 operations (reads of 0..size+2 bytes, '
          'readline, read-all; thorough: 4); reads of any size up to 2^40; up to 3 writes')
OUTSIDE = 'streams which deliver data again after having delivered nothing'
ASSUMPTIONS = ['the stream delivers an empty string only at its end, as BufferedStream requires']
SCHEMAS = []
PRELOAD = []


def tasks(tier):
    out = []
    ops = [a + b + c for a in 'rla' for b in 'rla' for c in 'rla']
    for how in ('socket', 'string'):
        for size in range(0, 5 if tier == 'quick' else 6):
            for o in ops:
                if size == 4 and 'a' in o[:2]:
                    continue
                out.append(dict(func='reads', params=dict(how=how, size=size, ops=o)))
        for size in (0, 1, 4):
            out.append(dict(func='big_reads', params=dict(how=how, size=size)))
        out.append(dict(func='reads', params=dict(how=how, size=3, ops='rlrl'), time=600))
    for o in ('r', 'l', 'a', 'lr', 'rl'):
        out.append(dict(func='reads', params=dict(how='string', size=3, ops=o, adapter=True)))
    if tier != 'quick':
        for a in ops:
            for b in 'rl':
                out.append(dict(func='reads', params=dict(how='socket', size=4, ops=b + a), time=3000))
    for sizes in ([], [3], [1, 0, 2]):
        out.append(dict(func='writes', params=dict(sizes=sizes)))
    return module(out, 'h_stream')

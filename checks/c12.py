from checks.common import schema, module
LEVEL = 'model_checking'
BOUNDS = ('compiled variant; messages of 1 to 2 words (thorough: 3) where every bit is arbitrary, in one or two segments: every '
          'getter (Text, Data, unicode text, struct, AnyPointer, and lists of Int16, UInt64, Bool, Void, enum, Float64, Text, Data, '
          'structs, lists), its has_/get_ twins, first and last item, hash, ==, end of lists and structs, compact, dumps (fast and '
          'slow), a new message from the object; copies of any pointer into a builder with 1 to 3 free words; lists of structs with a '
          'tag of section sizes from a set and any count; root structs of all section sizes at all 34-bit offsets; read_ptr at all '
          '64-bit offsets; far pointers (single and double) to arbitrary landing pads; chains of 40 objects (one million when '
          'replayed) and cyclic structs; allocations of 2**48 to 2**60 bytes')
OUTSIDE = ('the pure variant (an access out of a byte string is an exception of the interpreter; its values are covered by C07, C14, '
           'C21); messages of more than 3 arbitrary words; unicode texts and nested lists of more than one word (quick); the time and '
           'memory a message can make a reader spend (no traversal limit is claimed); generated code of fields outside the family')
ASSUMPTIONS = ['the depth of nested calls the interpreter allows is modelled as 3 to 8 instead of about 1000, so that one path can exceed it; '
               'at the real depth the C stack used stays under 8 MB (measured at about 4 MB)',
               'there are less than 2**46 bytes of memory (bytes objects, builders)']
SCHEMAS = schema('sz')
PRELOAD = ['sz']

FIELDS = [('ZT', 't'), ('ZD', 'd'), ('ZU', 'u'), ('ZS', 's'), ('ZP', 's'), ('ZI', 'l'), ('ZQ', 'l'), ('ZB', 'l'), ('ZV', 'l'),
          ('ZE', 'l'), ('ZF', 'l'), ('ZLT', 'l'), ('ZLU', 'l'), ('ZLD', 'l'), ('ZLS', 'l'), ('ZLL', 'l')]
KINDS = ('struct', 'void', 'bit', 'bytes', '64', 'ptrs', 'composite', 'far', 'other')
LISTS = [x for x, f in FIELDS if f == 'l']


def tasks(tier):
    out = []
    t = tier == 'thorough'
    for name, f in FIELDS:
        for n in (1, 2, 3) if t else (1, 2):
            if name in ('ZU', 'ZLU') and n > 1 or name == 'ZLL' and n > 1 and not t:
                continue        # (the decoding of each byte is a case split)
            out.append(dict(func='getter', params=dict(name=name, field=f, n=n, d=1 if name == 'ZS' and n > 1 else 0)))
    for name in ('ZT', 'ZD', 'ZU', 'ZS', 'ZP'):
        out.append(dict(func='hashed', params=dict(name=name, n=1)))
        if name in ('ZT', 'ZD'):
            out.append(dict(func='hashed', params=dict(name=name, n=2)))
    for name in ('ZT', 'ZD'):
        out.append(dict(func='hashed_text', params=dict(name=name, n=2, count=0)))
    for name in LISTS:
        n = 1 if name in ('ZLU', 'ZLT', 'ZLD', 'ZLL') else 2
        if (n == 2 or name in ('ZLT', 'ZLD')) and (t or name not in ('ZQ', 'ZE')):
            out.append(dict(func='equality', params=dict(name=name, n=2)))
        out.append(dict(func='list_end', params=dict(name=name, n=n)))
        out.append(dict(func='build_from', params=dict(name=name, field='l', n=n)))
    for name, f in (('ZS', 's'), ('ZT', 't'), ('ZD', 'd')):
        out.append(dict(func='build_from', params=dict(name=name, field=f, n=2)))
    for k in KINDS:
        for length in (8, 16):
            out.append(dict(func='copy', params=dict(n=1, length=length, kinds=(k,))))
        for length in (8, 16, 24) if t else (8, 24):
            for k2 in KINDS:
                out.append(dict(func='copy', params=dict(n=2, length=length, kinds=(k, k2))))
    for length in (8, 24, 32) if t else (8, 32):
        for d, p in ((0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 1), (65535, 65535), (0, 65535)):
            for k in KINDS if p else ('struct',):
                out.append(dict(func='copy_composite', params=dict(n=3, length=length, d=d, p=p, kinds=(k,))))
    for k in KINDS if t else ('struct', 'bytes', 'other'):
        out.append(dict(func='copy_inline', params=dict(n=2, kinds=(k, 'struct'))))
    for d, p in ((0, 1), (1, 1), (0, 2)):
        out.append(dict(func='end', params=dict(n=2, d=d, p=p)))
        if p == 2:
            for k in KINDS:
                for k2 in KINDS if t else ('struct', 'bytes'):
                    out.append(dict(func='compact', params=dict(n=2, d=d, p=p, kinds=(k, k2))))
            continue
        out.append(dict(func='compact', params=dict(n=2, d=d, p=p)))
        for fast in (True, False):
            out.append(dict(func='dumps', params=dict(n=2, d=d, p=p, fast=fast)))
    out.append(dict(func='root', params=dict(n=2)))
    out.append(dict(func='read_ptr', params=dict(n=2)))
    for op in ('read', 'copy', 'hash', 'any'):
        for k in KINDS:
            out.append(dict(func='far', params=dict(n=1, m=1, op=op, kinds=(k,))))
            if k in ('far', 'other'):
                for k2 in ('struct', 'bytes', 'far'):
                    out.append(dict(func='far', params=dict(n=1, m=2, op=op, kinds=(k, k2))))
    out.append(dict(func='far', params=dict(n=1, m=2, op='end')))
    for m in (1, 2):
        out.append(dict(func='far', params=dict(n=1, m=m, op='read', name='ZT', field='t')))
    out.append(dict(func='far', params=dict(n=1, m=1, op='read', name='ZI', field='l')))
    out.append(dict(func='anyptr', params=dict(n=2)))
    for op in ('end', 'compact', 'dumps', 'build'):
        for kind in ('ZS', 'ZP'):
            for cyc in (False, True):
                out.append(dict(func='chain', params=dict(op=op, kind=kind, cyclic=cyc)))
    for op in ('repr', 'hash'):
        for cyc in (False, True):
            out.append(dict(func='chain', params=dict(op=op, kind='ZS', cyclic=cyc)))
    out.append(dict(func='far_cycle', params=dict(op='copy')))
    out.append(dict(func='allocate', params={}))
    for x in out:
        x['modes'] = ['pyx']
        x.setdefault('samples', 1)
    return module(out, 'h_safe')

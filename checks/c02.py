LEVEL = 'model_checking'
BOUNDS = ('buffers of every length in 0..12 bytes (reads), 0..10 (pack_into), 12 (builder writes) with arbitrary '
          'contents; offsets: every value in [-20, 40] and in [-2^62, 2^62] (segment reads, dump) or the full C int '
          'range (packing helpers); values: every integer in [-2^66, 2^66], every finite or infinite float; dump: '
          'buffers up to 16 (thorough: 24) bytes, every start, end and pointer')
OUTSIDE = ('writes at positions outside the allocated space (the builder is an internal interface: C03/C12 show its '
           'callers stay inside); NaN payloads when writing floats')
ASSUMPTIONS = ['little-endian 64-bit machine', 'struct, bytearray and memcpy behave as documented']
FMT = 'qQiIhHbBdf'


def tasks(tier):
    out = []
    ns = (0, 1, 7, 8, 9, 12) if tier == 'quick' else range(0, 18)
    ns2 = (1, 8, 10) if tier == 'quick' else range(0, 14)
    for n in ns:
        for f in FMT:
            out.append(dict(func='read', params=dict(fmt=f, n=n, how='method')))
            out.append(dict(func='read', params=dict(fmt=f, n=n, how='primitive')))
        out.append(dict(func='read', params=dict(fmt='Q', n=n, how='magic')))
        out.append(dict(func='read', params=dict(fmt='I', n=n, how='u32')))
    for n in ns2:
        for f in FMT:
            out.append(dict(func='unpack', params=dict(fmt=f, n=n, how='primitive')))
            out.append(dict(func='unpack', params=dict(fmt=f, n=n, how='primitive', mutable=True)))
            out.append(dict(func='pack_into', params=dict(fmt=f, n=n)))
        out.append(dict(func='pack_into', params=dict(fmt='q', n=n, how='pack_int64_into')))
        for f, h in (('q', 'unpack_int64'), ('h', 'unpack_int16'), ('I', 'unpack_uint32')):
            out.append(dict(func='unpack', params=dict(fmt=f, n=n, how=h)))
    for f in FMT:
        out.append(dict(func='write', params=dict(fmt=f, n=12, how='method'), reach=['written']))
        out.append(dict(func='write', params=dict(fmt=f, n=12, how='generic'), reach=['written']))
    out.append(dict(func='pack_value'))
    out.append(dict(func='pack_header'))
    out.append(dict(func='write_bool', params=dict(n=4)))
    out.append(dict(func='write_bool', params=dict(n=4, number=True)))
    out.append(dict(func='write_slice', params=dict(n=4, m=5)))
    for n in (0, 8, 16) if tier == 'quick' else range(0, 25):
        out.append(dict(func='dump_message', params=dict(n=n), reach=['refused', 'dumped']))
    for t in out:
        t['module'] = 'h_prim'
    return out

from checks.common import module
LEVEL = 'model_checking'
BOUNDS = ('paths of up to 3 directories and the root (4 in the thorough tier); every combination of existing files, '
          'directories and of the capnp program; every exit status and ten versions of the program; every pair of '
          'modification times (40 bits); names of one to three parts; every combination of the three ways to name a schema; up to 3 schemas and every combination of the keywords of setup(); every version text of the same length, and some '
          'others')
OUTSIDE = ('the file system and the capnp program themselves, which are stand-ins; relative file names; the pyx step (Cython and the C '
           'compiler); schemas loaded a second time with other options')
ASSUMPTIONS = ['files do not appear or vanish during the call', 'py.path.local joins and renames paths as documented']


def tasks(tier):
    out = []
    top = 4 if tier == 'quick' else 5
    for n in range(top):
        for how in ('modname', 'importname'):
            for name in ('x', 'pkg.x', 'a.b.c'):
                out.append(dict(func='find', params=dict(n=n, name=name, how=how), reach=['found', 'missing']))
        out.append(dict(func='run', params=dict(n=n), reach=['ran', 'refused']))
    for n in (0, 1) if tier == 'quick' else (0, 1, 2):
        out.append(dict(func='two', params=dict(n=n)))
    out.append(dict(func='arguments', params={}))
    out.append(dict(func='build', params=dict(pyx=False), reach=['again', 'kept']))
    out.append(dict(func='build', params=dict(pyx=True), modes=['pyx'], reach=['again', 'kept']))
    out.append(dict(func='extended', params=dict(how='filename', n=1)))
    for n in range(top):
        out.append(dict(func='extended', params=dict(how='modname', n=n)))
        out.append(dict(func='setup_py', params=dict(n=n)))
    out.append(dict(func='version', params={}))
    out.append(dict(func='alone', params={}))
    return module(out, 'h_driver')

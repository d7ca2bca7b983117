"""C30: finding, compiling and loading schema files (the file system and the capnp program are stand-ins)"""
import importlib
import types


class World(object):
    """which files and directories exist, and their times: unknown, and fixed once somebody looks"""

    def __init__(self, ctx, names=None):
        self.ctx = ctx
        self.seen = {}
        self.times = {}
        self.written = {}
        self.names = names

    def exists(self, kind, path):
        path = str(path)
        if self.names is not None and path not in self.names:
            return False
        k = kind, path
        if k not in self.seen:
            self.seen[k] = self.ctx.bool('%s %s' % k)
        return self.seen[k]

    def mtime(self, path):
        path = str(path)
        if path not in self.times:
            self.times[path] = self.ctx.int('time of ' + path, 0, (1 << 40))
        return self.times[path]


class Output(object):
    """a file open for writing"""

    def __init__(self, world, name):
        self.world, self.name = world, name
        world.written[name] = ''

    def write(self, data):
        self.world.written[self.name] += data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


def setup(ctx, names=None):
    """(the compiler's module, the world)"""
    C = importlib.import_module('capnpy.compiler.compiler')
    py = importlib.import_module('py')
    real_os = importlib.import_module('os')
    w = World(ctx, names)

    class Path(py.path.local):
        def check(self, **kw):
            r = w.exists('dir' if 'dir' in kw else 'file', self)
            return r if all(kw.values()) else ctx.not_(r)

        def isfile(self):
            return w.exists('file', self)

        def exists(self):
            return w.exists('file', self)

        def isdir(self):
            return w.exists('dir', self)

        def mtime(self):
            return w.mtime(self)

        def stat(self, *args, **kw):
            return types.SimpleNamespace(mtime=w.mtime(self), st_mtime=w.mtime(self))

        def write(self, data, *args, **kw):
            w.written[str(self)] = data

        def open(self, mode='r', *args, **kw):
            return Output(w, str(self))

        @classmethod
        def sysfind(cls, name, *args, **kw):
            return cls('/bin/' + name) if w.exists('program', name) else None

    class OsPath(object):
        def __getattr__(self, name):
            return getattr(real_os.path, name)

        def isfile(self, p):
            return w.exists('file', p)

        exists = isfile

        def isdir(self, p):
            return w.exists('dir', p)

        def getmtime(self, p):
            return w.mtime(p)

    class Os(object):
        path = OsPath()

        def __getattr__(self, name):
            return getattr(real_os, name)

    C.py = types.SimpleNamespace(path=types.SimpleNamespace(local=Path), code=py.code)
    C.os = Os()
    C.print = lambda *args, **kw: None
    return C, w


DIRS = ('/d0', '/d1', '/d2', '/d3')


def compiler(C, cls, n):
    class Compiler(cls):
        """compiles to an object"""

        def _compile_file(self, filename, pyx, options):
            self.log.append((str(filename), pyx, options))
            return object()

        def _parse_schema_file(self, filename):
            return str(filename)
    c = Compiler(list(DIRS[:n]))
    c.log = []
    return c


def find(ctx, n, name, how):
    """the first directory of the path which has the file; ValueError when none has"""
    C, w = setup(ctx)
    c = compiler(C, C.DynamicCompiler, n)
    rel = name.replace('.', '/') + '.capnp'
    cand = [d.rstrip('/') + '/' + rel for d in DIRS[:n] + ('/',)]
    arg = dict(modname=name) if how == 'modname' else dict(importname='/' + rel)
    try:
        got = c.parse_schema(**arg)
    except ValueError:
        got = None
    for i, f in enumerate(cand):
        there = w.exists('file', f)
        earlier = ctx.any(False, *[w.exists('file', g) for g in cand[:i]])
        ctx.check(ctx.implies(ctx.all(there, ctx.not_(earlier)), got == f), 'the first file on the path')
        ctx.check(ctx.implies(got == f, there), 'a file which is there')
    ctx.check(ctx.iff(ctx.any(*[w.exists('file', f) for f in cand]), got is not None), 'found exactly when one is there')
    ctx.reach('missing' if got is None else 'found')
    if got is not None:
        # loading it: once
        m = c.load_schema(pyx=False, **arg)
        ctx.check(c.load_schema(pyx=False, **arg) is m, 'the same module the second time')
        ctx.check(c.load_schema(filename=got, pyx=False) is m, 'the same module by its file')
        other = dict(importname='/' + rel) if how == 'modname' else dict(modname=name)
        ctx.check(c.load_schema(pyx=False, **other) is m, 'the same module by its other name')
        ctx.check([x[0] for x in c.log] == [got], 'compiled once')
        c2 = compiler(C, C.DynamicCompiler, n)
        ctx.check(c2.load_schema(pyx=False, **arg) is not m, 'another compiler has modules of its own')


def two(ctx, n):
    """different files are different modules"""
    C, w = setup(ctx)
    c = compiler(C, C.DynamicCompiler, n)
    mods = {}
    files = {}
    for name in ('a', 'b.a', 'a.b', 'a'):
        try:
            m = c.load_schema(modname=name, pyx=False)
        except ValueError:
            m = None
        if name in mods:
            ctx.check(mods[name] is m, 'the same again')
        mods[name] = m
    for x in ('a', 'b.a', 'a.b'):
        for y in ('a', 'b.a', 'a.b'):
            ctx.check(mods[x] is None or x == y or mods[x] is not mods[y], 'different modules')
    ctx.check(len(c.log) == sum(m is not None for m in mods.values()), 'compiled once each')


def arguments(ctx):
    """exactly one of the three ways; import names begin with a slash"""
    C, w = setup(ctx)
    given = {}
    for k, v in (('modname', 'x'), ('importname', '/x.capnp'), ('filename', '/d0/x.capnp')):
        if ctx.bool('give ' + k):
            given[k] = v
    rel = ctx.bool('relative')
    if 'importname' in given and rel:
        given['importname'] = 'x.capnp'
    for method in ('load_schema', 'parse_schema'):
        c = compiler(C, C.DynamicCompiler, 1)
        try:
            got = getattr(c, method)(**given)
        except ValueError:
            got = None
        ok = len(given) == 1
        if 'importname' in given and rel:
            ok = False
        if ok and 'filename' not in given:
            ok = ctx.any(w.exists('file', '/d0/x.capnp'), w.exists('file', '/x.capnp'))
        ctx.check(ctx.iff(ok, got is not None), method)
        if method == 'load_schema':
            ctx.check(len(c.log) == (got is not None), 'compiled')


class Process(object):
    def __init__(self, world, cmd):
        self.world = world
        world.commands.append([str(x) for x in cmd])
        if len(cmd) > 1 and cmd[1] == '--version':
            self.out, self.returncode = ("Cap'n Proto version %s\n" % world.version).encode('ascii'), 0
        else:
            self.out, self.returncode = b'the request', world.status
        self.stdout, self.stderr = self.out, b'why'

    def communicate(self, *args, **kw):
        return self.out, self.stderr

    def wait(self, *args, **kw):
        return self.returncode

    poll = wait

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


VERSIONS = {'0.4.9': False, '0.4': False, '0.5.0': True, '0.5.3': True, '0.10.0': True, '1.0.1': True, '1.2-dev': True,
            '(unknown)': True, '0.3.0-rc1': False, '0.0.7': False}


def run(ctx, n):
    """how the capnp program is run, and what becomes of its answer"""
    C, w = setup(ctx)
    w.commands = []
    w.version = ctx.choice('version', sorted(VERSIONS))
    w.status = ctx.int('exit status', -64, 255)
    sub = importlib.import_module('subprocess')

    def popen(cmd, *args, **kw):
        return Process(w, cmd)

    def check(cmd, *args, **kw):
        p = Process(w, cmd)
        if p.returncode != 0:
            raise sub.CalledProcessError(1, cmd, p.out, p.stderr)
        return p.out
    C.subprocess = types.SimpleNamespace(Popen=popen, PIPE=sub.PIPE, run=popen, check_output=check, STDOUT=sub.STDOUT,
                                         CalledProcessError=sub.CalledProcessError, DEVNULL=sub.DEVNULL)
    c = C.DynamicCompiler(list(DIRS[:n]))
    try:
        got = c._capnp_compile(C.py.path.local('/d0/x.capnp'))
    except C.CompilerError:
        got = None
    program = w.exists('program', 'capnp')
    ok = ctx.all(program, VERSIONS[w.version], w.status == 0)
    ctx.check(ctx.iff(ok, got is not None), 'an answer exactly when the program is there, new enough and successful')
    if got is not None:
        ctx.check(got == b'the request', 'its output')
    runs = [x for x in w.commands if '--version' not in x]
    ctx.check(len(runs) == 1 or got is None, 'run once')
    for cmd in runs:
        ctx.check(VERSIONS[w.version], 'old versions are not run')
        ctx.check(cmd[0].split('/')[-1] == 'capnp' and cmd[1] == 'compile' and cmd[-1] == '/d0/x.capnp', 'the command')
        ctx.check('-o-' in cmd, 'to its output')
        inc = [x[2:] for x in cmd if x.startswith('-I')]
        want = [d for d in DIRS[:n] + ('/',) if w.exists('dir', d)]
        ctx.check(inc == want, 'the directories of the path which exist, in order')
    ctx.reach('ran' if got is not None else 'refused')


def build(ctx, pyx):
    """the build step generates the module again unless there is one which is newer than the schema"""
    C, w = setup(ctx, ['/d0/x.py', '/d0/x.pyx', '/d0/x.capnp'])

    class Compiler(C.DistutilsCompiler):
        def generate_py_source(self, filename, pyx, options):
            self.log.append((str(filename), pyx, options))
            return None, 'the source'
    c = Compiler(list(DIRS[:1]))
    c.log = []
    out = '/d0/x.pyx' if pyx else '/d0/x.py'
    res = c.compile('/d0/x.capnp', pyx=pyx, options=None)
    ctx.check(str(res) == out, 'name of the result')
    newer = ctx.all(w.exists('file', out), w.mtime(out) > w.mtime('/d0/x.capnp'))
    ctx.check(ctx.iff(ctx.not_(newer), len(c.log) == 1), 'generated unless there is a newer one')
    ctx.check(len(w.written) == len(c.log), 'written when generated')
    if c.log:
        ctx.check(c.log == [('/d0/x.capnp', pyx, None)], 'what is generated')
        ctx.check(w.written.get(out) == 'the source', 'what is written')
    ctx.reach('again' if c.log else 'kept')


def alone(ctx):
    """compiling on its own: always writes the module next to the schema"""
    C, w = setup(ctx)

    class Compiler(C.StandaloneCompiler):
        def generate_py_source(self, filename, pyx, options):
            self.log.append((str(filename), pyx, options))
            return None, 'the source'
    c = Compiler(list(DIRS[:1]))
    c.log = []
    c.compile('/d1/x.capnp', pyx=False, options='options')
    ctx.check(c.log == [('/d1/x.capnp', False, 'options')], 'generated')
    ctx.check(list(w.written.items()) == [('/d1/x.py', 'the source')], 'written')


def extended(ctx, how, n):
    """the _extended file of a schema runs in the namespace of its module exactly when there is one"""
    U = importlib.import_module('capnpy.util')
    C, w = setup(ctx)
    U.py = C.py
    U.compile = lambda src, name, mode, *args, **kw: compile(src, name, mode)
    C.py.path.local.read = lambda self, *args, **kw: 'ran_from = %r\nfield = old + 1\n' % str(self)
    ns = {'old': 41}
    if how == 'filename':
        cand = ['/d0/some_extended.py']
        U.extend_module_maybe(ns, filename='/d0/some.capnp')
    else:
        import sys
        saved, sys.path[:] = list(sys.path), list(DIRS[:n])
        try:
            U.extend_module_maybe(ns, modname='pkg.some')
        finally:
            sys.path[:] = saved
        cand = [d + '/pkg/some_extended.py' for d in DIRS[:n]]
    got = ns.get('ran_from')
    for i, f in enumerate(cand):
        there = w.exists('file', f)
        earlier = ctx.any(False, *[w.exists('file', g) for g in cand[:i]])
        ctx.check(ctx.implies(ctx.all(there, ctx.not_(earlier)), got == f), 'the first one')
    ctx.check(ctx.iff(got is not None, ctx.any(False, *[w.exists('file', f) for f in cand])), 'exactly when there is one')
    if got is not None:
        ctx.check(ns['field'] == 42, 'in the namespace of the module')


def version(ctx):
    """a generated module is refused unless it was made by this version"""
    import sys
    U = importlib.import_module('capnpy.util')
    here = importlib.import_module('capnpy').__version__
    v = ctx.text('version', len(here))
    sys.modules['generated_by_some_version'] = U
    try:
        U.check_version('generated_by_some_version', v)
        ok = True
    except ImportError:
        ok = False
    ctx.check(ctx.iff(ok, v == here), 'refused exactly when the versions differ')
    ctx.check((sys.modules.get('generated_by_some_version') is not None) == ok, 'not left half imported')
    for other in (here + '.0', here[:-1], 'unknown' if here != 'unknown' else '1.0'):
        try:
            U.check_version('generated_by_some_version', other)
            ok = True
        except ImportError:
            ok = False
        ctx.check(not ok, 'another version')


def setup_py(ctx, n):
    """capnpy_schemas of setup(): every schema is compiled with the options of the keywords"""
    D = importlib.import_module('capnpy.compiler.distutils')
    T = importlib.import_module('capnpy.annotate')
    py = importlib.import_module('py')
    log = []

    class Compiler(object):
        include_dirs = []

        def __init__(self, path):
            pass

        def getpyx(self, pyx):
            return False

        def compile(self, filename, pyx='auto', options=None):
            log.append((filename, pyx, options))
            return py.path.local(filename).new(ext='py')
    D.DistutilsCompiler = Compiler
    opts = {}
    for k in ('version_check', 'convert_case', 'include_reflection_data'):
        if ctx.bool('give ' + k):
            opts[k] = ctx.bool(k)
    if ctx.bool('give text_type'):
        opts['text_type'] = ctx.choice('text_type', ['bytes', 'unicode'])
    want = dict(opts)
    if ctx.bool('give pyx'):
        opts['pyx'] = ctx.choice('pyx', ['auto', False])
    pyx = opts.get('pyx', 'auto')
    dist = types.SimpleNamespace(capnpy_options=opts or None, ext_modules=ctx.choice('ext', [None, ['an extension']]))
    before = list(dist.ext_modules or [])
    files = ['s%d.capnp' % i for i in range(n)]
    D.capnpy_schemas(dist, 'capnpy_schemas', files)
    ctx.check([x[0] for x in log] == files, 'every schema once')
    ctx.check(dist.ext_modules == before, 'no extensions without Cython, others kept')
    default = importlib.import_module('capnpy.compiler.compiler').DEFAULT_OPTIONS
    for name, p, o in log:
        ctx.check(p == pyx, 'pyx')
        o = default.combine(o)
        for k in ('version_check', 'convert_case', 'include_reflection_data'):
            ctx.check(ctx.iff(bool(getattr(o, k)), want.get(k, True)), k)
        ctx.check(o.text_type == (T.TextType.unicode if want.get('text_type') == 'unicode' else T.TextType.bytes), 'text_type')

"""Import system hooks: capnpy.* (from /repo's current sources) and harness modules, under the encodings.

mode 'pure':  capnpy/**/*.py instrumented and run as Python (what PyPy runs)
mode 'cyx':   the modules which setup.py cythonizes go through Cython's front end and symex.cyx; the rest of
              the package is ordinary Python, instrumented as above
"""
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get('CAPNPY_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CODE_DIRS = []          # directories with generated modules
FUNCS = set()           # code objects compiled (evidence)
MODE = None


def inst_compile(src, filename, mode='exec', *args, **kw):
    from symex import instrument
    if mode == 'exec' and str(filename).startswith(REPO):
        return instrument.instrument(src, str(filename))
    return compile(src, filename, mode, *args, **kw)


def sym_as_signed(x, bits):
    m = 1 << (bits - 1)
    return ((x & ((1 << bits) - 1)) ^ m) - m


class PureLoader(importlib.abc.Loader):

    def __init__(self, filename, is_pkg):
        self.filename = filename
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from symex import instrument
        with open(self.filename, 'rb') as f:
            src = f.read().decode('utf-8')
        code = instrument.instrument(src, self.filename)
        module.__file__ = self.filename
        module.__dict__['compile'] = inst_compile
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, mode):
        self.mode = mode

    def find_spec(self, name, path=None, target=None):
        if name == 'cython' and self.mode == 'pure':
            raise ImportError('no cython in pure mode')
        top = name.split('.')[0]
        if top == 'capnpy':
            base = os.path.join(REPO, *name.split('.'))
        elif top == 'harness':
            base = os.path.join(VERIF, *name.split('.'))
        else:
            if '.' not in name:
                for d in CODE_DIRS:
                    for ext in ('.pyx', '.py'):
                        fn = os.path.join(d, name + ext)
                        if os.path.exists(fn):
                            return self._spec(name, fn, False)
            return None
        if top == 'capnpy' and self.mode == 'cyx':
            from symex import cyx
            src = cyx.compiled_source(name)
            if src is not None:
                return self._spec(name, src, False)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            return self._spec(name, os.path.join(base, '__init__.py'), True)
        if os.path.exists(base + '.py'):
            return self._spec(name, base + '.py', False)
        if top == 'capnpy':
            raise ModuleNotFoundError(name, name=name)
        return None

    def _spec(self, name, fn, is_pkg):
        if self.mode == 'cyx' and (fn.endswith('.pyx') or self._is_cy(name)):
            from symex import cyx
            loader = cyx.CyLoader(fn, name)
        else:
            loader = PureLoader(fn, is_pkg)
        spec = importlib.machinery.ModuleSpec(name, loader, origin=fn, is_package=is_pkg)
        if is_pkg:
            spec.submodule_search_locations = [os.path.dirname(fn)]
        return spec

    def _is_cy(self, name):
        from symex import cyx
        return name.startswith('capnpy') and cyx.compiled_source(name) is not None


def setup(mode, code_dirs=()):
    """prepare this process"""
    global MODE
    assert MODE is None
    MODE = mode
    CODE_DIRS.extend(code_dirs)
    if SITE not in sys.path:
        sys.path.insert(0, SITE)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    import pypytools
    import pypytools.cast
    pypytools.cast.as_signed = sym_as_signed
    if mode == 'pure':
        pypytools.IS_PYPY = True
        sys.modules.pop('cython', None)
    # the real package must not be importable from anywhere else
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != REPO]
    sys.path.append(REPO)       # capnpy looks for its *_extended.py files there
    for k in list(sys.modules):
        if k == 'capnpy' or k.startswith('capnpy.'):
            del sys.modules[k]
    sys.meta_path.insert(0, Finder(mode))
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)

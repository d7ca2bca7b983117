"""Paths with symbolic characters: os.path and py.path.local, as far as names are concerned.
(no '..' or '.' components, which is up to the harness)"""
import posixpath
import re

from symex.core import Unsupported
from symex.symstr import SymStr


def basename(p):
    if not isinstance(p, SymStr):
        return posixpath.basename(p)
    while True:
        i = p.find('/')
        if i < 0:
            return p
        p = p[i + 1:]


def rfind(p, ch):
    """the last one"""
    for i in range(len(p) - 1, -1, -1):
        if p[i] == ch:
            return i
    return -1


def splitext(p):
    if not isinstance(p, SymStr):
        return posixpath.splitext(p)
    b = basename(p)
    i = rfind(b, '.')
    if i <= 0:
        return p, ''
    for k in range(i):
        if b[k] != '.':
            break
    else:
        return p, ''
    n = len(p) - len(b) + i
    return p[:n], p[n:]


class Local(object):
    """py.path.local of a symbolic string"""
    def __init__(self, p):
        self._p = p

    @property
    def basename(self):
        return basename(self._p)

    @property
    def purebasename(self):
        b = basename(self._p)
        i = rfind(b, '.')
        return b if i == -1 else b[:i]

    @property
    def ext(self):
        b = basename(self._p)
        i = rfind(b, '.')
        return '' if i == -1 else b[i:]

    def __getattr__(self, name):
        raise Unsupported('%s of a symbolic path' % name)


def local(p=None, **kw):
    import py
    if isinstance(p, SymStr):
        return Local(p)
    return py.path.local(p, **kw)


def _re(name):
    f = getattr(re, name)

    def shim(pattern, *args, **kw):
        from symex import rt
        if not rt.deep_sym(args):
            return f(pattern, *args, **kw)
        flags = kw.pop('flags', 0)
        from symex import symstr
        return symstr.regex_method(re.compile(pattern, flags), name, args, kw)
    return f, shim


def shims():
    out = {posixpath.basename: basename, posixpath.splitext: splitext}
    for name in ('sub', 'match', 'search', 'findall', 'split', 'fullmatch'):
        f, s = _re(name)
        out[f] = s
    try:
        import py
        out[py.path.local] = local
    except ImportError:
        pass
    return out

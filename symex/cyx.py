"""The compiled variant: Cython's own front end (parser, type inference, expression analysis) gives the typed tree of
each module which setup.py cythonizes; the tree is turned into Python text whose C operations go through symex.crt.
"""
import importlib.abc
import os
import re
import subprocess
import sys

from symex import crt, llir
from symex.core import Unsupported
from symex.crt import CT

REPO = os.environ.get('CAPNPY_REPO', '/repo')


class Unsup(Exception):
    pass


# -- which modules ---------------------------------------------------------------

_EXT = {}


def _extensions():
    if not _EXT:
        with open(os.path.join(REPO, 'setup.py')) as f:
            s = f.read()
        for p in sorted(set(re.findall(r'["\'](capnpy/[\w/]+\.pyx?)["\']', s))):
            _EXT[os.path.splitext(p)[0].replace('/', '.')] = os.path.join(REPO, p)
    return _EXT


def compiled_source(name):
    fn = _extensions().get(name)
    return fn if fn and os.path.exists(fn) else None


# -- Cython front end ----------------------------------------------------------------

def tree(src, modname):
    from Cython.Compiler import Main, Pipeline
    from Cython.Compiler.Scanning import FileSourceDescriptor
    from Cython.Compiler.ParseTreeTransforms import AnalyseExpressionsTransform
    from symex import loader
    opts = Main.CompilationOptions(Main.default_options, language_level=2,
                                   include_path=[REPO, os.path.join(REPO, 'capnpy')] + list(loader.CODE_DIRS))
    ctx = Main.Context.from_options(opts)       # (a new one for each module, as cythonize does)
    opts = ctx.options
    sd = FileSourceDescriptor(src, src)
    cs = Main.CompilationSource(sd, modname, REPO)
    res = Main.CompilationResult() if hasattr(Main, 'CompilationResult') else None
    if src.endswith('.py'):
        pl = Pipeline.create_py_pipeline(ctx, opts, res)
    else:
        pl = Pipeline.create_pyx_pipeline(ctx, opts, res)
    phases = []
    for p in pl:
        phases.append(p)
        if isinstance(p, AnalyseExpressionsTransform):
            break
    import io
    err_out = io.StringIO()
    from Cython.Compiler import Errors
    Errors.init_thread()
    Errors.open_listing_file(None, echo_to_stderr=False)
    err, t = Pipeline.run_pipeline(phases, cs)
    if err:
        raise Unsupported('Cython: %s' % (err,))
    return t


# -- C types ---------------------------------------------------------------------------

_NAMED = {
    'int8_t': crt.I8, 'uint8_t': crt.U8, 'int16_t': crt.I16, 'uint16_t': crt.U16, 'int32_t': crt.I32,
    'uint32_t': crt.U32, 'int64_t': crt.I64, 'uint64_t': crt.U64, 'Py_hash_t': crt.I64, 'Py_uhash_t': crt.U64,
    'Py_ssize_t': crt.I64, 'size_t': crt.U64, 'ptrdiff_t': crt.I64, 'bint': crt.BINT,
    'char': crt.I8, 'intptr_t': crt.I64, 'uintptr_t': crt.U64,
}


def ctype(t):
    """symex.crt type of a Cython type"""
    if t is None:
        return crt.OBJ
    if t.is_cv_qualified if hasattr(t, 'is_cv_qualified') else False:
        return ctype(t.cv_base_type)
    if t.is_reference if hasattr(t, 'is_reference') else False:
        return ctype(t.ref_base_type)
    if t.is_pyobject:
        return crt.OBJ
    if t.is_void:
        return crt.VOID
    if getattr(t, 'is_ctuple', False):
        return crt.tup_of([ctype(x) for x in t.components])
    if t.is_array:
        return crt.arr_of(ctype(t.base_type), t.size if isinstance(t.size, int) else 0)
    if t.is_ptr:
        b = t.base_type
        if b.is_cfunction:
            return crt.ptr_to(crt.VOID)
        return crt.ptr_to(ctype(b))
    name = str(t)
    if name in _NAMED:
        return _NAMED[name]
    if t.is_typedef:
        return ctype(t.typedef_base_type)
    if t.is_int or t.is_enum:
        if t.is_enum:
            return crt.INTS[(4, True)]
        size = {0: 1, 1: 2, 2: 4, 3: 8, 4: 8, 5: 8}.get(int(t.rank))
        if size is None:
            raise Unsup('type %s' % t)
        return crt.INTS[(size, t.signed != 0)]
    if t.is_float:
        return {'float': crt.F32, 'double': crt.F64}.get(name) or _bad('type %s' % t)
    if t.is_cfunction:
        return crt.ptr_to(crt.VOID)
    raise Unsup('type %s' % t)


def _bad(msg):
    raise Unsup(msg)


def q(s):
    return repr(s)


_SIMPLE = ('NameNode', 'IntNode', 'BoolNode', 'CharNode', 'NoneNode', 'ResultRefNode', 'NullNode', 'UnicodeNode', 'BytesNode',
           'IdentifierStringNode', 'FloatNode')


class Emitter(object):

    def __init__(self, src, modname):
        self.src = src
        self.modname = modname
        self.tree = tree(src, modname)
        self.scope = self.tree.scope
        self.out = []
        self.ind = 0
        self.n = 0
        self.refs = {}          # id(ResultRefNode / NextNode ...) -> text
        self.reftypes = {}
        self.pre = []           # module prelude
        self.classes = {}
        self.spaces = {}
        self.wrapped_defs = set()
        self.func = None
        self.ext_requests = []
        self.ext_index = {}
        self.pyfuncs = {}
        self.clone = {}

    # -- output -----------------------------------------------------------------
    def line(self, s):
        self.out.append('    ' * self.ind + s)

    def tmp(self, p='_t'):
        self.n += 1
        return '%s%d' % (p, self.n)

    # -- references ----------------------------------------------------------------
    def cls(self, typ):
        """text of the Python class of an extension or builtin type"""
        if typ.is_builtin_type:
            n = typ.name
            return {'unicode': 'str', 'str': 'str', 'basestring': 'str', 'long': 'int'}.get(n, n)
        if typ.is_extension_type:
            mod = typ.scope.parent_scope.qualified_name if typ.scope is not None and typ.scope.parent_scope is not None \
                else typ.module_name
            if typ.module_name:
                mod = typ.module_name
            if mod == self.modname:
                return typ.name
            k = (mod, typ.name)
            if k not in self.classes:
                n = '_k%d' % len(self.classes)
                self.classes[k] = n
                self.pre.append('%s = __crt__.lazy_class(%r, %r)' % (n, mod, typ.name))
            return self.classes[k] + '()'
        raise Unsup('class of %s' % typ)

    def space(self, scope):
        name = scope.qualified_name
        if scope is self.scope or name == self.modname:
            return '_C'
        if name not in self.spaces:
            n = '_m%d' % len(self.spaces)
            self.spaces[name] = (n, name)
        return '__crt__.foreign(%r)' % name

    # -- extern C ------------------------------------------------------------------------
    def ext(self, cname, ret, args):
        """text of a callable for the extern function (or constant, args None) cname"""
        key = (cname, ret, None if args is None else tuple(args))
        if key not in self.ext_index:
            self.ext_index[key] = len(self.ext_requests)
            self.ext_requests.append((cname, ret, args))
        return self.ext_index[key]

    # -- expressions: each returns (text, CT) --------------------------------------------------
    def e(self, n):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsup('expression %s' % type(n).__name__)
        return self.fix(m(n))

    def t(self, n):
        return self.e(n)[0]

    def obj(self, n):
        """as a Python object"""
        s, ct = self.e(n)
        if ct.kind == 'obj':
            return s
        if ct is crt.BINT:
            return '__crt__.to_bool(%s)' % s
        if ct.kind in ('int', 'float'):
            return s
        raise Unsup('%r to object' % ct)

    def conv(self, n, want):
        """implicit C conversion of an expression to a declared type"""
        s, ct = self.e(n)
        return self.conv_t(s, ct, want)

    def conv_t(self, s, ct, want):
        if want.kind == 'int':
            if ct.kind == 'int':
                if want is crt.BINT:
                    return s
                if ct is crt.BINT or crt.fits(ct, want):
                    return '__crt__.i(%s)' % s if ct is crt.BINT else s
                return '__crt__.w(%s, %d, %r)' % (s, 8 * want.size, want.signed)
            if ct.kind == 'float':
                return '__crt__.w(%s, %d, %r)' % (s, 8 * want.size, want.signed)
            if ct.kind == 'obj':
                return self.from_py(s, want)
        elif want.kind == 'float':
            if ct.kind == 'obj':
                return self.from_py(s, want)
            if ct.kind == 'float' and ct.size <= want.size:
                return s
            return '__crt__.wf(%s, %d)' % (s, want.size)
        elif want.kind == 'ptr':
            if ct.kind == 'ptr':
                b = want.base
                if ct.base.key() == b.key():
                    return s
                return '__crt__.pcast(%s, %s)' % (s, self.ctref(b))
            if ct.kind == 'arr':
                return '__crt__.addr(%s)' % s
        elif want.kind == 'obj':
            if ct.kind == 'obj':
                return s
            if ct is crt.BINT:
                return '__crt__.to_bool(%s)' % s
            if ct.kind in ('int', 'float'):
                return s
        elif want.kind == 'void':
            return s
        raise Unsup('conversion of %r to %r' % (ct, want))

    def ctref(self, ct):
        for n in ('I8', 'U8', 'I16', 'U16', 'I32', 'U32', 'I64', 'U64', 'F32', 'F64', 'VOID', 'OBJ', 'BINT'):
            if getattr(crt, n) is ct:
                return '__crt__.' + n
        for n in ('I8', 'U8', 'I16', 'U16', 'I32', 'U32', 'I64', 'U64', 'F32', 'F64', 'VOID', 'OBJ'):
            if getattr(crt, n).key() == ct.key():
                return '__crt__.' + n
        if ct.kind == 'ptr':
            return '__crt__.ptr_to(%s)' % self.ctref(ct.base)
        raise Unsup('type %r' % ct)

    def from_py(self, s, want):
        if want is crt.BINT:
            return '__crt__.truth(%s)' % s
        if want.kind == 'int':
            return '__crt__.int_from_py(%s, %d, %r)' % (s, 8 * want.size, want.signed)
        if want.kind == 'float':
            return '__crt__.float_from_py(%s, %d)' % (s, want.size)
        if want.kind == 'ptr' and want.base.kind == 'int' and want.base.size == 1:
            return '__crt__.ptr_from_py(%s, %s)' % (s, self.ctref(want.base))
        raise Unsup('object to %r' % want)

    def cond(self, n):
        """text with a truth value"""
        while type(n).__name__ in ('CoerceToTempNode', 'CoerceToBooleanNode') and \
                type(n).__name__ == 'CoerceToTempNode':
            n = n.arg
        s, ct = self.e(n)
        if ct.kind == 'obj' or ct.kind == 'ptr':
            return '__crt__.truth(%s)' % s
        return s

    # constants
    def x_IntNode(self, n):
        if re.match(r'[A-Za-z_]', n.value):
            k = self.ext(n.value, None, None)
            return '_x%d' % k, ('const', k)
        v = int(n.value.rstrip('uUlL'), 0) if not hasattr(n, 'constant_result') or not isinstance(
            n.constant_result, int) else int(n.constant_result)
        if n.type.is_pyobject:
            return repr(v), crt.OBJ
        ct = ctype(n.type)
        return repr(v), ct

    def x_BoolNode(self, n):
        if n.type.is_pyobject:
            return repr(bool(n.value)), crt.OBJ
        return repr(int(bool(n.value))), crt.BINT

    def x_NoneNode(self, n):
        return 'None', crt.OBJ

    def x_NullNode(self, n):
        return '__crt__.NULL', crt.ptr_to(crt.VOID)

    def x_CharNode(self, n):
        v = ord(n.value)
        return repr(v - 256 if v > 127 else v), crt.I32     # a C character constant is an int

    def x_FloatNode(self, n):
        v = float(n.value)
        s = repr(v)
        if s in ('inf', '-inf', 'nan'):
            s = 'float(%r)' % s
        return s, (crt.OBJ if n.type.is_pyobject else crt.F64)

    def x_UnicodeNode(self, n):
        return repr(str(n.value)), crt.OBJ

    def x_IdentifierStringNode(self, n):
        return repr(str(n.value)), crt.OBJ

    x_StringNode = x_IdentifierStringNode

    def x_BytesNode(self, n):
        v = n.value
        b = v.byteencode() if hasattr(v, 'byteencode') else bytes(v)
        if not n.type.is_pyobject:
            return '__crt__.as_string(%r)' % (b + b'\0'), ctype(n.type)
        return repr(bytes(b)), crt.OBJ

    def x_EllipsisNode(self, n):
        return '...', crt.OBJ

    # names
    def x_NameNode(self, n):
        entry = n.entry
        name = str(n.name)
        if entry is None:
            return name, crt.OBJ
        typ = n.type
        if entry.is_type and entry.type is not None and entry.type.is_extension_type and entry.scope is not None and \
                not entry.scope.is_builtin_scope and entry.as_variable is not None or \
                entry.is_type and entry.type.is_extension_type and not entry.type.is_builtin_type:
            return self.cls(entry.type), crt.OBJ
        sc = entry.scope
        if sc is not None and getattr(sc, 'is_builtin_scope', False):
            return self.builtin(name), crt.OBJ
        if entry.is_builtin:
            return self.builtin(name), crt.OBJ
        cn = str(entry.name) if entry.name and sc is not self.scope else name
        if sc is not None and sc.is_module_scope:
            if entry.type is not None and entry.type.is_pyobject and (entry.is_pyglobal or entry.visibility == 'extern'):
                return name, crt.OBJ
            if entry.visibility == 'extern':
                if entry.type.is_cfunction:
                    raise Unsup('extern function as a value')
                k = self.ext(entry.cname, None, None)
                return '_x%d' % k, ('const', k)
            if entry.is_cfunction or typ is not None and typ.is_cfunction:
                return '%s.%s' % (self.space(sc), cn), crt.ptr_to(crt.VOID)
            if entry.is_pyglobal or entry.is_pyclass_attr:
                return name, crt.OBJ
            if entry.is_cglobal or entry.is_variable and not entry.is_pyglobal:
                return '%s.%s' % (self.space(sc), cn), ctype(entry.type)
            return name, crt.OBJ
        if entry.is_cfunction and sc is not None and sc.is_c_class_scope:
            return '%s.%s' % (self.cls(sc.parent_type), self.method_name(entry, str(entry.name))), crt.ptr_to(crt.VOID)
        ct = ctype(entry.type) if entry.type is not None else crt.OBJ
        if self.func is not None and name in self.func.boxed:
            return name + '.v[0]', ct
        return name, ct

    def builtin(self, name):
        if name in self.pyglobals():
            return name
        return {'unicode': 'str', 'long': 'int', 'basestring': 'str', 'xrange': 'range', 'unichr': 'chr'}.get(name, name)

    def pyglobals(self):
        return ()

    def fix(self, r):
        """resolve the type of an extern constant (known once the wrappers are compiled)"""
        s, ct = r
        if isinstance(ct, tuple):
            size, signed = self.const_info(ct[1])
            return s, crt.INTS[(size, signed)]
        return r

    def x_AttributeNode(self, n):
        entry = n.entry
        attr = str(n.attribute)
        ot = n.obj.type if n.obj is not None else None
        if entry is not None and ot is not None and ot.is_extension_type and not ot.is_builtin_type and \
                (entry.is_variable or entry.is_cmethod) and not n.is_py_attr:
            o = self.t(n.obj)
            if entry.is_cmethod:
                return '%s.%s' % (o, self.method_name(entry, attr)), crt.ptr_to(crt.VOID)
            return '%s._c_%s' % (o, attr), ctype(entry.type)
        if entry is not None and entry.is_cmethod and getattr(n, 'is_unbound_cmethod', False):
            return '%s.%s' % (self.t(n.obj), self.method_name(entry, attr)), crt.ptr_to(crt.VOID)
        if n.type is not None and not n.type.is_pyobject and not n.is_py_attr:
            raise Unsup('C attribute %s' % attr)
        return '%s.%s' % (self.par(n.obj), attr), crt.OBJ

    def method_name(self, entry, name):
        t = entry.type
        if t is not None and t.is_overridable:
            return name
        return '_c_' + name

    def par(self, n):
        s = self.obj(n)
        if re.match(r'^[\w.]+$', s) and not s[0].isdigit() or s.endswith(')') and re.match(r'^[\w.]+\(', s):
            return s
        return '(%s)' % s

    # wrappers
    def x_CoerceToTempNode(self, n):
        return self.e(n.arg)

    def x_ProxyNode(self, n):
        return self.e(n.arg)

    def x_CloneNode(self, n):
        k = self.clone.get(id(n.arg))
        if k:
            return k
        a = n.arg
        while type(a).__name__ in ('CoerceToTempNode', 'ProxyNode', 'NoneCheckNode'):
            a = a.arg
        if type(a).__name__ in _SIMPLE or type(a).__name__ == 'AttributeNode' and type(a.obj).__name__ in _SIMPLE:
            return self.e(n.arg)
        raise Unsup('clone of %s' % type(a).__name__)

    x_CMethodSelfCloneNode = x_CloneNode

    def x_NoneCheckNode(self, n):
        exc = getattr(n, 'exception_type_cname', '') or ''
        exc = exc[6:] if exc.startswith('PyExc_') else 'TypeError'
        msg = getattr(n, 'exception_message', '') or ''
        return '__crt__.notnone(%s, %s, %r)' % (self.t(n.arg), exc, str(msg)), crt.OBJ

    def x_CoerceToPyTypeNode(self, n):
        s, ct = self.fix(self.e(n.arg))
        if ct.kind == 'obj':
            return s, crt.OBJ
        # the conversion function takes the declared type
        want = ctype(n.arg.type)
        if want.kind == 'int' and ct.kind == 'int' and want is not crt.BINT and ct is not crt.BINT:
            s = self.conv_t(s, ct, want)
        if want is crt.BINT or ct is crt.BINT or str(n.type) == 'bool':
            return '__crt__.to_bool(%s)' % s, crt.OBJ
        if want.kind == 'int':
            return ('__crt__.i(%s)' % s if ct is crt.BINT else s), crt.OBJ
        if want.kind == 'float':
            return s, crt.OBJ
        raise Unsup('%r to object' % want)

    x_CoerceIntToBytesNode = None

    def x_CoerceFromPyTypeNode(self, n):
        want = ctype(n.type)
        return self.from_py(self.obj(n.arg), want), want

    def x_CoerceToBooleanNode(self, n):
        s, ct = self.fix(self.e(n.arg))
        return '__crt__.truth(%s)' % s, crt.BINT

    def x_PyTypeTestNode(self, n):
        s = self.obj(n.arg)
        return '__crt__.typetest(%s, %s, %r)' % (s, self.cls(n.type), not n.notnone), crt.OBJ

    def x_TypecastNode(self, n):
        want = ctype(n.type)
        if n.operand.type.is_pyobject and want.kind == 'obj':
            if getattr(n, 'typecheck', False):
                return '__crt__.typetest(%s, %s)' % (self.obj(n.operand), self.cls(n.type)), crt.OBJ
            return self.obj(n.operand), crt.OBJ
        s, ct = self.fix(self.e(n.operand))
        if want.kind == 'ptr':
            if ct.kind in ('ptr', 'arr') or ct.kind == 'int':
                return '__crt__.pcast(%s, %s)' % (s, self.ctref(want.base)), want
            raise Unsup('cast')
        if want.kind == 'int':
            if ct.kind not in ('int', 'float'):
                raise Unsup('cast')
            return '__crt__.w(%s, %d, %r)' % (s, 8 * want.size, want.signed), want
        if want.kind == 'float':
            return self.conv_t(s, ct, want), want
        raise Unsup('cast to %r' % want)

    def x_AmpersandNode(self, n):
        op = n.operand
        k = type(op).__name__
        if k == 'NameNode' and self.func is not None and str(op.name) in self.func.boxed:
            return '__crt__.addr(%s)' % op.name, crt.ptr_to(ctype(op.type))
        if k == 'IndexNode':
            b, bt = self.e(op.base)
            if bt.kind in ('ptr', 'arr'):
                i = self.t(op.index)
                if bt.kind == 'arr':
                    b = '__crt__.addr(%s)' % b
                return '__crt__.padd(%s, __crt__.i(%s))' % (b, i), crt.ptr_to(bt.base)
        raise Unsup('address of %s' % k)

    # operators
    def binop(self, n):
        a, ta = self.fix(self.e(n.operand1))
        b, tb = self.fix(self.e(n.operand2))
        return a, ta, b, tb

    def x_AddNode(self, n):
        return self.arith(n)

    x_SubNode = x_MulNode = x_IntBinopNode = x_DivNode = x_ModNode = x_BitwiseOrNode = x_NumBinopNode = x_AddNode

    def arith(self, n):
        op = n.operator
        a, ta, b, tb = self.binop(n)
        return self.arith_t(op, a, ta, b, tb)

    def arith_t(self, op, a, ta, b, tb):
        if ta.kind == 'obj' or tb.kind == 'obj':
            if ta.kind not in ('obj', 'int', 'float') or tb.kind not in ('obj', 'int', 'float'):
                raise Unsup('operands')
            if op == '%':
                return '__rt__.mod(%s, %s)' % (a, b), crt.OBJ
            return '(%s %s %s)' % (a, op, b), crt.OBJ
        if ta.kind in ('ptr', 'arr') or tb.kind in ('ptr', 'arr'):
            if ta.kind == 'arr':
                a, ta = '__crt__.addr(%s)' % a, crt.ptr_to(ta.base)
            if tb.kind == 'arr':
                b, tb = '__crt__.addr(%s)' % b, crt.ptr_to(tb.base)
            if op == '+' and tb.kind == 'int':
                return '__crt__.padd(%s, __crt__.i(%s))' % (a, b), ta
            if op == '+' and ta.kind == 'int':
                return '__crt__.padd(%s, __crt__.i(%s))' % (b, a), tb
            if op == '-' and tb.kind == 'int':
                return '__crt__.padd(%s, -__crt__.i(%s))' % (a, b), ta
            if op == '-':
                return '__crt__.psub(%s, %s)' % (a, b), crt.I64
            raise Unsup('pointer arithmetic')
        if ta.kind == 'float' or tb.kind == 'float':
            if op not in ('+', '-', '*'):
                raise Unsup('float arithmetic')
            r = crt.usual(ta, tb)
            return '__crt__.wf(%s %s %s, %d)' % (a, op, b, r.size), r
        if ta is crt.BINT:
            a = '__crt__.i(%s)' % a
        if tb is crt.BINT:
            b = '__crt__.i(%s)' % b
        if op in ('<<', '>>'):
            r = crt.promote(ta)
            r = crt.INTS[(r.size, r.signed)]
            return '__crt__.%s(%s, %s, %d, %r)' % ('shl' if op == '<<' else 'shr', a, b, 8 * r.size, r.signed), r
        r = crt.usual(ta, tb)
        bits = 8 * r.size
        if op in ('+', '-', '*'):
            return '__crt__.w(%s %s %s, %d, %r)' % (a, op, b, bits, r.signed), r
        if op in ('&', '|', '^'):
            s = '(%s %s %s)' % (a, op, b)
            if not r.signed:
                s = '__crt__.w(%s, %d, False)' % (s, bits)
            return s, r
        a, b = self.conv_t(a, ta, r), self.conv_t(b, tb, r)
        if op in ('/', '//'):
            return '__crt__.fdiv(%s, %s, %d, %r)' % (a, b, bits, r.signed), r
        if op == '%':
            return '__crt__.fmod(%s, %s, %d, %r)' % (a, b, bits, r.signed), r
        raise Unsup('operator ' + op)

    def x_UnaryMinusNode(self, n):
        s, ct = self.fix(self.e(n.operand))
        if ct.kind == 'obj':
            return '(-%s)' % s, ct
        if ct.kind == 'float':
            return '(-%s)' % s, ct
        r = crt.promote(ct)
        return '__crt__.w(-__crt__.i(%s), %d, %r)' % (s, 8 * r.size, r.signed), crt.INTS[(r.size, r.signed)]

    def x_UnaryPlusNode(self, n):
        return self.e(n.operand)

    def x_TildeNode(self, n):
        s, ct = self.fix(self.e(n.operand))
        if ct.kind == 'obj':
            return '(~%s)' % s, ct
        r = crt.promote(ct)
        return '__crt__.w(~__crt__.i(%s), %d, %r)' % (s, 8 * r.size, r.signed), crt.INTS[(r.size, r.signed)]

    def x_NotNode(self, n):
        return '__crt__.lnot(__crt__.truth(%s))' % self.cond(n.operand), crt.BINT

    def pure_c(self, n):
        """no side effects, no exceptions, cheap: may be evaluated eagerly"""
        k = type(n).__name__
        if k in ('CoerceToTempNode',):
            return self.pure_c(n.arg)
        if n.type is None or n.type.is_pyobject:
            return k == 'NameNode' and False
        if k in ('NameNode', 'IntNode', 'BoolNode', 'CharNode', 'ResultRefNode'):
            return True
        if k == 'AttributeNode':
            return type(n.obj).__name__ == 'NameNode'
        if k in ('AddNode', 'SubNode', 'MulNode', 'IntBinopNode'):
            return self.pure_c(n.operand1) and self.pure_c(n.operand2)
        if k == 'PrimaryCmpNode':
            return n.cascade is None and not n.operand1.type.is_pyobject and self.pure_c(n.operand1) and \
                self.pure_c(n.operand2)
        if k in ('BoolBinopNode',):
            return self.pure_c(n.operand1) and self.pure_c(n.operand2)
        if k == 'BoolBinopResultNode':
            return self.pure_c(n.arg)
        if k == 'NotNode':
            return self.pure_c(n.operand)
        return False

    def x_BoolBinopNode(self, n):
        if n.type.is_pyobject:
            return '(%s %s %s)' % (self.obj(n.operand1), n.operator, self.obj(n.operand2)), crt.OBJ
        if str(n.type) == 'bint':
            a, b = self.cond(n.operand1), self.cond(n.operand2)
            if self.pure_c(n.operand1) and self.pure_c(n.operand2):
                return '__crt__.%s(__crt__.truth(%s), __crt__.truth(%s))' % ('lor' if n.operator == 'or' else 'land', a, b), crt.BINT
            return '(%s %s %s)' % (a, n.operator, b), crt.BINT
        want = ctype(n.type)
        return '(%s %s %s)' % (self.conv(n.operand1, want), n.operator, self.conv(n.operand2, want)), want

    def x_BoolBinopResultNode(self, n):
        return self.e(n.arg if n.value is None or type(n.value).__name__ == 'CloneNode' else n.value) \
            if False else self._bbr(n)

    def _bbr(self, n):
        # value is arg coerced to the type of the whole expression (through CloneNode(arg))
        v = n.value
        if v is None:
            return self.e(n.arg)
        a = n.arg
        while type(a).__name__ == 'CoerceToTempNode':
            a = a.arg
        self.clone[id(n.arg)] = None
        r = self.e(n.arg)
        if type(v).__name__ == 'CloneNode':
            return r
        self.clone[id(n.arg)] = r
        inner = v
        while hasattr(inner, 'arg') and type(inner).__name__ != 'CloneNode':
            inner = inner.arg
        if type(inner).__name__ == 'CloneNode':
            self.clone[id(inner.arg)] = r
        return self.e(v)

    def x_CondExprNode(self, n):
        c = self.cond(n.condition)
        want = ctype(n.type)
        a, b = self.conv(n.true_val, want), self.conv(n.false_val, want)
        if want.kind == 'int' and want is not crt.BINT and self.pure_c(n.true_val) and self.pure_c(n.false_val):
            return '__crt__.ite(%s, %s, %s)' % (c, a, b), want
        return '(%s if %s else %s)' % (a, c, b), want

    def x_EvalWithTempExprNode(self, n):
        ref = n.lazy_temp
        x = ref.expression if ref.expression is not None else n.temp_expression
        s, ct = self.fix(self.e(x))
        want = ctype(n.temp_type) if getattr(n, 'temp_type', None) is not None else ct
        if want.kind in ('int', 'float', 'obj'):
            s = self.conv_t(s, ct, want)
            ct = want
        t = self.tmp()
        self.refs[id(ref)] = (t, ct)
        b, bt = self.e(n.subexpression)
        return '__crt__.second((%s := %s), %s)' % (t, s, b), bt

    x_LetNodeMixin = None

    def x_ResultRefNode(self, n):
        r = self.refs.get(id(n))
        if r is None:
            if n.expression is not None:
                return self.e(n.expression)
            raise Unsup('ResultRefNode')
        return r

    def x_NextNode(self, n):
        r = self.refs.get(id(n))
        if r is None:
            raise Unsup('NextNode')
        return r

    def x_AsTupleNode(self, n):
        return '__rt__.call(tuple, %s)' % self.obj(n.arg), crt.OBJ

    def x_TupleNode(self, n):
        return '(%s)' % ''.join(self.obj(a) + ', ' for a in n.args), crt.OBJ

    def x_ListNode(self, n):
        return '[%s]' % ', '.join(self.obj(a) for a in n.args), crt.OBJ

    def x_SetNode(self, n):
        return '{%s}' % ', '.join(self.obj(a) for a in n.args), crt.OBJ

    def x_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.obj(i.key), self.obj(i.value))
                                  for i in n.key_value_pairs), crt.OBJ

    def x_MergedDictNode(self, n):
        return '{%s}' % ', '.join('**' + self.obj(i) if type(i).__name__ != 'DictNode' else
                                  ', '.join('%s: %s' % (self.obj(k.key), self.obj(k.value)) for k in i.key_value_pairs)
                                  for i in n.keyword_args), crt.OBJ

    # comparisons
    def x_PrimaryCmpNode(self, n):
        if n.cascade is not None:
            return self.cascade(n)
        a, ta = self.fix(self.e(n.operand1))
        b, tb = self.fix(self.e(n.operand2))
        s = self.cmp(n.operator, a, ta, b, tb)
        if n.type is not None and n.type.is_pyobject:
            return s, crt.OBJ
        if ta.kind == 'obj' and tb.kind == 'obj' and n.operator not in ('is', 'is_not', 'is not', 'in', 'not_in',
                                                                        'not in'):
            s = '__crt__.truth(%s)' % s
        return s, crt.BINT

    def cmp(self, op, a, ta, b, tb):
        op = op.replace('_', ' ')
        if ta.kind == 'obj' or tb.kind == 'obj':
            if op == 'in':
                return '__rt__.contains(%s, %s)' % (a, b)
            if op == 'not in':
                return '__crt__.lnot(__crt__.truth(__rt__.contains(%s, %s)))' % (a, b)
            return '(%s %s %s)' % (a, op, b)
        if ta.kind in ('ptr', 'arr') or tb.kind in ('ptr', 'arr'):
            if ta.kind == 'int' and a == '0':
                a = '__crt__.NULL'
            if tb.kind == 'int' and b == '0':
                b = '__crt__.NULL'
            if op in ('==', 'is'):
                return '__crt__.peq(%s, %s)' % (a, b)
            if op in ('!=', 'is not'):
                return '__crt__.lnot(__crt__.peq(%s, %s))' % (a, b)
            raise Unsup('pointer comparison')
        if ta.kind == 'int' and tb.kind == 'int':
            r = crt.usual(ta, tb)
            if not r.signed:
                a, b = self.conv_t(a, ta, r), self.conv_t(b, tb, r)
            if ta is crt.BINT:
                a = '__crt__.i(%s)' % a
            if tb is crt.BINT:
                b = '__crt__.i(%s)' % b
        if op == 'is':
            op = '=='
        if op == 'is not':
            op = '!='
        return '(%s %s %s)' % (a, op, b)

    def cascade(self, n):
        parts = []
        a, ta = self.fix(self.e(n.operand1))
        op, nxt, c = n.operator, n.operand2, n.cascade
        while True:
            b, tb = self.fix(self.e(nxt))
            if c is not None and not re.match(r'^[\w.]+$', b):
                t = self.tmp()
                parts.append(self.cmp(op, a, ta, '(%s := %s)' % (t, b), tb))
                b = t
            else:
                parts.append(self.cmp(op, a, ta, b, tb))
            if c is None:
                break
            a, ta = b, tb
            op, nxt, c = c.operator, c.operand2, c.cascade
        return '(%s)' % ' and '.join(parts), crt.OBJ if n.type.is_pyobject else crt.BINT

    # indexing
    def x_IndexNode(self, n):
        b, bt = self.e(n.base)
        if bt.kind == 'tup':
            k = int(n.index.constant_result)
            return '%s[%d]' % (b, k), bt.base[k]
        if bt.kind in ('ptr', 'arr'):
            i, it = self.fix(self.e(n.index))
            if it.kind != 'int':
                raise Unsup('C index')
            return '__crt__.load(%s, __crt__.i(%s))' % (b, i), bt.base
        i = self.obj(n.index)
        if n.type is not None and not n.type.is_pyobject:
            ct = ctype(n.type)
            return '__crt__.w(__rt__.getitem(%s, %s), %d, %r)' % (b, i, 8 * ct.size, ct.signed), ct
        return '__rt__.getitem(%s, %s)' % (b, i), crt.OBJ

    def x_SliceNode(self, n):
        return 'slice(%s, %s, %s)' % (self.obj(n.start), self.obj(n.stop), self.obj(n.step)), crt.OBJ

    def x_SliceIndexNode(self, n):
        b, bt = self.e(n.base)
        lo = self.obj(n.start) if n.start is not None else 'None'
        hi = self.obj(n.stop) if n.stop is not None else 'None'
        if bt.kind == 'obj':
            return '__rt__.getitem(%s, slice(%s, %s, None))' % (b, lo, hi), crt.OBJ
        raise Unsup('slice of a pointer')

    # calls
    def x_SimpleCallNode(self, n):
        f = n.function
        ft = f.type
        if ft is not None and ft.is_ptr and ft.base_type.is_cfunction:
            ft = ft.base_type
        if ft is not None and ft.is_cfunction:
            return self.ccall(n, f, ft)
        if n.arg_tuple is not None:
            at = n.arg_tuple
            while type(at).__name__ in ('CoerceToTempNode', 'ProxyNode', 'NoneCheckNode'):
                at = at.arg
            if type(at).__name__ == 'TupleNode':
                args = [self.obj(a) for a in at.args]
            else:
                args = ['*' + self.obj(n.arg_tuple)]
        else:
            args = [self.obj(a) for a in n.args]
        s = self.pycall(self.obj(f), args)
        if n.type is not None and not n.type.is_pyobject:
            ct = ctype(n.type)
            return self.from_py(s, ct), ct
        return s, crt.OBJ

    def pycall(self, f, args):
        if f in ('super', 'globals', 'locals', 'vars', 'dir'):
            return '%s(%s)' % (f, ', '.join(args))
        return '__rt__.call(%s)' % ', '.join([f] + args)

    def x_GeneralCallNode(self, n):
        pos = n.positional_args
        while type(pos).__name__ in ('CoerceToTempNode', 'ProxyNode', 'NoneCheckNode'):
            pos = pos.arg
        if type(pos).__name__ == 'TupleNode':
            args = [self.obj(a) for a in pos.args]
        else:
            args = ['*' + self.obj(pos)]
        if n.keyword_args is not None:
            if type(n.keyword_args).__name__ == 'DictNode' and all(
                    type(i.key).__name__ in ('IdentifierStringNode', 'UnicodeNode')
                    for i in n.keyword_args.key_value_pairs):
                args += ['%s=%s' % (i.key.value, self.obj(i.value)) for i in n.keyword_args.key_value_pairs]
            else:
                args.append('**' + self.obj(n.keyword_args))
        return self.pycall(self.obj(n.function), args), crt.OBJ

    x_PyMethodCallNode = None

    def ccall(self, n, f, ft):
        k = type(f).__name__
        args = list(n.args)
        formals = list(ft.args)
        entry = getattr(f, 'entry', None)
        ret = ctype(ft.return_type)
        sc = entry.scope if entry is not None else None
        if k == 'NameNode' and sc is not None and (getattr(sc, 'is_builtin_scope', False)):
            if str(f.name) == 'divmod' and ret.kind == 'tup':
                a = [self.conv(x, t) for x, t in zip(args, ret.base)]
                t = ret.base[0]
                return '__crt__.cdivmod(%s, %s, %d, %r)' % (a[0], a[1], 8 * t.size, t.signed), ret
            a = [self.obj(x) for x in args]
            name = {'unicode': 'str'}.get(str(f.name), str(f.name))
            s = self.pycall(name, a)
            if str(f.name) == 'abs' and ret.kind == 'int':
                raise Unsup('C abs')
            return s, (crt.BINT if str(ft.return_type) == 'bint' else ret)
        if k == 'PythonCapiFunctionNode':
            raise Unsup('C-API call')
        if k == 'AttributeNode' and f.obj.type is not None and f.obj.type.is_builtin_type:
            a = [self.obj(x) for x in args]
            o = f.obj
            while type(o).__name__ in ('CloneNode', 'CMethodSelfCloneNode', 'CoerceToTempNode', 'NoneCheckNode'):
                o = o.arg
            skip = len(args) - len(n.args)
            if len(args) and len(args) == len(ft.args):
                a = a[1:]
            s = '__rt__.call(%s.%s)' % (self.par(o), ', '.join([str(f.attribute)] + a))
            if ret.kind == 'obj':
                return s, ret
            return '__crt__.builtin_result(%s)' % s, ret
        if entry is not None and (entry.visibility == 'extern' or sc is not None and sc.is_module_scope and
                                  sc.qualified_name.startswith('libc')):
            return self.extern_call(entry, ft, args, ret)
        skip = 0
        if k == 'AttributeNode' and entry is not None and entry.is_cmethod and not getattr(
                f, 'is_unbound_cmethod', False) and f.obj.type.is_extension_type and \
                not (type(f.obj).__name__ == 'NameNode' and f.obj.entry is not None and f.obj.entry.is_type):
            skip = 1
            fs = self.selfcall(n, f, entry)
        else:
            fs = self.e(f)[0]
        vals = []
        for a, fo in zip(args[skip:], formals[skip:]):
            s, ct = self.fix(self.e(a))
            vals.append(self.conv_t(s, ct, ctype(fo.type)))
        if len(args) > len(formals):
            raise Unsup('varargs')
        return '%s(%s)' % (fs, ', '.join(vals)), ret

    def selfcall(self, n, f, entry):
        """receiver of a C method call; the node keeps it in coerced_self / self"""
        o = f.obj
        src = n.self if getattr(n, 'self', None) is not None else o
        while type(o).__name__ in ('CloneNode', 'CMethodSelfCloneNode', 'CoerceToTempNode'):
            o = o.arg
        s = self.t(o)
        if not re.match(r'^[\w.()]+$', s):
            s = '(%s)' % s
        return '%s.%s' % (s, self.method_name(entry, str(f.attribute)))

    def extern_call(self, entry, ft, args, ret):
        cname = str(entry.cname)
        if cname in crt.EXT:
            vals = []
            for a, fo in zip(args, ft.args):
                s, ct = self.fix(self.e(a))
                want = ctype(fo.type)
                vals.append(self.conv_t(s, ct, want))
            s = '__crt__.EXT[%r](%s)' % (cname, ', '.join(vals))
            if ft.exception_value is not None and ret.kind == 'int':
                s = '__crt__.errcheck(%s, %s)' % (s, int(str(ft.exception_value)))
            return s, ret
        vals = []
        types = []
        for a, fo in zip(args, ft.args):
            s, ct = self.fix(self.e(a))
            want = ctype(fo.type)
            if want.kind == 'obj':
                vals.append(self.conv_t(s, ct, want))
                types.append(self.cobj(fo.type))
            elif want.kind == 'ptr':
                vals.append(self.conv_t(s, ct, want))
                types.append(self.cname_of(want))
            else:
                # macros see the type of the actual argument
                if ct is crt.BINT:
                    s, ct = '__crt__.i(%s)' % s, crt.I32
                vals.append(s)
                types.append(self.cname_of(ct))
        if ret.kind in ('obj', 'ptr'):
            k = self.ext(cname, 'PyObject*' if ret.kind == 'obj' else self.cname_of(ret), types)
            return '_x%d(%s)' % (k, ', '.join(vals)), ret
        k = self.ext(cname, None, types)
        return '_x%d(%s)' % (k, ', '.join(vals)), ('const', k)

    def cname_of(self, ct):
        if ct.kind == 'int':
            return {(1, True): 'signed char', (1, False): 'unsigned char', (2, True): 'short',
                    (2, False): 'unsigned short', (4, True): 'int', (4, False): 'unsigned int', (8, True): 'long',
                    (8, False): 'unsigned long'}[(ct.size, ct.signed)]
        if ct.kind == 'ptr':
            return self.cname_of(ct.base) + '*'
        if ct.kind == 'void':
            return 'void'
        if ct.kind == 'float':
            return 'double' if ct.size == 8 else 'float'
        raise Unsup('C name of %r' % ct)

    def cobj(self, typ):
        """C type of an object argument; extension objects are seen as structs by the macros"""
        if typ.is_extension_type and not typ.is_builtin_type:
            name = typ.objstruct_cname or ('obj_' + typ.name)
            fields = []
            # flatten: base object, vtable, then the attributes in order
            chain = []
            t = typ
            while t is not None and t.is_extension_type and not t.is_builtin_type:
                chain.insert(0, t)
                t = t.base_type
            decl = ['PyObject_HEAD', 'void *__pyx_vtab;']
            idx = 2
            for t in chain:
                for en in t.scope.var_entries:
                    c = ctype(en.type)
                    if c.kind == 'obj':
                        decl.append('PyObject *%s;' % en.cname)
                    else:
                        decl.append('%s %s;' % (self.cname_of(c), en.cname))
                    llir.FIELDS[('%struct.' + name, idx)] = '_c_%s' % en.name
                    idx += 1
            self.structs[name] = 'struct %s { %s };' % (name, ' '.join(decl))
            return 'struct %s*' % name
        return 'PyObject*'

    structs = {}

    def x_PythonCapiCallNode(self, n):
        name = str(n.function.cname if hasattr(n.function, 'cname') else getattr(n.function, 'name', ''))
        if name in ('__Pyx_PEP560_update_bases',):
            return self.e(n.args[0])
        raise Unsup('C-API call ' + name)

    def x_ImportNode(self, n):
        name = n.module_name
        name = str(name.value) if hasattr(name, 'value') else str(name)
        if n.level and n.level > 0:
            raise Unsup('relative import')
        top = n.imported_names is None and not n.is_import_as_name
        return '__crt__.import_(%r, %r)' % (name, bool(top)), crt.OBJ

    def x_PyCFunctionNode(self, n):
        d = n.def_node
        name = self.pyfuncs.get(id(d))
        if name is None:
            raise Unsup('function object of %s' % d.name)
        return name, crt.OBJ

    x_InnerFunctionNode = x_PyCFunctionNode

    def x_LambdaNode(self, n):
        raise Unsup('lambda')

    def x_JoinedStrNode(self, n):
        parts = []
        for v in n.values:
            if type(v).__name__ == 'FormattedValueNode':
                parts.append(self.fmt(v))
            else:
                parts.append(self.obj(v))
        return '__rt__.joinstr(%s)' % ', '.join(parts), crt.OBJ

    def fmt(self, v):
        conv = v.conversion_char
        spec = self.obj(v.format_spec) if v.format_spec is not None else "''"
        x, ct = self.fix(self.e(v.value))
        if ct is crt.BINT:
            x = '__crt__.to_bool(%s)' % x
        c = {None: -1, 's': ord('s'), 'r': ord('r'), 'a': ord('a'), 'd': -1}.get(conv, -1)
        return '__rt__.fmt(%s, %d, %s)' % (x, c, spec)

    def x_FormattedValueNode(self, n):
        return '__rt__.joinstr(%s)' % self.fmt(n), crt.OBJ

    def x_ComprehensionNode(self, n):
        if n.type is None or str(n.type.name) != 'list':
            raise Unsup('comprehension')
        return '[%s]' % self.comp(n.loop), crt.OBJ

    def x_InlinedGeneratorExpressionNode(self, n):
        raise Unsup('generator expression')

    def comp(self, loop):
        clauses = []
        n = loop
        while True:
            k = type(n).__name__
            if k == 'StatListNode' and len(n.stats) == 1:
                n = n.stats[0]
            elif k == 'ForInStatNode':
                if n.else_clause is not None:
                    raise Unsup('comprehension')
                t = self.tmp()
                it = self.iter(n.iterator)
                self.refs[id(n.item if type(n.item).__name__ == 'NextNode' else self.next_of(n.item))] = (t, crt.OBJ)
                tgt = n.target
                if type(tgt).__name__ != 'NameNode':
                    raise Unsup('comprehension target')
                clauses.append('for %s in %s for %s in (%s,)' % (t, it, tgt.name, self.conv(n.item, ctype(tgt.type))))
                n = n.body
            elif k == 'IfStatNode' and n.else_clause is None and len(n.if_clauses) == 1:
                clauses.append('if ' + self.cond(n.if_clauses[0].condition))
                n = n.if_clauses[0].body
            elif k == 'ComprehensionAppendNode':
                return '%s %s' % (self.obj(n.expr), ' '.join(clauses))
            elif k == 'ExprStatNode' and type(n.expr).__name__ == 'YieldExprNode':
                return '%s %s' % (self.obj(n.expr.arg), ' '.join(clauses))
            else:
                raise Unsup('comprehension body %s' % k)

    def next_of(self, item):
        while type(item).__name__ != 'NextNode':
            item = item.arg
        return item

    def iter(self, it):
        return self.obj(it.sequence)

    def x_GeneratorExpressionNode(self, n):
        raise Unsup('generator expression')

    def x_YieldExprNode(self, n):
        return '(yield %s)' % (self.obj(n.arg) if n.arg is not None else 'None'), crt.OBJ

    def x_ExcValueNode(self, n):
        raise Unsup('exception value')

    def x_DefaultLiteralArgNode(self, n):
        return self.e(n.arg)

    def x_TypeTestNode(self, n):
        raise Unsup('type test')

    # -- statements ----------------------------------------------------------------------
    def s(self, n):
        if n is None:
            return
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsup('statement %s' % type(n).__name__)
        m(n)

    def body(self, n):
        self.ind += 1
        k = len(self.out)
        self.s(n)
        if len(self.out) == k:
            self.line('pass')
        self.ind -= 1

    def s_StatListNode(self, n):
        for x in n.stats:
            self.s(x)

    def s_CompilerDirectivesNode(self, n):
        self.s(n.body)

    def nothing(self, n):
        pass

    s_CImportStatNode = s_FromCImportStatNode = s_CDefExternNode = s_CTypeDefNode = s_PassStatNode = nothing
    s_CVarDefNode = s_CEnumDefNode = s_CStructOrUnionDefNode = s_GlobalNode = s_NonlocalNode = nothing
    s_CriticalSectionExitNode = s_OverrideCheckNode = s_AnnotationNode = nothing

    def s_CriticalSectionStatNode(self, n):
        self.s(n.body)

    def s_GILStatNode(self, n):
        self.s(n.body)

    def s_ExprStatNode(self, n):
        if type(n.expr).__name__ in ('NoneNode',):
            return
        self.line(self.e(n.expr)[0])

    def s_SingleAssignmentNode(self, n):
        lhs, rhs = n.lhs, n.rhs
        if type(rhs).__name__ == 'PyCFunctionNode' and id(rhs.def_node) in self.wrapped_defs:
            return
        if type(rhs).__name__ == 'PyCFunctionNode' and id(rhs.def_node) not in self.pyfuncs:
            return
        if type(lhs).__name__ == 'NameNode' and str(lhs.name) in ('__reduce_cython__', '__setstate_cython__'):
            return
        self.assign(lhs, rhs)

    def assign(self, lhs, rhs):
        k = type(lhs).__name__
        if k in ('TupleNode', 'ListNode'):
            self.unpack(lhs, self.obj(rhs))
            return
        want = ctype(lhs.type) if lhs.type is not None else crt.OBJ
        if want.kind == 'arr':
            raise Unsup('array assignment')
        s, ct = self.fix(self.e(rhs))
        self.store(lhs, self.conv_t(s, ct, want))

    def unpack(self, lhs, text):
        ts = []
        items = lhs.unpacked_items
        coerced = lhs.coerced_unpacked_items
        for a in lhs.args:
            ts.append(self.tmp())
        if any(a.is_starred for a in lhs.args if hasattr(a, 'is_starred')):
            raise Unsup('starred assignment')
        self.line('%s = %s' % (''.join(t + ', ' for t in ts), text))
        for a, t, it, co in zip(lhs.args, ts, items, coerced):
            self.refs[id(it)] = (t, crt.OBJ)
            self.clone_item = it
            want = ctype(a.type)
            s, ct = self.unpacked(co, it, t)
            if type(a).__name__ in ('TupleNode', 'ListNode'):
                self.unpack(a, s)
            else:
                self.store(a, self.conv_t(s, ct, want))

    def unpacked(self, co, it, t):
        if co is it:
            return t, crt.OBJ
        if type(co).__name__ == 'CoerceToTempNode':
            return self.unpacked(co.arg, it, t)
        if type(co).__name__ == 'CoerceFromPyTypeNode':
            s, ct = self.unpacked(co.arg, it, t)
            want = ctype(co.type)
            return self.from_py(s, want), want
        if type(co).__name__ == 'PyTypeTestNode':
            s, ct = self.unpacked(co.arg, it, t)
            return '__crt__.typetest(%s, %s, %r)' % (s, self.cls(co.type), not co.notnone), crt.OBJ
        raise Unsup('unpacking to %s' % type(co).__name__)

    def store(self, lhs, text):
        k = type(lhs).__name__
        if k == 'NameNode':
            s, ct = self.x_NameNode(lhs)
            entry = lhs.entry
            if self.in_module() and entry is not None and entry.is_type:
                s = str(lhs.name)
            self.line('%s = %s' % (s, text))
        elif k == 'AttributeNode':
            s, ct = self.x_AttributeNode(lhs)
            self.line('%s = %s' % (s, text))
        elif k == 'IndexNode':
            b, bt = self.e(lhs.base)
            i, it = self.fix(self.e(lhs.index))
            if bt.kind in ('ptr', 'arr'):
                self.line('__crt__.store(%s, __crt__.i(%s), %s)' % (b, i, text))
            else:
                self.line('__rt__.setitem_v(%s, %s, %s)' % (text, b, i))
        else:
            raise Unsup('assignment to %s' % k)

    def in_module(self):
        return self.func is None

    def s_CascadedAssignmentNode(self, n):
        s, ct = self.fix(self.e(n.rhs))
        t = self.tmp()
        self.line('%s = %s' % (t, s))
        for l, r in zip(n.lhs_list, n.coerced_values):
            want = ctype(l.type)
            self.store(l, self.conv_t(t, ct, want))

    def s_ParallelAssignmentNode(self, n):
        ts = []
        for st in n.stats:
            if type(st).__name__ != 'SingleAssignmentNode':
                raise Unsup('parallel assignment')
            s, ct = self.fix(self.e(st.rhs))
            t = self.tmp()
            self.line('%s = %s' % (t, s))
            ts.append((t, ct))
        for st, (t, ct) in zip(n.stats, ts):
            if type(st.lhs).__name__ in ('TupleNode', 'ListNode'):
                self.unpack(st.lhs, t)
            else:
                self.store(st.lhs, self.conv_t(t, ct, ctype(st.lhs.type)))

    def s_InPlaceAssignmentNode(self, n):
        lhs = n.lhs
        want = ctype(lhs.type)
        op = n.operator
        if want.kind == 'obj':
            k = type(lhs).__name__
            r = self.obj(n.rhs)
            if k == 'IndexNode':
                b, i = self.tmp(), self.tmp()
                self.line('%s = %s' % (b, self.obj(lhs.base)))
                self.line('%s = %s' % (i, self.obj(lhs.index)))
                self.line('__rt__.setitem_v(__rt__.getitem(%s, %s) %s %s, %s, %s)' % (b, i, op, r, b, i))
                return
            s = self.e(lhs)[0]
            if op == '%':
                self.line('%s = __rt__.mod(%s, %s)' % (s, s, r))
            else:
                self.line('%s %s= %s' % (s, op, r))
            return
        a, ta = self.fix(self.e(lhs))
        b, tb = self.fix(self.e(n.rhs))
        s, ct = self.arith_t(op, a, ta, b, tb)
        self.store(lhs, self.conv_t(s, ct, want))

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.line('return %s' % (self.func.zero if self.func else 'None'))
            return
        s, ct = self.fix(self.e(n.value))
        self.line('return ' + self.conv_t(s, ct, self.func.ret))

    def s_IfStatNode(self, n):
        for k, c in enumerate(n.if_clauses):
            pre = len(self.out)
            s = self.cond(c.condition)
            self.line('%s %s:' % ('if' if k == 0 else 'elif', s))
            self.body(c.body)
        if n.else_clause is not None:
            self.line('else:')
            self.body(n.else_clause)

    def s_WhileStatNode(self, n):
        if n.condition is None:
            self.line('while True:')
        else:
            self.line('while %s:' % self.cond(n.condition))
        self.body(n.body)
        if n.else_clause is not None:
            self.line('else:')
            self.body(n.else_clause)

    def s_ForInStatNode(self, n):
        t = self.tmp()
        self.line('for %s in %s:' % (t, self.iter(n.iterator)))
        self.refs[id(self.next_of(n.item))] = (t, crt.OBJ)
        self.ind += 1
        tgt = n.target
        if type(tgt).__name__ in ('TupleNode', 'ListNode'):
            self.unpack(tgt, t)
        else:
            s, ct = self.e(n.item)
            self.store(tgt, self.conv_t(s, ct, ctype(tgt.type)))
        self.ind -= 1
        self.body(n.body)
        if n.else_clause is not None:
            self.line('else:')
            self.body(n.else_clause)

    def s_BreakStatNode(self, n):
        self.line('break')

    def s_ContinueStatNode(self, n):
        self.line('continue')

    def s_RaiseStatNode(self, n):
        if n.exc_type is None:
            self.line('raise')
            return
        if n.exc_value is not None:
            self.line('raise %s(%s)' % (self.obj(n.exc_type), self.obj(n.exc_value)))
            return
        c = ''
        if getattr(n, 'cause', None) is not None:
            c = ' from ' + self.obj(n.cause)
        self.line('raise %s%s' % (self.obj(n.exc_type), c))

    def s_ReraiseStatNode(self, n):
        self.line('raise')

    def s_AssertStatNode(self, n):
        cond = getattr(n, 'condition', None)
        if cond is None:
            cond = n.cond
        s = self.cond(cond)
        exc = getattr(n, 'exception', None)
        val = getattr(n, 'value', None)
        self.line('if not (%s):' % s)
        self.ind += 1
        if exc is not None:
            self.s(exc)
        else:
            self.line('raise AssertionError(%s)' % (self.obj(val) if val is not None else ''))
        self.ind -= 1

    def s_DelStatNode(self, n):
        for a in n.args:
            k = type(a).__name__
            if k == 'NameNode' or k == 'AttributeNode':
                self.line('del %s' % self.e(a)[0])
            elif k == 'IndexNode':
                self.line('__rt__.delitem(%s, %s)' % (self.obj(a.base), self.obj(a.index)))
            else:
                raise Unsup('del')

    def s_TryExceptStatNode(self, n):
        self.line('try:')
        self.body(n.body)
        for c in n.except_clauses:
            pat = c.pattern
            if pat:
                pats = [self.obj(p) for p in pat] if isinstance(pat, (list, tuple)) else [self.obj(pat)]
                t = pats[0] if len(pats) == 1 else '(%s)' % ', '.join(pats)
            else:
                t = 'Exception'     # (never the engine's own control flow)
            if c.target is not None:
                if type(c.target).__name__ != 'NameNode':
                    raise Unsup('except target')
                self.line('except %s as %s:' % (t, c.target.name))
            else:
                self.line('except %s:' % t)
            self.body(c.body)
        if n.else_clause is not None:
            self.line('else:')
            self.body(n.else_clause)

    def s_TryFinallyStatNode(self, n):
        self.line('try:')
        self.body(n.body)
        self.line('finally:')
        self.body(n.finally_clause)

    def s_WithStatNode(self, n):
        b = n.body
        # TryFinally(TryExcept(original body, exit and reraise), exit)
        tgt = None
        if type(b).__name__ == 'TryFinallyStatNode':
            b = b.body
        if type(b).__name__ == 'TryExceptStatNode':
            b = b.body
        if type(b).__name__ == 'StatListNode' and b.stats and type(b.stats[0]).__name__ == 'WithTargetAssignmentStatNode':
            tgt = b.stats[0].lhs
            stats = b.stats[1:]
        else:
            stats = [b]
        s = self.obj(n.manager)
        if tgt is not None:
            t = self.tmp()
            self.line('with %s as %s:' % (s, t))
            self.ind += 1
            if type(tgt).__name__ in ('TupleNode', 'ListNode'):
                raise Unsup('with target')
            self.store(tgt, self.conv_t(t, crt.OBJ, ctype(tgt.type)))
            self.ind -= 1
        else:
            self.line('with %s:' % s)
        self.ind += 1
        k = len(self.out)
        for x in stats:
            self.s(x)
        if len(self.out) == k:
            self.line('pass')
        self.ind -= 1

    def s_LetNode(self, n):
        ref = n.lazy_temp
        x = ref.expression if ref.expression is not None else n.temp_expression
        s, ct = self.fix(self.e(x))
        t = self.tmp()
        self.line('%s = %s' % (t, s))
        self.refs[id(ref)] = (t, ct)
        self.s(n.body)

    def s_FromImportStatNode(self, n):
        m = n.module
        name = str(m.module_name.value) if hasattr(m.module_name, 'value') else str(m.module_name)
        items = []
        for nm, target in n.items:
            if type(target).__name__ != 'NameNode':
                raise Unsup('from import')
            en = target.entry
            if en is not None and (en.is_type and en.type.is_extension_type and not en.as_variable and False):
                continue
            items.append((str(nm), target))
        if not items:
            self.line('__crt__.import_(%r, False)' % name)
            return
        self.line('from %s import %s' % (name, ', '.join('%s as %s' % (a, t.name) for a, t in items)))

    # -- functions ---------------------------------------------------------------------------
    def function(self, name, args, body, ret, deco=(), star=None, kw=None, zero='None', kwonly=(), generator=False):
        """args: (name, Cython type, default text or None, declared?, notnone)"""
        f = Func()
        f.boxed = addr_taken(body)
        f.arrays = {}
        f.ret = ret
        f.zero = zero
        saved, self.func = self.func, f
        sub_out, self.out = self.out, []
        ind = self.ind
        self.ind = 1
        ps = []
        sawkw = False
        for k, (an, ty, dflt, decl, notnone) in enumerate(args):
            if an in kwonly and not sawkw and not star:
                ps.append('*')
                sawkw = True
            ps.append(an if dflt is None else '%s=%s' % (an, dflt))
        if star:
            ps.insert(len(args) - len(kwonly), '*' + star)
        if kw:
            ps.append('**' + kw)
        head = 'def %s(%s):' % (name, ', '.join(ps))
        try:
            for an, ty, dflt, decl, notnone in args:
                if ty is None:
                    continue
                ct = ctype(ty)
                if ct.kind == 'obj':
                    if decl and (ty.is_extension_type or ty.is_builtin_type) and str(ty) != 'object':
                        c = self.cls(ty)
                        if c in ('object', 'type', 'bool') and c != 'type':
                            continue
                        self.line('if type(%s) is not %s: __crt__.argtest(%s, %s, %r, %r)' % (an, c, an, c, an, not notnone))
                elif decl == 'py':
                    if ct.kind in ('int', 'float'):
                        self.line('%s = %s' % (an, self.from_py(an, ct)))
                    elif ct.kind != 'ptr':
                        raise Unsup('argument type')
                if an in f.boxed:
                    self.line('_b_%s = %s; %s = __crt__.CArr(%s, 1); %s.v[0] = _b_%s' % (an, an, an, self.ctref(ct), an, an))
            argn = {a[0] for a in args}
            for v in sorted(f.boxed - argn):
                ct = ctype(f_local_type(body, v))
                self.line('%s = __crt__.CArr(%s, 1)' % (v, self.ctref(ct)))
            for v, ty in sorted(array_locals(self.cur_scope).items()) if self.cur_scope is not None else ():
                ct = ctype(ty)
                self.line('%s = __crt__.CArr(%s, %d)' % (v, self.ctref(ct.base), ct.n))
            self.s(body)
            if not self.out or True:
                if zero != 'None':
                    self.line('return %s' % zero)
                else:
                    self.line('pass')
            lines = self.out
        except Unsup as ex:
            lines = ['    __crt__.unsupported(%r)' % ('%s.%s: %s' % (self.modname, name, ex))]
            if generator:
                lines.append('    yield')
            UNSUPPORTED.append((self.modname, name, str(ex)))
        finally:
            self.func = saved
            self.out = sub_out
            self.ind = ind
        for d in deco:
            self.line('@' + d)
        self.line(head)
        for l in lines:
            self.out.append('    ' * self.ind + l)

    cur_scope = None

    def s_CFuncDefNode(self, n, cls=None):
        entry = n.entry
        name = str(entry.name)
        if name.startswith('__pyx_unpickle'):
            return
        ft = entry.type
        args = []
        dargs = n.declarator.args if hasattr(n.declarator, 'args') else n.args
        d = n.declarator
        while not hasattr(d, 'args'):
            d = d.base
        dargs = n.args if getattr(n, 'args', None) else d.args
        overridable = bool(ft.is_overridable)
        for a in dargs:
            dflt = None
            if a.default is not None:
                dflt = self.conv(a.default, ctype(a.type))
            elif getattr(a, 'is_dynamic', False):
                dflt = 'None'
            an = argname(a)
            if an == '__pyx_skip_dispatch':
                continue
            args.append((an, a.type, dflt, 'py' if overridable else False, bool(getattr(a, 'not_none', False))))
        ret = ctype(ft.return_type)
        if n.py_func is not None:
            self.wrapped_defs.add(id(n.py_func))
        deco = []
        zero = {'int': '0', 'float': '0.0'}.get(ret.kind, 'None')
        if ft.exception_value is None and not ft.exception_check and not ft.return_type.is_pyobject:
            deco.append('__crt__.noexcept(%s)' % zero)
        if cls is not None and getattr(ft, 'is_static_method', False):
            deco.insert(0, 'staticmethod')
        self.cur_scope, sv = n.local_scope, self.cur_scope
        pyname = name if cls is None or overridable else '_c_' + name
        if cls is None:
            pyname = name if overridable else '_f_' + name
        body = n.body
        if overridable and type(body).__name__ == 'StatListNode':
            pass
        self.function(pyname, args, body, ret, deco=deco, zero=zero)
        self.cur_scope = sv
        if cls is None:
            self.line('__crt__.register(_C, %r, %r, %s)' % (name, str(entry.func_cname), pyname))
        elif overridable:
            base_c = self.base_cmethod(cls, name)
            if base_c:
                self.line('_c_%s = %s' % (name, name))

    def base_cmethod(self, cls, name):
        t = cls.entry.type.base_type
        while t is not None and t.is_extension_type and t.scope is not None:
            e = t.scope.lookup_here(name)
            if e is not None and e.is_cmethod and not e.type.is_overridable:
                return True
            t = t.base_type
        return False

    def defnode(self, n, name, deco=()):
        args = []
        for a in n.args:
            dflt = None
            if a.default is not None:
                dflt = self.conv(a.default, ctype(a.type)) if not a.type.is_pyobject else self.obj(a.default)
            an = argname(a)
            args.append((an, a.type, dflt, 'py', bool(getattr(a, 'not_none', False))))
        kwonly = [a[0] for a, b in zip(args, n.args) if b.kw_only]
        star = str(n.star_arg.name) if n.star_arg is not None else None
        kw = str(n.starstar_arg.name) if n.starstar_arg is not None else None
        body = n.body
        gen = False
        if type(n).__name__ == 'GeneratorDefNode':
            body = n.gbody.body
            gen = True
        self.cur_scope, sv = n.local_scope if not gen else None, self.cur_scope
        self.function(name, args, body, crt.OBJ, deco=deco, star=star, kw=kw, kwonly=kwonly, generator=gen)
        self.cur_scope = sv

    def s_DefNode(self, n):
        if id(n) in self.wrapped_defs or str(n.name) in ('__reduce_cython__', '__setstate_cython__') or \
                str(n.name).startswith('__pyx_unpickle'):
            return
        name = self.tmp('_d_%s_' % n.name)
        self.defnode(n, name)
        self.pyfuncs[id(n)] = name
        self.line('%s.__name__ = %r' % (name, str(n.name)))
        q = n.entry.qualified_name if n.entry is not None and getattr(n.entry, 'qualified_name', None) else None
        if n.needs_assignment_synthesis(n.local_scope.outer_scope) if False else False:
            pass

    s_GeneratorDefNode = s_DefNode

    def s_IndirectionNode(self, n):
        for x in n.stats:
            self.s(x)

    def s_PyClassDefNode(self, n):
        bases = []
        b = n.bases
        if b is not None:
            while type(b).__name__ in ('PythonCapiCallNode', 'CoerceToTempNode', 'ProxyNode', 'CloneNode'):
                b = b.args[0] if hasattr(b, 'args') and b.args else b.arg
            if type(b).__name__ == 'TupleNode':
                bases = [self.obj(x) for x in b.args]
            else:
                bases = ['*' + self.obj(b)]
        mkw = getattr(n, 'mkw', None)
        if mkw is not None and type(mkw).__name__ not in ('NullNode',):
            raise Unsup('class keywords')
        self.line('class %s(%s):' % (n.name, ', '.join(bases)))
        fs, self.func = self.func, None
        self.inclass, sv = True, getattr(self, 'inclass', False)
        self.body(n.body)
        self.inclass = sv
        self.func = fs

    def s_CClassDefNode(self, n):
        entry = n.entry
        typ = entry.type
        if n.body is None:
            return
        base = '__crt__.CObject'
        bt = typ.base_type
        if bt is not None and bt.is_extension_type and not bt.is_builtin_type:
            base = self.cls(bt)
        elif bt is not None and bt.is_builtin_type and bt.name != 'object':
            raise Unsup('cdef class derived from %s' % bt.name)
        # bases which are not cdef classes
        if n.bases is not None and len(n.bases.args) > 1:
            raise Unsup('several bases')
        name = str(n.class_name)
        self.line('class %s(%s%s):' % (name, base, ', metaclass=__crt__.CMeta' if base == '__crt__.CObject' else ''))
        self.ind += 1
        slots = []
        init = []
        own = [e for e in typ.scope.var_entries if not getattr(e, 'is_inherited', False) and e.visibility != 'static']
        basescope = bt.scope if bt is not None and bt.is_extension_type else None
        for e in own:
            if e.name is None or str(e.name).startswith('__pyx'):
                continue
            if basescope is not None and basescope.lookup_here(e.name) is not None and basescope.lookup_here(
                    e.name).type is e.type and e.is_inherited:
                continue
            ct = ctype(e.type)
            slots.append('_c_' + str(e.name))
            z = {'int': '0', 'float': '0.0', 'ptr': '__crt__.NULL'}.get(ct.kind, 'None')
            if ct.kind == 'arr':
                raise Unsup('array attribute')
            init.append('(%r, %s)' % ('_c_' + str(e.name), z))
        self.line('_c_ext = %r' % name)
        self.line('__slots__ = (%s)' % ''.join('%r, ' % s for s in slots))
        self.line('_c_init = (%s)' % ''.join('%s, ' % s for s in init))
        fs, self.func = self.func, None
        self.cclass(n.body, n)
        self.line('__crt__.add_richcmp(locals())')
        self.func = fs
        self.ind -= 1
        self.line('_C.%s = %s' % (name, name))

    def cclass(self, body, n):
        for st in body.stats if hasattr(body, 'stats') else [body]:
            k = type(st).__name__
            if k in ('StatListNode', 'CompilerDirectivesNode', 'IndirectionNode'):
                self.cclass(st.body if k == 'CompilerDirectivesNode' else st, n)
            elif k == 'CFuncDefNode':
                self.s_CFuncDefNode(st, n)
            elif k in ('DefNode', 'GeneratorDefNode'):
                name = str(st.name)
                if id(st) in self.wrapped_defs or name in ('__reduce_cython__', '__setstate_cython__'):
                    continue
                if st.entry is not None and st.entry.is_special or name in ('__cinit__', '__dealloc__'):
                    if name == '__dealloc__':
                        raise Unsup('__dealloc__')
                    if name == '__cinit__':
                        self.defnode(st, '_f_cinit')
                        noargs = len(st.args) == 1 and st.star_arg is None
                        self.line('_c_cinit = (_f_cinit, %r)' % noargs)
                        continue
                    self.defnode(st, name)
                    if name == '__nonzero__':
                        self.line('__bool__ = __nonzero__')
                    if name in ('__getitem__',) or True:
                        self.pyfuncs[id(st)] = name
                else:
                    self.defnode(st, name)
                    self.pyfuncs[id(st)] = name
            elif k == 'PropertyNode':
                self.prop(st)
            elif k == 'SingleAssignmentNode':
                if type(st.rhs).__name__ == 'PyCFunctionNode' and self.pyfuncs.get(id(st.rhs.def_node)) == str(
                        getattr(st.lhs, 'name', None)):
                    continue
                self.s(st)
            else:
                self.s(st)

    def prop(self, n):
        b = n.body
        got = {}
        for st in b.stats if type(b).__name__ == 'StatListNode' else [b]:
            if type(st).__name__ == 'DefNode':
                fn = '_p_%s_%s' % (n.name, str(st.name).strip('_'))
                self.defnode(st, fn)
                got[str(st.name)] = fn
            else:
                raise Unsup('property')
        self.line('%s = property(%s, %s, %s)' % (n.name, got.get('__get__', 'None'), got.get('__set__', 'None'),
                                                 got.get('__del__', 'None')))

    s_PropertyNode = prop

    # -- whole module ---------------------------------------------------------------------------
    def text(self):
        # (extern constants need their C types before the text is made: two passes)
        self.info = {}
        self.run()
        for n in range(4):
            done = len(self.info)
            if len(self.ext_requests) == done:
                break
            self.compile_ext()
            self.run()
        else:
            raise Unsup('extern functions')
        head = ['from symex import rt as __rt__', 'from symex import crt as __crt__', '_C = __crt__.space(%r)' % self.modname]
        for k in range(len(self.ext_requests)):
            cname, ret, args = self.ext_requests[k]
            if args is None:
                head.append('_x%d = %d' % (k, self.constval(k)))
            else:
                head.append('_x%d = _LL.func("w_%d")' % (k, k))
                if ret is None:
                    size, signed = self.info[k]
                    if not signed or size < 4:
                        head.append('_x%d = (lambda f: lambda *a: __crt__.w(f(*a), %d, %r))(_x%d)' % (k, 8 * size, signed, k))
        return '\n'.join(head + self.pre + self.out) + '\n'

    def constval(self, k):
        v = self.ll.func('w_%d' % k)()
        size, signed = self.info[k]
        return crt.w(v, 8 * size, signed)

    def const_info(self, k):
        return self.info.get(k, (8, True))

    def run(self):
        self.out = []
        self.refs = {}
        self.clone = {}
        self.pyfuncs = {}
        self.wrapped_defs = set()
        self.pre = []
        self.classes = {}
        del UNSUPPORTED[:]
        self.collect(self.tree.body)
        try:
            self.s(self.tree.body)
        except Unsup as ex:
            raise Unsupported('%s: %s' % (self.modname, ex))

    def collect(self, n):
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                self.collect(x)
            return
        if type(n).__name__ == 'CFuncDefNode' and n.py_func is not None:
            self.wrapped_defs.add(id(n.py_func))
        for a in ('body', 'stats', 'if_clauses', 'else_clause'):
            if hasattr(n, a) and type(n).__name__ not in ('DefNode', 'CFuncDefNode'):
                self.collect(getattr(n, a))

    def compile_ext(self):
        incs = []
        for m in [self.scope] + list(self.scope.cimported_modules):
            for inc in getattr(m, 'c_includes', {}).values() if hasattr(getattr(m, 'c_includes', None), 'values') else ():
                for pc in inc.pieces.values():
                    t = str(pc).strip()
                    mm = re.match(r'#include\s+([<"][^>"]+[>"])', t)
                    if mm and mm.group(1) not in incs:
                        incs.append(mm.group(1))
        repo_incs = []
        for x in incs:
            b = x[1:-1]
            for d in ('capnpy', 'capnpy/segment', ''):
                if os.path.exists(os.path.join(REPO, d, b)):
                    repo_incs.append('"%s"' % b)
                    break
        self.ll = llir.Lib(REPO, pyinc()).compile(repo_incs, list(self.structs.values()), self.ext_requests)
        for k, (cname, ret, args) in enumerate(self.ext_requests):
            self.info[k] = self.ll.info(k) if ret is None else (8, True)


_pyinc = []


def pyinc():
    if not _pyinc:
        _pyinc.append(subprocess.run(['/opt/venv/bin/python', '-c',
                                      'import sysconfig; print(sysconfig.get_paths()["include"])'],
                                     stdout=subprocess.PIPE).stdout.decode().strip())
    return _pyinc[0]


UNSUPPORTED = []


class Func(object):
    pass


def argname(a):
    en = getattr(a, 'entry', None)
    if en is not None and en.name:
        return str(en.name)
    if getattr(a, 'name', None):
        return str(a.name)
    d = a.declarator
    while not getattr(d, 'name', None):
        d = d.base
    return str(d.name)


def walk(n):
    if n is None:
        return
    if isinstance(n, list):
        for x in n:
            for y in walk(x):
                yield y
        return
    yield n
    for a in n.child_attrs or ():
        for y in walk(getattr(n, a, None)):
            yield y


def addr_taken(body):
    r = set()
    for n in walk(body):
        if type(n).__name__ == 'AmpersandNode' and type(n.operand).__name__ == 'NameNode':
            r.add(str(n.operand.name))
    return r


def f_local_type(body, name):
    for n in walk(body):
        if type(n).__name__ == 'NameNode' and str(n.name) == name:
            return n.type
    raise Unsup('type of ' + name)


def array_locals(scope):
    r = {}
    for e in getattr(scope, 'var_entries', ()):
        if e.type is not None and e.type.is_array and e.name:
            r[str(e.name)] = e.type
    return r


class CyLoader(importlib.abc.Loader):

    def __init__(self, filename, name):
        self.filename = filename
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        em = Emitter(self.filename, self.name)
        text = em.text()
        fn = 'cyx:' + (os.path.relpath(self.filename, REPO) if self.filename.startswith(REPO + '/')
                       else os.path.basename(self.filename))
        if os.environ.get('CYX_DUMP'):
            with open(os.path.join(os.environ['CYX_DUMP'], self.name + '.txt'), 'w') as f:
                f.write(text)
            for u in UNSUPPORTED:
                print('unsupported', u, file=sys.stderr)
        module.__file__ = self.filename
        module.__dict__['_LL'] = getattr(em, 'll', None)
        import linecache
        linecache.cache[fn] = (len(text), None, text.splitlines(True), fn)
        exec(compile(text, fn, 'exec', dont_inherit=True), module.__dict__)

"""The interface between a harness and the engine (symbolic side).

The concrete twin, with the same methods, is in symex/replay.py.
"""
import sys
import z3
from symex import core, crt, data, rt, symstr
from symex.core import SymBase, SymInt, SymBool


class SymCtx(object):
    symbolic = True

    def __init__(self, eng, mode, params, known=()):
        self.eng = eng
        self.mode = mode
        self.pyx = mode == 'pyx'
        self.params = params
        self.outs = []
        self.known_ids = set(known)
        eng.outs = self.outs

    # inputs
    def int(self, name, lo, hi):
        return self.eng.int_var(name, lo, hi)

    def bool(self, name):
        return self.eng.bool_var(name)

    def bytes(self, name, n):
        return data.sym_bytes(name, n)

    def choice(self, name, options):
        options = list(options)
        i = self.eng.int_var(name, 0, len(options) - 1)
        return options[core.concretize(i, 4000)]

    def float(self, name, w):
        bits = self.eng.int_var(name, 0, (1 << w) - 1)
        return data.SymFloat(bits, w)

    def text(self, name, n, lo=0, hi=0x10ffff):
        cp = []
        for i in range(n):
            c = self.eng.int_var('%s[%d]' % (name, i), lo, hi)
            if lo <= 0xdfff and hi >= 0xd800:
                self.eng.assume(core.b_or(c < 0xd800, c > 0xdfff))
            cp.append(c)
        return symstr.mkstr(cp)

    def pack(self, cells):
        """a byte string from byte values"""
        return data.mkbytes(list(cells))

    # assertions
    def assume(self, c):
        self.eng.assume(rt.to_bool(c))

    def check(self, c, msg):
        self.eng.prove(rt.to_bool(c), msg)

    def known(self, kid, bad):
        """is kid a listed finding (and bad, its specific condition, possible here)?"""
        if kid in self.known_ids:
            if self.eng.possible(rt.to_bool(bad)):
                self.eng.reach('KNOWN:' + kid)
            return True
        return False

    def fail(self, msg):
        self.eng.prove(False, msg)

    def reach(self, label):
        self.eng.reach(label)

    def out(self, *vals):
        self.outs.extend(vals)

    def stack(self, n):
        """how many nested recursive calls the interpreter allows"""
        self.eng.rec_limit = n

    def guarded(self, fn, *args):
        """(True, result) or (False, exception); only recursion without a limit is not acceptable"""
        depth = 0
        f = sys._getframe()
        while f is not None:
            depth += 1
            f = f.f_back
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(depth + 500)
        try:
            return True, rt.call(fn, *args)
        except RecursionError as e:
            if not isinstance(e, crt.ModelRecursionError):
                sys.setrecursionlimit(old)
                self.eng._fail('memory: unbounded recursion')
            return False, e
        except Exception as e:
            return False, e
        finally:
            sys.setrecursionlimit(old)

    def generate(self, fn, *args):
        """the result of fn, which generates code: symbolic values appear in it as names"""
        rt.TOKENS = {}
        try:
            return fn(*args)
        finally:
            self.tokens = rt.TOKENS
            rt.TOKENS = None

    def execute(self, src, name, ns):
        """run generated code"""
        from symex import loader
        ns.update(self.tokens)
        exec(loader.inst_compile(str(src), '%s/<generated>/%s.py' % (loader.REPO, name), 'exec'), ns)
        return ns

    def denoted(self, word):
        """the number which a word of the text given by ``generate`` denotes"""
        if word in self.tokens:
            return self.tokens[word]
        try:
            return int(word)
        except ValueError:
            return float(word)

    # helpers which do not fork
    def ite(self, c, a, b):
        return core.ite(rt.to_bool(c), a, b)

    def all(self, *cs):
        r = True
        for c in cs:
            r = core.b_and(r, rt.to_bool(c))
        return r

    def any(self, *cs):
        r = False
        for c in cs:
            r = core.b_or(r, rt.to_bool(c))
        return r

    def not_(self, c):
        return core.not_(rt.to_bool(c))

    def implies(self, a, b):
        return core.implies(rt.to_bool(a), rt.to_bool(b))

    def iff(self, a, b):
        return core.iff(rt.to_bool(a), rt.to_bool(b))

    def float_bits(self, v, w):
        return data.float_bits(v, w)

    def same_float(self, v, bits, w):
        """is v the number with this w-bit pattern?"""
        if isinstance(v, data.SymFloat) or isinstance(v, float):
            return core.eq(data.float_bits(v, w), bits)
        return False

    def force(self, x):
        """case split on the value"""
        if isinstance(x, (SymInt, SymBool)):
            return core.concretize(x)
        return x

    def le(self, cells):
        return core.concat_le(list(cells))

    def is_sym(self, x):
        return isinstance(x, SymBase)

    def pickle(self, x, proto):
        """what pickle makes of x: the reduce protocol, applied to the real methods"""
        return _Pickle(proto).clone(x)

    def deepcopy(self, x):
        return _Pickle(4).clone(x)


class _Pickle(object):

    def __init__(self, proto):
        self.proto = proto
        self.memo = {}

    def glob(self, x):
        import pickle
        import sys
        m = sys.modules.get(x.__module__)
        o = m
        for part in x.__qualname__.split('.'):
            o = getattr(o, part, None)
        if o is not x:
            raise pickle.PicklingError("Can't pickle %r: not found as %s.%s" % (x, x.__module__, x.__qualname__))
        return x

    def clone(self, x):
        import types
        if id(x) in self.memo:
            return self.memo[id(x)][0]
        r = self._clone(x)
        self.memo[id(x)] = (r, x)
        return r

    def _clone(self, x):
        import types
        if isinstance(x, data.SymByteArray):
            raise core.Unsupported('pickle of a bytearray')
        if isinstance(x, (core.SymInt, SymBool, data.SymBytesBase, data.SymFloat, symstr.SymStr)):
            return x
        if x is None or type(x) in (int, str, bytes, float, bool):
            return x
        if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType)):
            return self.glob(x)
        if type(x) is tuple:
            return tuple([self.clone(y) for y in x])
        if type(x) is list:
            return [self.clone(y) for y in x]
        if type(x) is dict:
            return dict((self.clone(k), self.clone(v)) for k, v in x.items())
        rv = x.__reduce_ex__(self.proto)
        if isinstance(rv, str) or len(rv) > 3 and any(y is not None for y in rv[3:]):
            raise core.Unsupported('reduce of %s' % type(x).__name__)
        f = self.clone(rv[0])
        r = rt.call(f, *self.clone(tuple(rv[1])))
        if len(rv) > 2 and rv[2] is not None:
            st = self.clone(rv[2])
            if hasattr(r, '__setstate__'):
                r.__setstate__(st)
            else:
                if isinstance(st, tuple) and len(st) == 2:
                    for k, v in (st[1] or {}).items():
                        setattr(r, k, v)
                    st = st[0]
                if st:
                    r.__dict__.update(st)
        return r


def _flt(v):
    return 'nan' if v != v else 'f' + v.hex()


def evaluate(m, v):
    """JSON-able value of v under a model"""
    if isinstance(v, SymInt):
        r = m.eval(v.e, model_completion=True).as_signed_long()
        return r
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, data.SymFloat):
        import struct
        b = evaluate(m, v.bits)
        if v.w == 32:
            return _flt(struct.unpack('<f', struct.pack('<I', b))[0])
        return _flt(struct.unpack('<d', struct.pack('<Q', b))[0])
    if isinstance(v, data.SymBytesBase):
        if isinstance(v, data.SymView):
            a, n = evaluate(m, v.start), evaluate(m, v.n)
            return ['b'] + [evaluate(m, c) & 255 for c in v.parent[a:a + n]]
        if isinstance(v, data.SymFill):
            return ['b'] + [evaluate(m, v.byte)] * evaluate(m, v.n)
        if isinstance(v, data.SymByteArray):
            return ['b'] + [evaluate(m, c) & 255 for c in v.settle()]
        return ['b'] + [evaluate(m, c) & 255 for c in v.cells]
    if isinstance(v, symstr.SymStr):
        s = []
        for c in v.cp:
            if isinstance(c, symstr.Dec):
                s.append(str(evaluate(m, c.x)))
            else:
                s.append(chr(evaluate(m, c)))
        return ''.join(s)
    if isinstance(v, (bytes, bytearray)):
        return ['b'] + list(v)
    if isinstance(v, float):
        return _flt(v)
    if isinstance(v, (list, tuple)):
        return ['l'] + [evaluate(m, x) for x in v]
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, type):
        return v.__name__
    return repr(type(v).__name__)

"""The C macros and functions which capnpy's headers define, from clang's -O0 IR of small wrappers.

LLVM IR is turned into Python text (over symex.crt operations), one function per C function.
"""
import os
import re
import subprocess
import tempfile

from symex import core, crt
from symex.core import Unsupported

STUB = r'''
#ifndef STUB_PYTHON_H
#define STUB_PYTHON_H
#include "patchlevel.h"
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <limits.h>
typedef ptrdiff_t Py_ssize_t;
typedef Py_ssize_t Py_hash_t;
typedef size_t Py_uhash_t;
#define PY_SSIZE_T_MAX PTRDIFF_MAX
#define SIZEOF_PY_UHASH_T 8
#define SIZEOF_SIZE_T 8
#define SIZEOF_LONG 8
#define SIZEOF_VOID_P 8
#define _PyHASH_BITS 61
#define _PyHASH_MODULUS (((size_t)1 << _PyHASH_BITS) - 1)
typedef struct _object { Py_ssize_t ob_refcnt; void *ob_type; } PyObject;
#define PyObject_HEAD PyObject ob_base;
extern PyObject _Py_NoneStruct;
#define Py_None (&_Py_NoneStruct)
#define Py_INCREF(o) ((void)0)
#define Py_DECREF(o) ((void)0)
#define Py_XINCREF(o) ((void)0)
#define Py_XDECREF(o) ((void)0)
Py_ssize_t stub_PyBytes_GET_SIZE(void*);
#define PyBytes_GET_SIZE(o) stub_PyBytes_GET_SIZE((void*)(o))
#define PyBytes_Size(o) stub_PyBytes_GET_SIZE((void*)(o))
Py_ssize_t stub_PyByteArray_GET_SIZE(void*);
#define PyByteArray_GET_SIZE(o) stub_PyByteArray_GET_SIZE((void*)(o))
Py_hash_t _Py_HashBytes(const void*, Py_ssize_t);
Py_hash_t Py_HashBuffer(const void*, Py_ssize_t);
#ifndef likely
#define likely(x) (x)
#define unlikely(x) (x)
#endif
#endif
'''


class Lib(object):
    """wrappers of the C names some modules use; compiled at once, on demand"""

    def __init__(self, repo, pyinc):
        self.repo = repo
        self.pyinc = pyinc
        self.results = {}
        self.code = {}

    def compile(self, includes, structs, requests):
        """requests: list of (cname, ret, args) with args a list of C type strings, or None for a constant.
        returns {request index: info}"""
        lines = ['#include "Python.h"']
        lines += structs
        for inc in includes:
            lines.append('#include %s' % inc)
        for n, (cname, ret, args) in enumerate(requests):
            if args is None:
                lines.append('__typeof__(%s) w_%d(void) { return %s; }' % (cname, n, cname))
                lines.append('const int s_%d = ((__typeof__((%s)+0))-1) < 0; const int z_%d = sizeof((%s)+0);'
                             % (n, cname, n, cname))
                continue
            ps = ', '.join('%s a%d' % (t, k) for k, t in enumerate(args))
            call = '%s(%s)' % (cname, ', '.join('a%d' % k for k in range(len(args))))
            if ret is not None:
                lines.append('%s w_%d(%s) { %s r = %s; return r; }' % (ret, n, ps, ret, call))
            else:
                t = '__typeof__(%s(%s))' % (cname, ', '.join('(%s)0' % t for t in args))
                lines.append('%s w_%d(%s) { return %s; }' % (t, n, ps, call))
                lines.append('const int s_%d = ((%s)-1) < 0; const int z_%d = sizeof(%s);' % (n, t, n, t))
        d = tempfile.mkdtemp(prefix='vsym-ll-')
        try:
            with open(os.path.join(d, 'Python.h'), 'w') as f:
                f.write(STUB)
            src = os.path.join(d, 'w.c')
            with open(src, 'w') as f:
                f.write('\n'.join(lines) + '\n')
            p = subprocess.run(['clang', '-O0', '-fwrapv', '-w', '-S', '-emit-llvm', '-fno-discard-value-names',
                                '-Xclang', '-disable-O0-optnone',
                                '-I', d, '-I', os.path.join(self.repo, 'capnpy'),
                                '-I', os.path.join(self.repo, 'capnpy', 'segment'), '-I', self.repo, '-I', self.pyinc,
                                '-o', src + '.ll', src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise Unsupported('C headers: ' + p.stdout.decode('utf-8', 'replace')[:1500])
            # (variables to registers, and small diamonds to selects, so that they do not split paths)
            p = subprocess.run(['opt', '-S', '-passes=mem2reg,simplifycfg', '-o', src + '.2.ll', src + '.ll'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise Unsupported('C headers: ' + p.stdout.decode('utf-8', 'replace')[:1500])
            with open(src + '.2.ll') as f:
                text = f.read()
        finally:
            import shutil
            shutil.rmtree(d, ignore_errors=True)
        return Module(text)


class Module(object):

    def __init__(self, text):
        self.text = text
        self.structs = {}
        self.consts = {}
        self.funcs = {}
        self.compiled = {}
        for m in re.finditer(r'^(%[\w.]+) = type \{ (.*) \}$', text, re.M):
            self.structs[m.group(1)] = [x.strip() for x in m.group(2).split(',')]
        for m in re.finditer(r'^@(\w+) = (?:dso_local )?(?:local_unnamed_addr )?constant i\d+ (-?\d+)', text, re.M):
            self.consts[m.group(1)] = int(m.group(2))
        for m in re.finditer(r'^define .*?(\S+) @([\w.]+)\((.*?)\)[^{]*\{\n(.*?)^\}', text, re.M | re.S):
            self.funcs[m.group(2)] = (m.group(1), m.group(3), m.group(4))

    def info(self, n):
        """(size, signed) of the result of wrapper n"""
        return self.consts['z_%d' % n], bool(self.consts['s_%d' % n])

    def func(self, name):
        f = self.compiled.get(name)
        if f is None:
            src = Translator(self, name).text()
            env = {'C': crt, 'M': self, 'core': core}
            exec(compile(src, 'cyx:llvm:%s' % name, 'exec'), env)
            f = self.compiled[name] = env['f']
        return f

    def call(self, name, *args):
        if name in self.funcs:
            return self.func(name)(*args)
        if name.startswith('stub_'):
            name = name[5:]
        if name in crt.FUNCS:
            return crt.FUNCS[name](*args)
        return crt.ext(name)(*args)

    def field(self, struct, idx):
        return FIELDS[(struct, idx)]


FIELDS = {}         # (llvm struct name, field index) -> attribute (C level)


class Ref(object):
    """address of a field of an extension object"""
    __slots__ = ('obj', 'attr')

    def __init__(self, obj, attr):
        self.obj = obj
        self.attr = attr


def load(p, bits):
    if isinstance(p, Ref):
        if p.obj is None:
            from symex import data
            data.bounds_fail('access through None')
        return getattr(p.obj, p.attr)
    if isinstance(p, crt.CPtr) and bits:
        v = crt.load(crt.CPtr(p.mem, p.off, crt.INTS[(bits // 8, True)]) if not isinstance(p.mem, crt.CArr)
                     else crt.CPtr(p.mem, p.off, p.mem.ct))
        return crt.w(v, bits, True)
    raise Unsupported('llvm load')


def store(p, v, bits):
    if isinstance(p, crt.CPtr) and bits:
        ct = crt.INTS[(bits // 8, True)]
        if isinstance(p.mem, crt.CArr):
            v = crt.w(v, 8 * p.mem.ct.size, p.mem.ct.signed)
            ct = p.mem.ct
        crt.store(crt.CPtr(p.mem, p.off, ct), 0, v)
        return
    raise Unsupported('llvm store')


def gep(p, n):
    p = crt.pcast(p, crt.I8)
    return crt.padd(p, n)


crt.ll_load = load
crt.ll_store = store
crt.ll_gep = gep
crt.ll_ref = Ref

SIZES = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8}


def _bits(t):
    return int(t[1:]) if re.match(r'i\d+$', t) else 0


class Translator(object):

    def __init__(self, mod, name):
        self.mod = mod
        self.name = name
        self.ret, params, self.body = mod.funcs[name]
        self.params = []
        for p in _split(params):
            w = p.split()
            if w:
                self.params.append((w[0], w[-1]))

    def v(self, x, t=''):
        x = x.strip()
        if x.startswith('%'):
            return 'v_' + re.sub(r'\W', '_', x[1:])
        if re.match(r'-?\d+$', x):
            return x
        if x == 'true':
            return 'True'
        if x == 'false':
            return 'False'
        if x == 'null':
            return 'C.NULL'
        if x == '@_Py_NoneStruct':
            return 'None'
        if x in ('undef', 'poison'):
            return '0'
        raise Unsupported('llvm value ' + x)

    def text(self):
        blocks = []
        cur = ('entry', [])
        blocks.append(cur)
        first = True
        for line in self.body.split('\n'):
            line = line.split(' ;')[0] if not line.startswith(';') else ''
            line = re.sub(r', ![\w.]+ ![\w.]+', '', line).rstrip()
            m = re.match(r'^([\w.]+):', line)
            if m:
                if first and not cur[1]:
                    blocks.pop()
                cur = (m.group(1), [])
                blocks.append(cur)
                first = False
                continue
            if line.strip():
                cur[1].append(line.strip())
        self.idx = {b[0]: n for n, b in enumerate(blocks)}
        self.names = [b[0] for b in blocks]
        self.phis = {}
        for nm, ins in blocks:
            for l in list(ins):
                m = re.match(r'(%[\w.]+) = phi (\S+) (.*)$', l)
                if m:
                    arms = re.findall(r'\[ ([^,]+), %([\w.]+) \]', m.group(3))
                    self.phis.setdefault(nm, []).append((m.group(1), {lab: x for x, lab in arms}))
                    ins.remove(l)
        # allocas used only by plain loads and stores are variables
        allocas = {}
        for _, ins in blocks:
            for l in ins:
                m = re.match(r'(%[\w.]+) = alloca ([^,]+)', l)
                if m:
                    allocas[m.group(1)] = m.group(2)
        for a in list(allocas):
            pat = re.compile(re.escape(a) + r'(?![\w.])')
            for _, ins in blocks:
                for l in ins:
                    if not pat.search(l) or ' = alloca ' in l and l.startswith(a + ' '):
                        continue
                    if re.match(r'%[\w.]+ = load [^,]+, ptr ' + re.escape(a) + r'(,|$)', l):
                        continue
                    if re.match(r'store \S+ \S+, ptr ' + re.escape(a) + r'(,|$)', l) and not \
                            re.match(r'store ptr ' + re.escape(a) + ',', l):
                        continue
                    raise Unsupported('llvm: address of a local variable')
        self.allocas = allocas
        out = ['def f(%s):' % ', '.join(self.v(p) for _, p in self.params)]
        for t, p in self.params:
            b = _bits(t)
            if b:
                out.append('    %s = C.w(%s, %d, True)' % (self.v(p), self.v(p), b))
        if len(blocks) == 1:
            for l in blocks[0][1]:
                out.extend('    ' + x for x in self.ins(l))
        else:
            out.append('    _b = 0')
            out.append('    while True:')
            for n, (nm, ins) in enumerate(blocks):
                out.append('        %s _b == %d:' % ('if' if n == 0 else 'elif', n))
                self.cur = n
                for l in ins:
                    out.extend('            ' + x for x in self.ins(l))
                if not ins:
                    out.append('            pass')
        return '\n'.join(out) + '\n'

    def jump(self, label):
        label = label.strip().lstrip('%')
        out = ['_b = %d' % self.idx[label]]
        # the phis of the target, all at once
        ds, xs = [], []
        for d, arms in self.phis.get(label, ()):
            ds.append(self.v(d))
            xs.append(self.v(arms[self.names[self.cur]]))
        if ds:
            out.append('%s = %s' % (', '.join(ds), ', '.join(xs)))
        return out

    def ins(self, l):
        v = self.v
        m = re.match(r'(%[\w.]+) = (.*)$', l)
        if not m:
            m2 = re.match(r'store (\S+) (\S+), ptr ([^,]+)', l)
            if m2:
                t, x, p = m2.groups()
                if p in self.allocas:
                    return ['%s = %s' % (v(p), v(x))]
                return ['C.ll_store(%s, %s, %d)' % (v(p), v(x), _bits(t))]
            m2 = re.match(r'br label (%[\w.]+)', l)
            if m2:
                return self.jump(m2.group(1)) + ['continue']
            m2 = re.match(r'br i1 ([^,]+), label (%[\w.]+), label (%[\w.]+)', l)
            if m2:
                c, a, b = m2.groups()
                return (['if C.truth(%s):' % v(c)] + ['    ' + x for x in self.jump(a)] + ['else:'] +
                        ['    ' + x for x in self.jump(b)] + ['continue'])
            m2 = re.match(r'switch (\S+) ([^,]+), label (%[\w.]+) \[(.*)\]', l)
            if m2:
                out = []
                kw = 'if'
                for t, c, lab in re.findall(r'(\S+) (-?\d+), label (%[\w.]+)', m2.group(4)):
                    out.append('%s C.truth(%s == %s):' % (kw, v(m2.group(2)), c))
                    out += ['    ' + x for x in self.jump(lab)]
                    kw = 'elif'
                if kw == 'if':
                    return self.jump(m2.group(3)) + ['continue']
                return out + ['else:'] + ['    ' + x for x in self.jump(m2.group(3))] + ['continue']
            if l == 'ret void':
                return ['return None']
            m2 = re.match(r'ret (\S+) (\S+)$', l)
            if m2:
                return ['return %s' % v(m2.group(2))]
            if re.match(r'(tail )?call ', l):
                return [self.call(l)]
            if l == 'unreachable':
                return ['C.unsupported("unreachable")']
            raise Unsupported('llvm: ' + l)
        d, r = m.groups()
        D = v(d)
        op = r.split()[0]
        if op == 'alloca':
            t = r.split()[1].rstrip(',')
            if _bits(t) or t == 'ptr':
                return ['%s = 0' % D]
            raise Unsupported('llvm: ' + l)
        if op == 'load':
            m2 = re.match(r'load (?:volatile )?(\S+), ptr ([^,]+)', r)
            t, p = m2.groups()
            if p in self.allocas:
                return ['%s = %s' % (D, v(p))]
            return ['%s = C.ll_load(%s, %d)' % (D, v(p), _bits(t))]
        m2 = re.match(r'(add|sub|mul|and|or|xor|shl|lshr|ashr|sdiv|udiv|srem|urem)(?: nuw| nsw| exact| disjoint)* '
                      r'(i\d+) ([^,]+), (\S+)$', r)
        if m2:
            op, t, a, b = m2.groups()
            n = _bits(t)
            a, b = v(a), v(b)
            if n == 1:
                a, b = 'C.i(%s)' % a, 'C.i(%s)' % b
                o = {'and': '&', 'or': '|', 'xor': '^'}[op]
                return ['%s = C.truth(%s %s %s)' % (D, a, o, b)]
            if op == 'mul':
                return ['%s = C.mul(%s, %s, %d)' % (D, a, b, n)]
            if op in ('add', 'sub'):
                return ['%s = C.w(%s %s %s, %d, True)' % (D, a, {'add': '+', 'sub': '-'}[op], b, n)]
            if op in ('and', 'or', 'xor'):
                return ['%s = %s %s %s' % (D, a, {'and': '&', 'or': '|', 'xor': '^'}[op], b)]
            if op == 'shl':
                return ['%s = C.shl(%s, %s, %d, True)' % (D, a, b, n)]
            if op == 'ashr':
                return ['%s = C.shr(%s, %s, %d, True)' % (D, a, b, n)]
            if op == 'lshr':
                return ['%s = C.w(C.shr(C.w(%s, %d, False), %s, %d, False), %d, True)' % (D, a, n, b, n, n)]
            if op in ('udiv', 'urem'):
                return ['%s = C.w(C.w(%s, %d, False) %s C.w(%s, %d, False), %d, True)' %
                        (D, a, n, '//' if op == 'udiv' else '%', b, n, n)]
            return ['%s = C.w(C.c%s(%s, %s), %d, True)' % (D, op, a, b, n)]
        m2 = re.match(r'icmp (\w+) (\S+) ([^,]+), (\S+)$', r)
        if m2:
            c, t, a, b = m2.groups()
            a, b = v(a), v(b)
            n = _bits(t)
            if not n:
                return ['%s = C.peq(%s, %s)' % (D, a, b) if c == 'eq' else '%s = C.lnot(C.peq(%s, %s))' % (D, a, b)]
            if n == 1:
                a, b = 'C.i(%s)' % a, 'C.i(%s)' % b
            elif c[0] == 'u':
                a, b = 'C.w(%s, %d, False)' % (a, n), 'C.w(%s, %d, False)' % (b, n)
            o = {'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[c.lstrip('us') if c not in
                                                                                      ('eq', 'ne') else c]
            return ['%s = %s %s %s' % (D, a, o, b)]
        m2 = re.match(r'(sext|zext|trunc)(?: nneg)?(?: nuw| nsw)* (\S+) (\S+) to (\S+)$', r)
        if m2:
            op, t, a, t2 = m2.groups()
            a = v(a)
            n, n2 = _bits(t), _bits(t2)
            if n == 1:
                return ['%s = C.i(%s)' % (D, a) if op == 'zext' else '%s = -C.i(%s)' % (D, a)]
            if op == 'sext':
                return ['%s = %s' % (D, a)]
            if op == 'zext':
                return ['%s = C.w(%s, %d, False)' % (D, a, n)]
            if n2 == 1:
                return ['%s = (%s & 1) != 0' % (D, a)]
            return ['%s = C.w(%s, %d, True)' % (D, a, n2)]
        m2 = re.match(r'select i1 ([^,]+), (\S+) ([^,]+), (\S+) (\S+)$', r)
        if m2:
            c, t, a, _, b = m2.groups()
            if _bits(t) > 1:
                return ['%s = C.ite(C.truth(%s), %s, %s)' % (D, v(c), v(a), v(b))]
            return ['%s = %s if C.truth(%s) else %s' % (D, v(a), v(c), v(b))]
        m2 = re.match(r'getelementptr(?: inbounds)?(?: nuw| nusw)* (\S+), ptr ([^,]+), i\d+ ([^,]+)(?:, i\d+ (\S+))?$', r)
        if m2:
            t, p, i1, i2 = m2.groups()
            if i2 is None:
                if t not in SIZES:
                    raise Unsupported('llvm: ' + l)
                return ['%s = C.ll_gep(%s, C.i(%s) * %d)' % (D, v(p), v(i1), SIZES[t])]
            if i1 == '0' and t in self.mod.structs:
                attr = FIELDS.get((t, int(i2)))
                if attr is None:
                    raise Unsupported('llvm: field %s of %s' % (i2, t))
                return ['%s = C.ll_ref(%s, %r)' % (D, v(p), attr)]
            raise Unsupported('llvm: ' + l)
        if re.match(r'(tail )?call ', r):
            return ['%s = %s' % (D, self.call(r))]
        if op == 'freeze':
            return ['%s = %s' % (D, v(r.split()[-1]))]
        raise Unsupported('llvm: ' + l)

    def call(self, r):
        m = re.match(r'(?:tail )?call (?:[a-z]+ )*?(\S+) @([\w.]+)\((.*)\)', r)
        if not m:
            raise Unsupported('llvm: ' + r)
        t, f, args = m.groups()
        vals = []
        for a in _split(args):
            vals.append(self.v(a.split()[-1]))
        e = 'M.call(%r%s)' % (f, ''.join(', ' + x for x in vals))
        n = _bits(t)
        if n > 1:
            e = 'C.w(%s, %d, True)' % (e, n)
        return e


def _split(s):
    out = []
    depth = 0
    cur = ''
    for ch in s:
        if ch in '([{':
            depth += 1
        if ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def csdiv(a, b):
    raise Unsupported('llvm sdiv')


crt.csdiv = crt.csrem = csdiv

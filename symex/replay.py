"""Concrete twin of symex.ctx: runs a harness on given inputs against the real implementation.

Plain Python (3.9+); no z3.  Usage: replay.py BATCH.json OUT.json
"""
import importlib
import json
import os
import struct
import sys
import traceback


class Skip(BaseException):
    """the inputs do not satisfy an assumption of the harness"""


class Failed(BaseException):
    pass


def canon(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (bytes, bytearray)):
        return ['b'] + list(v)
    if isinstance(v, float):
        return 'nan' if v != v else 'f' + v.hex()
    if isinstance(v, (list, tuple)):
        return ['l'] + [canon(x) for x in v]
    if isinstance(v, str):
        return str(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, type):
        return v.__name__
    return repr(type(v).__name__)


class Ctx(object):
    symbolic = False

    def __init__(self, mode, params, inputs, known=()):
        self.known_ids = set(known)
        self.mode = mode
        self.pyx = mode == 'pyx'
        self.params = params
        self.inputs = inputs
        self.names = {}
        self.outs = []
        self.checks = 0

    def _get(self, name, default):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        if n:
            name = '%s#%d' % (name, n)
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        v = self._get(name, lo if lo > 0 else min(0, hi))
        if not lo <= v <= hi:
            raise Skip('input %s out of range' % name)
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def bytes(self, name, n):
        v = self._get(name, [0] * n)
        return bytes(v)

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def float(self, name, w):
        b = self.int(name, 0, (1 << w) - 1)
        if w == 32:
            return struct.unpack('<f', struct.pack('<I', b))[0]
        return struct.unpack('<d', struct.pack('<Q', b))[0]

    def text(self, name, n, lo=0, hi=0x10ffff):
        cp = []
        for i in range(n):
            c = self.int('%s[%d]' % (name, i), lo, hi)
            self.assume(not 0xd800 <= c <= 0xdfff)
            cp.append(chr(c))
        return ''.join(cp)

    def pack(self, cells):
        return bytes(cells)

    def assume(self, c):
        if not c:
            raise Skip('assumption')

    def check(self, c, msg):
        self.checks += 1
        if not c:
            raise Failed(msg)

    def known(self, kid, bad):
        return kid in self.known_ids

    def fail(self, msg):
        raise Failed(msg)

    def reach(self, label):
        pass

    def stack(self, n):
        pass

    def guarded(self, fn, *args):
        try:
            return True, fn(*args)
        except Exception as e:
            return False, e

    def generate(self, fn, *args):
        return fn(*args)

    def execute(self, src, name, ns):
        exec(compile(str(src), name + '.py', 'exec'), ns)
        return ns

    def denoted(self, word):
        try:
            return int(word)
        except ValueError:
            return float(word)

    def out(self, *vals):
        self.outs.extend(canon(v) for v in vals)

    def ite(self, c, a, b):
        return a if c else b

    def all(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return bool(not a or b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def same_float(self, v, bits, w):
        if not isinstance(v, float):
            return False
        import struct
        r = struct.unpack('<d' if w == 64 else '<f', struct.pack('<Q' if w == 64 else '<I', bits))[0]
        return repr(r) == repr(v)

    def float_bits(self, v, w):
        if w == 32:
            return struct.unpack('<I', struct.pack('<f', v))[0]
        return struct.unpack('<Q', struct.pack('<d', v))[0]

    def force(self, x):
        return x

    def le(self, cells):
        r = 0
        for i, c in enumerate(cells):
            r |= c << (8 * i)
        return r

    def is_sym(self, x):
        return False

    def pickle(self, x, proto):
        import pickle
        return pickle.loads(pickle.dumps(x, proto))

    def deepcopy(self, x):
        import copy
        return copy.deepcopy(x)


def run_one(item, mode):
    params = item['task'].get('params', {})
    c = Ctx(mode, params, item['inputs'], item['task'].get('known', ()))
    res = {}
    try:
        mod = importlib.import_module('harness.' + item['task']['module'])
        fn = getattr(mod, item['task']['func'])
        try:
            fn(c, **params)
            res['status'] = 'ok'
        except Skip as e:
            res['status'] = 'skip'
            res['msg'] = str(e)
        except Failed as e:
            res['status'] = 'failed'
            res['msg'] = str(e)
        except Exception as e:
            res['status'] = 'failed'
            res['msg'] = 'unexpected exception %s: %s' % (type(e).__name__, e)
            res['trace'] = traceback.format_exc()[-3000:]
    except RecursionError:
        res['status'] = 'failed'
        res['msg'] = 'RecursionError'
    res['outs'] = c.outs
    return res


def main():
    batch = json.load(open(sys.argv[1]))
    mode = batch['mode']
    sys.path[:0] = batch['path']
    if batch.get('rlimit_as'):
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (batch['rlimit_as'],) * 2)
    out = open(sys.argv[2], 'w')
    import capnpy.blob
    assert bool(capnpy.blob.PYX) == (mode == 'pyx'), 'wrong implementation'
    for item in batch['items']:
        # written before running, so that a crash can be attributed
        out.write('{"begin": %d}\n' % item['n'])
        out.flush()
        os.fsync(out.fileno())
        r = run_one(item, mode)
        r['n'] = item['n']
        out.write(json.dumps(r) + '\n')
        out.flush()


def in_thread():
    # the modules are compiled without optimizations here: the frames of the C functions are much bigger than usual
    import threading
    threading.stack_size(128 << 20)
    ok = []
    t = threading.Thread(target=lambda: ok.append(main()))
    t.start()
    t.join()
    if not ok:
        sys.exit(1)


if __name__ == '__main__':
    in_thread()

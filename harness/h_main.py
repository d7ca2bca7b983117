"""C31: the command line"""
import importlib
import struct
import types

from harness import wire
from harness.h_stream import File


def program(ctx):
    M = importlib.import_module('capnpy.__main__')
    out = []
    rest = []

    def write(*args, **kw):
        f = kw.get('file')
        (out if f is None or f is M.sys.stdout else rest).append(args)
    M.print = write
    return M, out


FLAGS = ('--no-convert-case', '--no-pyx', '--no-version-check', '--no-reflection')
TYPES = (None, 'bytes', 'unicode', 'text')


def argv(ctx, cmd, order):
    given = dict((f, ctx.bool(f)) for f in FLAGS)
    t = ctx.choice('--text-type', TYPES)
    opts = [f for f in FLAGS if given[f]] + (['--text-type=' + t] if t else [])
    pos = [cmd] + (['some.capnp'] if cmd == 'compile' else ['stream.bin', 'pkg.mod', 'Thing'])
    return given, t, (opts + pos if order == 'before' else pos + opts)


def check_options(ctx, options, given, t):
    T = importlib.import_module('capnpy.annotate').TextType
    for flag, attr in (('--no-convert-case', 'convert_case'), ('--no-version-check', 'version_check'),
                       ('--no-reflection', 'include_reflection_data')):
        ctx.check(bool(getattr(options, attr)) == (not given[flag]), attr)
    ctx.check(options.text_type == (T.unicode if t == 'unicode' else T.bytes), 'text_type')


def compiles(ctx, order):
    """capnpy compile"""
    M, out = program(ctx)
    log = []

    class Compiler(object):
        def __init__(self, path):
            self.path = path

        def compile(self, filename, pyx, options):
            log.append((filename, pyx, options))
    M.StandaloneCompiler = Compiler
    given, t, args = argv(ctx, 'compile', order)
    try:
        M.main(args)
        ok = True
    except SystemExit:
        ok = False
    ctx.check(ok == (t != 'text'), 'only bytes and unicode are accepted')
    ctx.check(len(log) == (1 if ok else 0), 'compiled once')
    if log:
        ctx.check(log[0][0] == 'some.capnp', 'the file')
        ctx.check(log[0][1] == (False if given['--no-pyx'] else 'auto'), '--no-pyx')
        check_options(ctx, log[0][2], given, t)


def decode_setup(ctx, M, buf):
    """a schema with one class, whose objects show themselves by number"""
    S = importlib.import_module('capnpy.struct_').Struct
    shown = []
    log = []

    class Thing(S):
        def shortrepr(self):
            shown.append(self._read_primitive(0, ord('q')))
            return '#%d' % (len(shown) - 1)

    class Opened(File):
        closed = False

        def __enter__(self):
            return self

        def __exit__(self, *args):
            self.close()

        def close(self):
            self.closed = True

    def load_schema(modname=None, importname=None, filename=None, pyx='auto', options=None):
        log.append((modname, importname, filename, pyx, options))
        return types.SimpleNamespace(Thing=Thing)
    M.load_schema = load_schema

    def opener(name, mode='r', *args, **kw):
        ctx.check(name == 'stream.bin' and mode == 'rb', 'the file')
        return Opened(buf)
    M.open = opener
    return shown, log


def decodes(ctx, order):
    """capnpy decode: its flags"""
    M, out = program(ctx)
    shown, log = decode_setup(ctx, M, b'')
    given, t, args = argv(ctx, 'decode', order)
    try:
        M.main(args)
        ok = True
    except SystemExit:
        ok = False
    ctx.check(ok == (t != 'text'), 'only bytes and unicode are accepted')
    ctx.check(len(log) == (1 if ok else 0), 'loads the schema once')
    if ok:
        ctx.check(shown == [] and out == [], 'nothing in an empty stream')
    if log:
        ctx.check(log[0][:3] == ('pkg.mod', None, None), 'the schema')
        ctx.check(log[0][3] == (False if given['--no-pyx'] else 'auto'), '--no-pyx')
        check_options(ctx, log[0][4], given, t)


def stream(ctx, shapes, tail):
    """every message of the stream is shown, in order; a rest which is no message is reported"""
    M, out = program(ctx)
    cells = []
    values = []
    for i, (words, segs) in enumerate(shapes):
        # the object is behind `words` words of anything
        sizes = [words + 2] + [1] * (segs - 1)
        head = struct.pack('<%dI' % (1 + segs), segs - 1, *sizes)
        cells.extend(head + b'\0' * (-len(head) % 8))
        cells.extend(wire.word(wire.mk_struct(words, 1, 0)))
        b = ctx.bytes('message %d' % i, 8 * (words + segs))
        cells.extend(b[j] for j in range(8 * (words + segs)))
        values.append(wire.signed(wire.rd([b[j] for j in range(8 * (words + segs))], 8 * words, 8), 64))
    t = ctx.bytes('rest', tail)
    cells.extend(t[j] for j in range(tail))
    shown, log = decode_setup(ctx, M, ctx.pack(cells))
    try:
        M.main(['decode', 'stream.bin', 'pkg.mod', 'Thing'])
        ok = True
    except ValueError:
        ok = False
    ctx.check(ok == (tail == 0), 'reported exactly when something is missing')
    ctx.check(len(shown) == len(values), 'as many objects as messages')
    for a, b in zip(shown, values):
        ctx.check(a == b, 'the objects in order')
    ctx.check([x for x in out] == [('#%d' % i,) for i in range(len(values))], 'what is printed')

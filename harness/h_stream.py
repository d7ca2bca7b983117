"""C09: stream headers; C11: buffered readers"""
import importlib

from harness import wire


def message():
    return importlib.import_module('capnpy.message')


def Struct():
    return importlib.import_module('capnpy.struct_').Struct


class File(object):
    """a binary file over a buffer, like io.BytesIO"""

    def __init__(self, buf):
        self.buf = buf
        self.pos = 0
        self.end = len(buf)

    def read(self, n=-1):
        a = self.pos
        left = self.end - a
        if n < 0 or n > left:
            n = left
        self.pos = a + n
        return self.buf[a:a + n]

    def readline(self):
        raise NotImplementedError


def reader(ctx, how, buf, chunks=()):
    """some file over the bytes"""
    if how == 'file':
        return File(buf)
    buffered = importlib.import_module('capnpy.buffered')
    if how == 'string':
        return buffered.StringBuffer(buf)
    return buffered.BufferedSocket(Sock(buf, chunks))


class Sock(object):
    """a socket which delivers the bytes in given pieces"""

    def __init__(self, buf, chunks):
        self.parts = []
        a = 0
        for n in chunks:
            self.parts.append(buf[a:a + n])
            a += n
        self.i = 0
        self.sent = []

    def recv(self, n):
        if self.i >= len(self.parts):
            return b''
        self.i += 1
        return self.parts[self.i - 1]

    def sendall(self, b):
        self.sent.append(b)


def pos_of(f, how):
    return f.pos if how == 'file' else f.tell()


def header(ctx, size, how='file', nseg=None, maxseg=None, extra=0):
    """any stream of that many bytes whose words after the header are zero (so that the root pointer is null)"""
    b = ctx.bytes('stream', size)
    cells = [b[i] for i in range(size)]
    n = None
    if size >= 4:
        n = wire.rd(cells, 0, 4) + 1
        if nseg is not None:
            # few segments
            ctx.assume(n == nseg)
            n = nseg
            h = (4 + 4 * n + 7) // 8 * 8
            for i in range(h, size):
                cells[i] = 0
        elif maxseg is not None:
            ctx.assume(n > maxseg)
    f = reader(ctx, how, ctx.pack(cells))
    exc = None
    obj = None
    try:
        obj = Struct().load(f)
    except EOFError:
        exc = 'EOFError'
    except ValueError:
        exc = 'ValueError'
    except Exception:
        exc = 'other'
    ctx.check((exc == 'EOFError') == (size == 0), 'EOFError exactly at the end of the stream')
    if size == 0:
        return
    if size < 4 or nseg is None:
        # (more segments than there is room for)
        ctx.check(exc == 'ValueError', 'a truncated header is reported')
        return
    h4 = 4 + 4 * n
    if size < h4:
        ctx.check(exc == 'ValueError', 'a truncated header is reported')
        return
    sizes = [wire.rd(cells, 4 + 4 * i, 4) for i in range(n)]
    words = sum(sizes)
    fits = h + 8 * words <= size
    ok = exc is None
    ctx.out(exc)
    if ok:
        ctx.check(fits, 'a truncated message is reported')
        ctx.check(obj is None, 'null root')
        ctx.check(pos_of(f, how) == h + 8 * words, 'exactly the bytes of the message are consumed')
        ctx.reach('loaded')
    elif exc == 'ValueError':
        ctx.check(ctx.not_(fits), 'no error for a whole message')
    else:
        # a message without any word has no root
        ctx.check(ctx.all(fits, words == 0), 'a truncated message is reported as ValueError')


def content(ctx, sizes, how='file', chunks=(), lead=0):
    """a whole message between other bytes: each segment is where it has to be"""
    n = len(sizes)
    b = ctx.bytes('before', lead)
    cells = [b[i] for i in range(lead)]
    hdr = wire.word(n - 1)[:4]
    for s in sizes:
        hdr += wire.word(s)[:4]
    pad = ctx.bytes('pad', -len(hdr) % 8)
    hdr += [pad[i] for i in range(len(pad))]
    # the root is a struct of one word, somewhere in the message
    body = []
    starts = []
    for s in sizes:
        starts.append(len(body) // 8)
        g = ctx.bytes('segment', 8 * s)
        body += [g[i] for i in range(8 * s)]
    spots = [(i, w) for i in range(n) for w in range(sizes[i]) if (i, w) != (0, 0)]
    seg, w = ctx.choice('root', spots)
    if seg == 0:
        body[0:8] = wire.word(wire.mk_struct(w - 1, 1, 0))
    else:
        pads = [p for p in range(sizes[seg]) if p != w]
        if not pads:
            return
        p = ctx.choice('pad', pads)
        body[0:8] = wire.word(wire.mk_far(0, p, seg))
        at = 8 * (starts[seg] + p)
        body[at:at + 8] = wire.word(wire.mk_struct(w - p - 1, 1, 0))
    x = 8 * (starts[seg] + w)
    tail = ctx.bytes('tail', 9)
    stream = ctx.pack(cells + hdr + body + [tail[i] for i in range(9)])
    f = reader(ctx, how, stream, chunks)
    if lead:
        f.read(lead)
    mod = importlib.import_module('st')
    obj = mod.T.load(f)
    ctx.check(obj.x == wire.signed(wire.rd(body, x, 8), 64), 'the root is read from the right segment')
    ctx.check(obj.y == 0, 'missing field')
    rest = f.read(9)
    ctx.check(rest == tail, 'the bytes after the message are not consumed')
    ctx.check(len(f.read(1)) == 0, 'end of the stream')


# -- C11 ------------------------------------------------------------------------
def compositions(n):
    """all ways to cut n bytes into pieces"""
    out = []
    for bits in range(1 << max(0, n - 1)):
        c, k = [], 1
        for i in range(n - 1):
            if bits >> i & 1:
                c.append(k)
                k = 1
            else:
                k += 1
        if n:
            c.append(k)
        out.append(c)
    return out


def reads(ctx, how, size, ops, adapter=False):
    """a sequence of reads: r = read(k) for any k, l = readline(), a = read()"""
    b = ctx.bytes('data', size)
    cells = [b[i] for i in range(size)]
    chunks = ctx.choice('chunks', compositions(size)) if how == 'socket' else ()
    f = reader(ctx, how, ctx.pack(cells), chunks)
    if adapter:
        f = importlib.import_module('capnpy.filelike').as_filelike(Wrapped(f))
    at = 0
    for i, op in enumerate(ops):
        if op == 'r':
            k = ctx.int('k%d' % i, 0, size + 2)
            got = f.read(k)
            k = ctx.force(k)
            want = cells[at:at + k]
        elif op == 'a':
            got = f.read() if i % 2 else f.read(-1)
            want = cells[at:]
        else:
            got = f.readline()
            j = at
            while j < size:
                j += 1
                if cells[j - 1] == 10:
                    break
            want = cells[at:j]
        at += len(want)
        ctx.check(len(got) == len(want), 'number of bytes of the %s' % op)
        for x in range(len(want)):
            ctx.check(got[x] == want[x], 'bytes of the %s' % op)
        ctx.out(got)
    if how == 'string' and not adapter:
        ctx.check(ctx.any(f.tell() == at, f.tell() >= size), 'tell')


class Wrapped(object):
    """not a FileLike"""

    def __init__(self, f):
        self.f = f

    def read(self, n=-1):
        return self.f.read(n)

    def readline(self):
        return self.f.readline()


def big_reads(ctx, how, size):
    """read with any size: all that is left"""
    b = ctx.bytes('data', size)
    chunks = [1] * size if how == 'socket' else ()
    f = reader(ctx, how, b if size else b'', chunks)
    k = ctx.int('k', 0, (1 << 40) - 1)
    got = f.read(k)
    n = ctx.ite(k < size, k, size)
    ctx.check(len(got) == n, 'number of bytes')
    for i in range(size):
        if i < len(got):
            ctx.check(got[i] == b[i], 'bytes')
    rest = f.read()
    ctx.check(len(rest) == size - n, 'the rest')


def writes(ctx, sizes):
    """BufferedSocket.write/flush send all the bytes in order"""
    buffered = importlib.import_module('capnpy.buffered')
    s = Sock(b'', ())
    f = buffered.BufferedSocket(s)
    want = []
    for i, n in enumerate(sizes):
        b = ctx.bytes('w%d' % i, n)
        f.write(b)
        want += [b[j] for j in range(n)]
        if ctx.choice('flush%d' % i, (0, 1)):
            f.flush()
    f.flush()
    got = b''.join(s.sent)
    ctx.check(len(got) == len(want), 'number of bytes sent')
    for i in range(len(want)):
        ctx.check(got[i] == want[i], 'bytes sent')

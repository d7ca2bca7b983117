"""Messages built by hand (reference side): cells are byte values, possibly symbolic."""
import struct

from harness import wire

LEN = {2: 1, 3: 2, 4: 4, 5: 8}


class Msg(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.cells = []
        self.n = 0

    def here(self):
        return len(self.cells)

    def garbage(self, words, name=None):
        """arbitrary contents"""
        self.n += 1
        b = self.ctx.bytes(name or 'w%d' % self.n, words * 8)
        pos = self.here()
        self.cells += [b[i] for i in range(words * 8)]
        return pos

    def zeros(self, words):
        pos = self.here()
        self.cells += [0] * (words * 8)
        return pos

    def add(self, cells):
        """bytes, padded with zeros to a word"""
        pos = self.here()
        cells = list(cells)
        self.cells += cells + [0] * (-len(cells) % 8)
        return pos

    def put(self, pos, w):
        self.cells[pos:pos + 8] = wire.word(w)

    def put_struct(self, pos, target, d, p):
        self.put(pos, wire.mk_struct((target - pos - 8) // 8, d, p))

    def put_list(self, pos, target, tag, n):
        self.put(pos, wire.mk_list((target - pos - 8) // 8, tag, n))

    def put_text(self, pos, target, n):
        """n: length including the NUL"""
        self.put_list(pos, target, 2, n)

    def bytes(self):
        return self.ctx.pack(self.cells)


def words(n):
    return (n + 7) // 8


# -- reference values of fields -------------------------------------------------
INTS = {'Int8': 8, 'Int16': 16, 'Int32': 32, 'Int64': 64, 'UInt8': 8, 'UInt16': 16, 'UInt32': 32, 'UInt64': 64}


def default_bits(f, enums=None):
    """the default of a field as a bit pattern"""
    d = f['default']
    t = f['type']
    if d is None or t == 'Void':
        return 0
    if t == 'Bool':
        return int(d == 'true')
    if t in INTS:
        return int(d) & ((1 << INTS[t]) - 1)
    if t in ('Float32', 'Float64'):
        v = float(d)
        return struct.unpack('<I', struct.pack('<f', v))[0] if t == 'Float32' else \
            struct.unpack('<Q', struct.pack('<d', v))[0]
    for n, m in (enums or {}).get(t, {}).get('members', {}).items():
        if m == d:
            return int(n)
    raise ValueError('default %r of type %s' % (d, t))


def bits_of(f, cells, off, d, enums=None):
    """bit pattern of a data field of the struct at off with d data words, defaults applied"""
    bit, w = f['bit'], f['width']
    if w == 1:
        v = (cells[off + bit // 8] >> (bit % 8)) & 1 if bit < d * 64 else 0
    elif w == 0:
        return 0
    else:
        v = wire.rd(cells, off + bit // 8, w // 8) if bit < d * 64 else 0
    return v ^ default_bits(f, enums)


def check_value(ctx, got, f, bits, what):
    """is got the Python value which these bits denote?"""
    t = f['type']
    if t == 'Void':
        ctx.check(got is None, what + ': void')
    elif t == 'Bool':
        ctx.check(got == (bits == 1), what)
    elif t in ('Float32', 'Float64'):
        # (a field beyond the data section reads as the integer 0, which is equal to 0.0)
        ctx.check(ctx.same_float(float(got) if isinstance(got, int) else got, bits, f['width']), what)
    elif t in INTS:
        v = bits
        if t.startswith('I'):
            v = wire.signed(bits, f['width'])
        ctx.check(got == v, what)
    else:
        ctx.check(got == bits, what + ' (enum)')


def slots(fields, path=()):
    """all slots, with the path of groups"""
    for f in fields:
        if f['kind'] == 'slot':
            yield path, f
        else:
            for x in slots(f['fields'], path + (f,)):
                yield x


def is_data(f):
    return 'bit' in f


def py(name):
    """camelCase -> the documented Python name (names without acronyms)"""
    return ''.join('_' + c.lower() if 'A' <= c <= 'Z' else c for c in name)


def get(obj, path, name):
    for g in path:
        obj = getattr(obj, py(g['name']))
    return getattr(obj, py(name))

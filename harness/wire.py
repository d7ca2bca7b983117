"""Independent reference for the Cap'n Proto encoding (from the encoding spec, not from capnpy).

Works on concrete values and on the symbolic proxies.
"""

STRUCT, LIST, FAR, OTHER = 0, 1, 2, 3
ELEM_BITS = (0, 1, 8, 16, 32, 64, 64)


def u64(p):
    """the word as an unsigned 64-bit number"""
    return p & 0xffffffffffffffff


def field(w, lsb, n):
    return (w >> lsb) & ((1 << n) - 1)


def signed(v, n):
    m = 1 << (n - 1)
    return (v ^ m) - m


def kind(w):
    return field(w, 0, 2)


def off(w):
    return signed(field(w, 2, 30), 30)


def s64(w):
    """the word as the signed number which the implementations pass around"""
    return signed(w, 64)


def mk_struct(o, d, p):
    return ((o & 0x3fffffff) << 2) | (d << 32) | (p << 48)


def mk_list(o, tag, n):
    return 1 | ((o & 0x3fffffff) << 2) | (tag << 32) | (n << 35)


def mk_far(pad, o, seg):
    return 2 | (pad << 2) | (o << 3) | (seg << 32)


def word(w):
    """8 little-endian bytes, as a list"""
    return [(w >> (8 * i)) & 255 for i in range(8)]


def rd(buf, pos, n):
    """unsigned little-endian number at a concrete position"""
    r = 0
    for i in range(n):
        r = r | (buf[pos + i] << (8 * i))
    return r

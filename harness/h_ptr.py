from capnpy import ptr
from capnpy.segment.builder import SegmentBuilder
from harness import wire

MIN64, MAX64 = -(1 << 63), (1 << 63) - 1


def decode(ctx):
    p = ctx.int('p', MIN64, MAX64)
    w = wire.u64(p)
    k = ptr.kind(p)
    ctx.check(k == wire.field(w, 0, 2), 'kind')
    ctx.check(ptr.offset(p) == wire.off(w), 'offset')
    ctx.check(ptr.extra(p) & 0xffffffff == wire.field(w, 32, 32), 'extra')
    ctx.check(ptr.struct_data_size(p) == wire.field(w, 32, 16), 'struct data size')
    ctx.check(ptr.struct_ptrs_size(p) == wire.field(w, 48, 16), 'struct pointer section size')
    ctx.check(ptr.list_size_tag(p) == wire.field(w, 32, 3), 'list element size')
    ctx.check(ptr.list_item_count(p) == wire.field(w, 35, 29), 'list element count')
    ctx.check(ptr.far_landing_pad(p) == wire.field(w, 2, 1), 'far landing pad')
    ctx.check(ptr.far_offset(p) == wire.field(w, 3, 29), 'far offset')
    ctx.check(ptr.far_target(p) == wire.field(w, 32, 32), 'far target')
    ctx.out(k, ptr.offset(p), ptr.extra(p), ptr.list_item_count(p), ptr.far_offset(p), ptr.far_target(p))


def deref(ctx):
    p = ctx.int('p', MIN64, MAX64)
    ofs = ctx.int('ofs', -(1 << 40), 1 << 40)
    r = ptr.deref(p, ofs)
    ctx.check(r == ofs + 8 + 8 * wire.off(wire.u64(p)), 'deref')
    ctx.out(r)


def kind_constants(ctx):
    x = ctx.int('p', MIN64, MAX64)
    k = ptr.kind(x)
    ctx.check(ctx.iff(k == ptr.STRUCT, wire.field(wire.u64(x), 0, 2) == 0), 'STRUCT')
    ctx.check(ctx.iff(k == ptr.LIST, wire.field(wire.u64(x), 0, 2) == 1), 'LIST')
    ctx.check(ctx.iff(k == ptr.FAR, wire.field(wire.u64(x), 0, 2) == 2), 'FAR')
    t = ptr.list_size_tag(x)
    for i, c in enumerate((ptr.LIST_SIZE_VOID, ptr.LIST_SIZE_BIT, ptr.LIST_SIZE_8, ptr.LIST_SIZE_16,
                           ptr.LIST_SIZE_32, ptr.LIST_SIZE_64, ptr.LIST_SIZE_PTR, ptr.LIST_SIZE_COMPOSITE)):
        ctx.check(ctx.iff(t == c, wire.field(wire.u64(x), 32, 3) == i), 'size tag %d' % i)


def _written(ctx, p, ref, what):
    """the word which ends up in a message"""
    ctx.check(wire.u64(p) == ref, what + ': word')
    b = SegmentBuilder()
    pos = b.allocate(8)
    b.write_int64(pos, p)
    buf = b.as_string()
    ctx.check(len(buf) == 8, what + ': length')
    ctx.check(wire.rd(buf, 0, 8) == ref, what + ': bytes')
    ctx.out(wire.u64(p), buf)


def build_struct(ctx):
    o = ctx.int('offset', -(1 << 29), (1 << 29) - 1)
    d = ctx.int('data', 0, 0xffff)
    n = ctx.int('ptrs', 0, 0xffff)
    p = ptr.new_struct(o, d, n)
    _written(ctx, p, wire.mk_struct(o, d, n), 'new_struct')
    ctx.check(ptr.kind(p) == 0, 'kind')
    ctx.check(ptr.offset(p) == o, 'offset')
    ctx.check(ptr.struct_data_size(p) == d, 'data size')
    ctx.check(ptr.struct_ptrs_size(p) == n, 'ptrs size')


def build_list(ctx):
    o = ctx.int('offset', -(1 << 29), (1 << 29) - 1)
    t = ctx.int('tag', 0, 7)
    n = ctx.int('count', 0, (1 << 29) - 1)
    p = ptr.new_list(o, t, n)
    _written(ctx, p, wire.mk_list(o, t, n), 'new_list')
    ctx.check(ptr.kind(p) == 1, 'kind')
    ctx.check(ptr.offset(p) == o, 'offset')
    ctx.check(ptr.list_size_tag(p) == t, 'size tag')
    ctx.check(ptr.list_item_count(p) == n, 'count')


def build_far(ctx):
    b = ctx.int('pad', 0, 1)
    o = ctx.int('offset', 0, (1 << 29) - 1)
    t = ctx.int('target', 0, (1 << 32) - 1)
    p = ptr.new_far(b, o, t)
    _written(ctx, p, wire.mk_far(b, o, t), 'new_far')
    ctx.check(ptr.kind(p) == 2, 'kind')
    ctx.check(ptr.far_landing_pad(p) == b, 'landing pad')
    ctx.check(ptr.far_offset(p) == o, 'offset')
    ctx.check(ptr.far_target(p) == t, 'target')


def build_generic(ctx):
    k = ctx.int('kind', 0, 3)
    o = ctx.int('offset', -(1 << 29), (1 << 29) - 1)
    e = ctx.int('extra', 0, (1 << 31) - 1)
    p = ptr.new_generic(k, o, e)
    ctx.check(ptr.kind(p) == k, 'kind')
    ctx.check(ptr.offset(p) == o, 'offset')
    ctx.check(ptr.extra(p) == e, 'extra')


def sizes(ctx):
    t = ctx.choice('tag', range(8))
    n = ptr.list_item_length(t)
    ctx.check(n == (0, -1, 1, 2, 4, 8, 8, -1)[t], 'length of an element of size tag %d' % t)


def round_up(ctx):
    i = ctx.int('i', 0, 1 << 61)
    r = ptr.round_up_to_word(i)
    ctx.check(r >= i, 'round_up_to_word goes down')
    ctx.check(r - i < 8, 'round_up_to_word adds too much')
    ctx.check(r & 7 == 0, 'round_up_to_word is not a multiple of 8')
    ctx.out(r)

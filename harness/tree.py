"""Well-formed messages of any shape, laid out in any way, with arbitrary data; and an independent reader
which compares object graphs byte by byte and pointer by pointer.

A shape is one of (JSON-able)
  None                            null pointer
  ['s', d, [child...]]            struct with d data words
  ['l', tag, n]                   list of n elements of a size without pointers
  ['p', [child...]]               list of pointers
  ['c', d, p, [[child...]...]]    list of structs (one list of children per item)
"""
from harness import wire


class Node(object):
    __slots__ = ('kind', 'd', 'p', 'tag', 'n', 'kids', 'seg', 'pos', 'cells', 'slots', 'words')

    def __init__(self, spec):
        self.kind = spec[0]
        self.seg = self.pos = None
        self.cells = None
        self.d = self.p = self.tag = self.n = 0
        kids = []
        if self.kind == 's':
            self.d = spec[1]
            kids = spec[2]
            self.p = len(kids)
            self.words = self.d + self.p
            self.slots = [8 * (self.d + i) for i in range(self.p)]
        elif self.kind == 'l':
            self.tag, self.n = spec[1], spec[2]
            self.words = (wire.ELEM_BITS[self.tag] * self.n + 63) // 64
            self.slots = []
        elif self.kind == 'p':
            kids = spec[1]
            self.tag, self.n = 6, len(kids)
            self.words = self.n
            self.slots = [8 * i for i in range(self.n)]
        elif self.kind == 'c':
            self.tag = 7
            self.d, self.p, items = spec[1], spec[2], spec[3]
            self.n = len(items)
            self.words = 1 + (self.d + self.p) * self.n
            self.slots = []
            for i, it in enumerate(items):
                kids = kids + list(it)
                self.slots += [8 + 8 * ((self.d + self.p) * i + self.d + j) for j in range(self.p)]
        self.kids = [None if k is None else Node(k) for k in kids]
        assert len(self.kids) == len(self.slots)

    def nodes(self):
        """preorder"""
        out = [self]
        for k in self.kids:
            if k is not None:
                out += k.nodes()
        return out

    def has_empty(self):
        return any(n.kind == 's' and n.words == 0 for n in self.nodes())

    def pointer(self, off):
        if self.kind == 's':
            return wire.mk_struct(off, self.d, self.p)
        if self.kind == 'c':
            return wire.mk_list(off, 7, (self.d + self.p) * self.n)
        return wire.mk_list(off, self.tag, self.n)


def bfs(root):
    out = [root]
    i = 0
    while i < len(out):
        out += [k for k in out[i].kids if k is not None]
        i += 1
    return out


class Image(object):
    """a message with the graph of a root node"""

    def __init__(self, ctx, spec, layout='pre', lead=0):
        """layout: pre (preorder), bfs, rev, gap, rgap, far1, far2, mix; lead: garbage words before"""
        self.ctx = ctx
        self.root = Node(spec)
        self.far = layout in ('far1', 'far2', 'mix')
        nseg = 3 if self.far else 1
        self.segs = [[] for _ in range(nseg)]
        self.nlead = lead
        self.count = 0
        self.garbage(0, lead)
        if self.far:
            self.garbage(1, 1)
        order = self.root.nodes()
        if layout == 'bfs':
            order = bfs(self.root)
        elif layout in ('rev', 'rgap'):
            order = order[::-1]
        for i, n in enumerate(order):
            seg = 0
            if layout == 'mix':
                seg = (i // 2) % nseg
            elif self.far:
                seg = i % nseg
            if layout in ('gap', 'rgap') and i:
                self.garbage(seg, 1)
            self.place(n, seg)
        for n in order:
            for off, k in zip(n.slots, n.kids):
                if k is not None:
                    self.link(n.seg, n.pos + off, k, 2 if layout == 'far2' or (layout == 'mix' and off % 16) else 1)
        self.tail = None

    def garbage(self, seg, words):
        pos = len(self.segs[seg])
        if words:
            self.count += 1
            b = self.ctx.bytes('g%d' % self.count, 8 * words)
            self.segs[seg] += [b[i] for i in range(8 * words)]
        return pos

    def place(self, n, seg):
        n.seg = seg
        n.pos = self.garbage(seg, n.words)
        if n.kind == 'c':
            self.put(seg, n.pos, wire.mk_struct(n.n, n.d, n.p))
        for off in n.slots:
            self.put(seg, n.pos + off, 0)
        if n.kind == 'l':
            # the padding of a list has to be zero
            bits = wire.ELEM_BITS[n.tag] * n.n
            cells = self.segs[seg]
            full, rest = divmod(bits, 8)
            for i in range(full, 8 * n.words):
                m = (1 << rest) - 1 if i == full else 0
                cells[n.pos + i] = cells[n.pos + i] & m if m else 0

    def put(self, seg, pos, w):
        self.segs[seg][pos:pos + 8] = wire.word(w)

    def link(self, seg, pos, k, pads):
        """store at seg:pos a pointer to the node k"""
        if k.kind == 's' and k.words == 0:
            self.put(seg, pos, wire.mk_struct(-1, 0, 0))
        elif seg == k.seg:
            self.put(seg, pos, k.pointer((k.pos - pos - 8) // 8))
        elif pads == 1:
            pad = self.garbage(k.seg, 1)
            self.put(k.seg, pad, k.pointer((k.pos - pad - 8) // 8))
            self.put(seg, pos, wire.mk_far(0, pad // 8, k.seg))
        else:
            other = len(self.segs) - 1 - seg
            pad = self.garbage(other, 2)
            self.put(other, pad, wire.mk_far(0, k.pos // 8, k.seg))
            self.put(other, pad + 8, k.pointer(0))
            self.put(seg, pos, wire.mk_far(1, pad // 8, other))

    def offsets(self):
        out = [0]
        for s in self.segs[:-1]:
            out.append(out[-1] + len(s))
        return tuple(out)

    def cells(self):
        return [c for s in self.segs for c in s]

    def buffer(self):
        """what from_buffer takes"""
        buf = self.ctx.pack(self.cells())
        if len(self.segs) == 1:
            return buf
        from capnpy.segment.segment import MultiSegment
        return MultiSegment(buf, self.offsets())

    def struct(self, cls):
        r = self.root
        return cls.from_buffer(self.buffer(), self.offsets()[r.seg] + r.pos, r.d, r.p)

    def node_cells(self, n):
        s = self.segs[n.seg]
        return s[n.pos:n.pos + 8 * n.words]

    def stream(self):
        """the message as a stream: header and segments; the root pointer has to be part of the first segment"""
        n = len(self.segs)
        hdr = wire.word(n - 1)[:4]
        for s in self.segs:
            hdr += wire.word(len(s) // 8)[:4]
        hdr += [0] * (-len(hdr) % 8)
        return hdr + self.cells()


class Mismatch(Exception):
    pass


def check_graph(ctx, img, node, cells, pos, regions, what):
    """the single-segment image in cells has, at pos, a pointer to a graph equal to node's; collects the regions"""
    w = ctx.force(wire.rd(cells, pos, 8))
    if node is None:
        ctx.check(w == 0, what + ': a null pointer is null in the copy')
        return
    if node.kind == 's':
        ctx.check(wire.kind(w) == wire.STRUCT and w != 0, what + ': pointer to a struct')
        ctx.check(wire.field(w, 32, 16) == node.d, what + ': data size')
        ctx.check(wire.field(w, 48, 16) == node.p, what + ': pointers size')
        if node.words == 0:
            return
    else:
        ctx.check(wire.kind(w) == wire.LIST, what + ': pointer to a list')
        ctx.check(wire.field(w, 32, 3) == node.tag, what + ': element size')
        ctx.check(wire.field(w, 35, 29) == ((node.d + node.p) * node.n if node.kind == 'c' else node.n),
                  what + ': element count')
    t = pos + 8 + 8 * wire.off(w)
    check_body(ctx, img, node, cells, t, regions, what)


def check_body(ctx, img, node, cells, t, regions, what):
    size = 8 * node.words
    ctx.check(0 <= t and t + size <= len(cells), what + ': object inside the message')
    if size:
        regions.append((t, t + size))
    src = img.node_cells(node)
    ptrs = set()
    for off in node.slots:
        ptrs.update(range(off, off + 8))
    for i in range(size):
        if i not in ptrs:
            ctx.check(cells[t + i] == src[i], what + ': contents')
    for j, (off, k) in enumerate(zip(node.slots, node.kids)):
        check_graph(ctx, img, k, cells, t + off, regions, '%s[%d]' % (what, j))


def check_tiles(ctx, regions, end, what):
    """the regions cover 0..end exactly once"""
    at = 0
    for a, b in sorted(regions):
        ctx.check(a == at, what + ': no gap and no overlap between objects')
        at = b
    ctx.check(at == end, what + ': ends with the last object')


# -- shapes ---------------------------------------------------------------------
LEAVES = [None, ['s', 0, []], ['s', 1, []], ['s', 2, []], ['s', 0, [None]], ['s', 1, [None, None]],
          ['l', 0, 3], ['l', 1, 0], ['l', 1, 9], ['l', 1, 64], ['l', 1, 65], ['l', 2, 1], ['l', 2, 8], ['l', 2, 9], ['l', 3, 3], ['l', 4, 2],
          ['l', 4, 3], ['l', 5, 1], ['p', []], ['p', [None]], ['c', 0, 0, []], ['c', 1, 1, []], ['c', 1, 0, [[], []]],
          ['c', 0, 0, [[], []]], ['c', 0, 1, [[None], [None]]]]
SMALL = [None, ['s', 1, []], ['l', 2, 3], ['s', 0, []]]


def inner(kids2):
    """inner nodes over two children"""
    a, b = kids2
    return [['s', 0, [a, b]], ['s', 1, [a, b]], ['p', [a, b]], ['c', 0, 1, [[a], [b]]], ['c', 1, 1, [[a], [b]]],
            ['c', 0, 2, [[a, b]]], ['c', 1, 2, [[a, b], [None, a]]]]


def pick(ctx, fam, name=''):
    """an arbitrary shape of a family"""
    if fam == 'leaf':
        return ctx.choice(name + 'leaf', LEAVES)
    if fam == 'small':
        return ctx.choice(name + 'small', SMALL)
    if fam == 'pair':
        # an inner node with two small leaves
        a, b = pick(ctx, 'small', name + 'a'), pick(ctx, 'small', name + 'b')
        return inner((a, b))[ctx.choice(name + 'inner', range(7))]
    if fam == 'deep':
        a = pick(ctx, 'pair', name + 'x')
        b = pick(ctx, 'small', name + 'y')
        if ctx.choice(name + 'swap', (0, 1)):
            a, b = b, a
        return inner((a, b))[ctx.choice(name + 'outer', range(7))]
    raise ValueError(fam)

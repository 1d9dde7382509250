"""One view of both assemblers: published positions, tags, and an independent
reading of opcodes (ints) through them."""
from hwtypes import BitVector
from vlib import adtgen
from peak.assembler.assembler import Assembler as Asm1
from peak.assembler2.assembler import Assembler as Asm2


class View:
    """Positions and tags of a spec under assembler version ver, all as plain ints."""
    def __init__(self, ver, builder, spec):
        self.ver, self.b, self.spec = ver, builder, spec
        self.T = builder(spec)
        self.asm = (Asm1 if ver == 1 else Asm2)(self.T)
        self.width = self.asm.width
        self.subs = adtgen.subs(spec)
        self.sub = [View(ver, builder, t) for _, t in self.subs]
        self.kind = spec[0]
        if self.kind in ('sum', 'tu'):
            n = len(self.subs)
            if ver == 1:
                self.tag_pos = tuple(self.asm.tag_layout)
                self.tags = [self.asm.assemble_tag(self.key(i), BitVector).as_uint() for i in range(n)]
            self.pos = [self.position(i) for i in range(n)]
        elif self.subs:
            self.pos = [self.position(i) for i in range(len(self.subs))]
        if self.kind == 'enum':
            self.codes = {m: self.asm.assemble(getattr(self.T, m)).as_uint() for m, _ in spec[2]}
            self.members = {c: m for m, c in self.codes.items()}

    def key(self, i):
        """How the assembler names part i."""
        k, t = self.subs[i]
        return self.b(t) if self.kind == 'sum' else k

    def position(self, i):
        """(low, high) of part i: published by v1; found by probing extract of v2 with single bits."""
        if self.ver == 1:
            return tuple(self.asm.layout[self.key(i)])
        w = self.width
        pos = [None] * self.sub[i].width
        for b in range(w):
            x = self.asm.extract(BitVector[w](1 << b), self.key(i))
            for j in range(len(pos)):
                if bool(x[j]):
                    assert pos[j] is None
                    pos[j] = b
        if not pos:
            return (0, 0)
        assert all(p is not None for p in pos) and pos == list(range(pos[0], pos[0] + len(pos))), pos
        return (pos[0], pos[-1] + 1)

    def alternatives(self, op):
        """Indices of the alternatives the opcode selects."""
        if self.ver == 1:
            lo, hi = self.tag_pos
            t = (op >> lo) & ((1 << (hi - lo)) - 1)
            return [i for i, x in enumerate(self.tags) if x == t]
        v = BitVector[self.width](op)
        return [i for i in range(len(self.subs)) if bool(self.asm.match(v, self.key(i)))]

    def part(self, op, i):
        lo, hi = self.pos[i]
        return (op >> lo) & ((1 << (hi - lo)) - 1)

    def read(self, op):
        """The value an opcode encodes, or None when it encodes none."""
        k = self.kind
        if k in ('bit', 'bv', 's', 'u'):
            return op
        if k == 'enum':
            return self.members.get(op)
        if k in ('sum', 'tu'):
            alts = self.alternatives(op)
            if len(alts) != 1:
                return None
            v = self.sub[alts[0]].read(self.part(op, alts[0]))
            return None if v is None else [alts[0], v]
        vs = [s.read(self.part(op, i)) for i, s in enumerate(self.sub)]
        return None if None in vs else vs

    def mask(self, v):
        """The opcode bits value v uses."""
        k = self.kind
        full = (1 << self.width) - 1
        if k in ('bit', 'bv', 's', 'u', 'enum'):
            return full
        if k in ('sum', 'tu'):
            i = v[0]
            lo, hi = self.pos[i]
            rest = 0
            for p in self.payload_union():
                rest |= 1 << p
            return (full & ~rest) | (self.sub[i].mask(v[1]) << lo)
        m = 0
        for i, s in enumerate(self.sub):
            m |= s.mask(v[i]) << self.pos[i][0]
        return m

    def payload_union(self):
        return {p for lo, hi in self.pos for p in range(lo, hi)}


def opcodes(view, rng, vals, builder, exhaustive=10, n=150):
    """Opcodes to judge: all of them for small widths, else valid ones, their neighbours and random ones."""
    w = view.width
    if w <= exhaustive:
        return list(range(1 << w)), True
    base = [view.asm.assemble(builder.inst(view.spec, v)).as_uint() for v in vals[:20]]
    ops = set(base)
    for _ in range(n):
        o = rng.choice(base)
        r = rng.random()
        if r < 0.5:
            for _ in range(rng.randint(1, 3)):
                o ^= 1 << rng.randrange(w)
        elif r < 0.7:
            o = (o + rng.choice([1, -1, 2, -2]) * (1 << rng.randrange(w))) % (1 << w)
        else:
            o = rng.getrandbits(w)
        ops.add(o)
    return sorted(ops), False

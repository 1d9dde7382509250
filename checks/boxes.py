"""Black boxes and designs around them, specialised through family closures (shared by B01 and B02)."""
from functools import lru_cache
from hwtypes import BitVector as HBV, Bit as HBit, SIntVector as HS
from hwtypes.adt import Enum, Product
from peak import Peak, Const, family, family_closure, name_outputs
from peak.black_box import BlackBox

FAM = {'py': family.PyFamily, 'pyx': family.PyXFamily, 'smt': family.SMTFamily}


class Mode(Enum):
    m0 = 0
    m1 = 1
    m2 = 2


class Inst(Product):
    e = Mode
    imm = HBV[3]


@family_closure
def one(family):
    BV = family.BitVector

    @family.assemble(locals(), globals())
    class One(Peak, BlackBox):
        def __call__(self, x: BV[8]) -> BV[8]:
            return x + 1
    return One


@family_closure
def two(family):
    BV = family.BitVector

    @family.assemble(locals(), globals())
    class Two(Peak, BlackBox):
        @name_outputs(s=BV[8], c=family.Bit)
        def __call__(self, b: BV[8], a: BV[8]):
            return b - a, b == a
    return Two


@family_closure
def three(family):
    BV = family.BitVector
    Bit = family.Bit
    S = family.Signed

    @family.assemble(locals(), globals())
    class Three(Peak, BlackBox):
        def __call__(self, z: Bit, y: BV[5], x: S[8]) -> (BV[5], S[8], Bit):
            if z:
                r = y
            else:
                r = y + 3
            return r, x, ~z
    return Three


@family_closure
def inst(family):
    BV = family.BitVector

    @family.assemble(locals(), globals())
    class WithInst(Peak, BlackBox):
        def __init__(self):
            super().__init__()
            self.extra = 3

        def __call__(self, i: Const(Inst), x: BV[8]) -> BV[8]:
            if i.e == Mode.m1:
                return x
            else:
                return ~x
    return WithInst


@family_closure
def sub(family):
    Base = one(family)

    class SubOne(Base):
        pass
    return SubOne


BOXES = [one, two, three, inst]
SIG = {one: ([('x', ('bv', 8))], [('bv', 8)]), two: ([('b', ('bv', 8)), ('a', ('bv', 8))], [('bv', 8), ('bit',)]),
       three: ([('z', ('bit',)), ('y', ('bv', 5)), ('x', ('s', 8))], [('bv', 5), ('s', 8), ('bit',)]),
       inst: ([('i', ('inst',)), ('x', ('bv', 8))], [('bv', 8)])}


@family_closure
def reg(family):
    return family.gen_register(family.BitVector[8], 0)


@family_closure
def node(family):
    BV = family.BitVector

    @family.assemble(locals(), globals())
    class Node(Peak):
        def __call__(self, x: BV[8]) -> BV[8]:
            return x
    return Node


@family_closure
def chain(family):
    """Boxes called in sequence, by position and by name, one of them twice, another below."""
    BV = family.BitVector
    One = one(family)
    Two = two(family)
    Inner = inner(family)

    @family.assemble(locals(), globals())
    class Chain(Peak):
        def __init__(self):
            self.p: One = One()
            self.q: Two = Two()
            self.d: Inner = Inner()
            self.r: One = One()

        def __call__(self, k: Const(BV[2]), x: BV[8], y: BV[8]) -> (BV[8], BV[8]):
            u = self.p(x)
            s, c = self.q(a=y, b=u)
            v = self.d(s, y)
            w = self.r(v)
            t = self.p(w ^ y)
            if k == 0:
                o = u
            elif (k == 1) | c:
                o = w
            else:
                o = v + t
            return o, s
    return Chain


@family_closure
def inner(family):
    BV = family.BitVector
    Three = three(family)
    S = family.Signed

    @family.assemble(locals(), globals())
    class Inner(Peak):
        def __init__(self):
            self.bb: Three = Three()

        def __call__(self, x: BV[8], y: BV[8]) -> BV[8]:
            a, b, c = self.bb(x[0], y[0:5], S[8](x))
            if c:
                return a.zext(3)
            else:
                return BV[8](b)
    return Inner

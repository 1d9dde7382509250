"""A05: assembled values behave like the plain values they encode."""
from hwtypes import BitVector, SMTBitVector, Bit, SMTBit, AbstractBit, AbstractBitVector
import pysmt.shortcuts as smt
from vlib import adtgen, asmview
from peak.assembler.assembler import Assembler as Asm1
from peak.assembler.assembled_adt import AssembledADT as AADT1
from peak.assembler2.assembler import Assembler as Asm2
from peak.assembler2.assembled_adt import AssembledADT as AADT2

RULE = ('random composite types (depth<=4) as assembled types over concrete, symbolic-constant and free symbolic vectors with both assemblers; '
        'values built from the plain value, the opcode and the fields in every accepted style; every field at every depth read back; '
        'equality against plain values; wrong types and arities; distinct = (assembler, domain, type shape, value)')
N = {'quick': 2000, 'thorough': 40000}
BUDGET = {'quick': 120, 'thorough': 1200}
ASSUMPTIONS = ['zero-width parts are exercised for concrete vectors only: symbolic vectors of width 0 do not exist']


class Dom:
    def __init__(self, ver, bv, free=None):
        self.ver, self.bv = ver, bv
        self.asm = Asm1 if ver == 1 else Asm2
        self.aadt = AADT1 if ver == 1 else AADT2
        self.free = free

    def t(self, T):
        return self.aadt[T, self.asm, self.bv]

    def const(self, e):
        if self.bv is BitVector:
            return e
        v = e.value
        if self.free:
            v = smt.substitute(v, self.free)
        v = smt.simplify(v)
        if not v.is_constant():
            raise AssertionError(f'not constant: {v}')
        return v.constant_value()

    def int(self, e):
        if self.bv is BitVector:
            return int(e) if isinstance(e, Bit) else e.as_uint()
        return int(self.const(e))

    def truth(self, e):
        if isinstance(e, bool):
            return e
        return bool(e) if self.bv is BitVector else bool(self.const(e))

    @property
    def bit(self):
        return Bit if self.bv is BitVector else SMTBit


def key(b, s, i):
    k, t = adtgen.subs(s)[i]
    return b(t) if s[0] == 'sum' else k


def get(s, x, k):
    return getattr(x, k) if s[0] in ('prod', 'tu') else x[k]


def case(ctx, rng):
    zero = rng.random() < 0.25
    g = adtgen.Gen(rng, zero=zero, big=0.08)
    while True:
        spec = g.spec(rng.randint(1, 4), top=True)
        if spec[0] not in ('bit', 'bv', 's', 'u'):
            break
    for s in adtgen.twins(spec, rng):
        one(ctx, rng, zero, s)


def one(ctx, rng, zero, spec):
    b = adtgen.Builder(rng=rng)
    T = b(spec)
    ctx.note(f'type {spec}')
    for ver in (1, 2):
        view = asmview.View(ver, b, spec)
        doms = ['py'] if zero else ['py', rng.choice(['smt', 'free', 'free'])]
        for dn in doms:
            vals = [adtgen.rand_value(spec, rng) for _ in range(6 if dn == 'py' else 3)]
            for v in vals:
                inst = b.inst(spec, v)
                op = view.asm.assemble(inst).as_uint()
                w = view.width
                if dn == 'free':
                    x = SMTBitVector[w]()
                    d = Dom(ver, SMTBitVector, {x.value: smt.BV(op, w)})
                    a = d.t(T)(x)
                else:
                    d = Dom(ver, BitVector if dn == 'py' else SMTBitVector)
                    ctx.eq(d.int(d.t(T)(inst)._value_), op, f'v{ver} {dn} opcode of the value built from {inst!r}')
                    a = d.t(T)(d.bv[w](op))
                    ctx.ok(d.truth(a == d.t(T)(inst)), f'v{ver} {dn} value from opcode and from {inst!r} differ')
                    c = d.t(T)(a)
                    ctx.eq(d.int(c._value_), op, f'v{ver} {dn} copy of {a!r}')
                reads(ctx, d, b, view, spec, v, inst, a, f'v{ver} {dn}')
                equality(ctx, d, b, view, spec, v, inst, a, vals, rng, f'v{ver} {dn}')
                fields = build(ctx, d, b, spec, v, rng, f'v{ver} {dn}')
                ctx.eq(d.int(fields._value_), op, f'v{ver} {dn} value built from the fields of {inst!r}')
                ctx.seen(ver, dn, adtgen.shape(spec), str(v))
                ctx.event(f'values_{dn}')
            rejects(ctx, d, b, view, spec, v, rng, f'v{ver} {dn}')
    ctx.sample(f'{spec} {v}')


def reads(ctx, d, b, view, s, v, inst, a, what):
    """Read every part of the assembled value a; compare with the plain value v."""
    for i, (_, t) in enumerate(adtgen.subs(s)):
        k = key(b, s, i)
        part = get(s, a, k)
        if adtgen.is_sum(s):
            m = d.truth(part.match)
            ctx.ok(isinstance(part.match, d.bit), f'{what} match is a {type(part.match)}')
            ctx.ok(m == (v[0] == i), f'{what} alternative {k} of {inst!r} matches: {m}', s)
            ctx.event('matches')
            if v[0] != i:
                continue
            part, x = part.value, v[1]
        else:
            x = v[i]
        leaf(ctx, d, b, view.sub[i], t, x, part, f'{what} field {k} of {inst!r}')
        ctx.event('fields_read')
        if adtgen.subs(t):
            reads(ctx, d, b, view.sub[i], t, x, b.inst(t, x), part, what)


def leaf(ctx, d, b, view, t, x, part, what):
    want = view.asm.assemble(b.inst(t, x)).as_uint()
    k = t[0]
    if k == 'bit':
        ctx.ok(isinstance(part, d.bit), f'{what} is a {type(part)}, expected a bit')
        ctx.eq(d.int(part), want, what)
        return
    if k in ('bv', 's', 'u'):
        fam = d.bv.get_family()
        T = {'bv': fam.BitVector, 's': fam.Signed, 'u': fam.Unsigned}[k][t[1]]
        ctx.ok(isinstance(part, T), f'{what} is a {type(part)}, expected a {T}')
        ctx.eq(d.int(part), want, what)
        return
    ctx.ok(isinstance(part, d.t(b(t))), f'{what} is a {type(part)}, expected an assembled {t}')
    ctx.eq(d.int(part._value_), want, what)
    ctx.ok(d.truth(part == b.inst(t, x)), f'{what} does not equal the plain field {x}')


def equality(ctx, d, b, view, spec, v, inst, a, vals, rng, what):
    T = d.t(b(spec))
    for u in [v] + [rng.choice(vals), adtgen.rand_value(spec, rng), near(spec, v, rng)]:
        other = b.inst(spec, u)
        want = u == v
        op = view.asm.assemble(other).as_uint()
        for o in (other, T(other), d.bv[view.width](op)):
            e, n = (a == o), (a != o)
            ctx.ok(d.truth(e) == want, f'{what} {a!r} == {o!r} is {e}, the plain values {v} and {u}')
            ctx.ok(d.truth(n) == (not want), f'{what} {a!r} != {o!r} is {n}, the plain values {v} and {u}')
            ctx.event('comparisons')


def near(s, v, rng):
    """A value differing from v in one leaf."""
    k = s[0]
    if k == 'bit':
        return 1 - v
    if k in ('bv', 's', 'u'):
        return v ^ (1 << rng.randrange(s[1]))
    if k == 'enum':
        return rng.choice(s[2])[0]
    if adtgen.is_sum(s):
        return [v[0], near(adtgen.subs(s)[v[0]][1], v[1], rng)]
    i = rng.randrange(len(v))
    return [near(adtgen.subs(s)[j][1], x, rng) if j == i else x for j, x in enumerate(v)]


def operand(ctx, d, b, t, x, rng, what):
    """One of the accepted ways to give field value x of type t."""
    k = t[0]
    fam = d.bv.get_family()
    if k == 'bit':
        return fam.Bit(x)
    if k in ('bv', 's', 'u'):
        c = {'bv': fam.BitVector, 's': fam.Signed, 'u': fam.Unsigned}[k]
        return rng.choice([c, c, fam.BitVector])[t[1]](x)
    inst = b.inst(t, x)
    how = rng.choice(['aadt', 'bv', 'deep'] + (['plain'] if d.ver == 1 else []))
    if how == 'plain':
        return inst
    if how == 'deep' and k != 'enum':
        return build(ctx, d, b, t, x, rng, what)
    A = d.t(b(t))(inst)
    return A._value_ if how == 'bv' else A


def build(ctx, d, b, s, v, rng, what):
    A = d.t(b(s))
    k = s[0]
    make = A.from_fields if d.ver == 2 or rng.random() < 0.5 else A
    if k == 'enum':
        if d.ver == 2:
            return A.from_fields(A(b.inst(s, v))._value_)
        return make(b.inst(s, v))
    if k == 'tu':
        f, t = s[2][v[0]]
        return make(**{f: operand(ctx, d, b, t, v[1], rng, what)})
    if k == 'sum':
        t = s[1][v[0]]
        return make(b(t), operand(ctx, d, b, t, v[1], rng, what))
    ops = [operand(ctx, d, b, t, x, rng, what) for (_, t), x in zip(adtgen.subs(s), v)]
    if make is A and len(ops) == 1:
        # a lone operand of the constructor is the value itself
        make = A.from_fields
    if k == 'tuple':
        return make(*ops)
    n = rng.randint(0, len(ops))
    kw = {f: o for (f, _), o in list(zip(s[2], ops))[n:]}
    items = list(kw.items())
    rng.shuffle(items)
    return make(*ops[:n], **dict(items))


def rejects(ctx, d, b, view, s, v, rng, what):
    A = d.t(b(s))
    w = view.width
    k = s[0]
    n = len(adtgen.subs(s))
    single = k in ('prod', 'tuple') and n == 1
    if not single:
        ctx.raises(lambda: A(d.bv[w + 1](0)), f'{what} opcode one bit too wide')
        if w > 1:
            ctx.raises(lambda: A(d.bv[w - 1](0)), f'{what} opcode one bit too narrow')
        o = ['prod', 'Other', [['q', ['bv', 3]]]]
        ctx.raises(lambda: A(b.inst(o, [1])), f'{what} value of another type')
        ctx.raises(lambda: A('x'), f'{what} a string')
    if n == 0:
        return
    sub = adtgen.subs(s)
    if k in ('prod', 'tuple'):
        ops = [operand(ctx, d, b, t, x, rng, what) for (_, t), x in zip(sub, v)]
        ctx.raises(lambda: A.from_fields(*ops[1:]), f'{what} one field missing')
        ctx.raises(lambda: A.from_fields(*ops, ops[0]), f'{what} one field too many')
        if k == 'prod':
            ctx.raises(lambda: A.from_fields(*ops, nofield=ops[0]), f'{what} unknown field')
            ctx.raises(lambda: A.from_fields(*ops, **{s[2][0][0]: ops[0]}), f'{what} field given twice')
        # (in the first assembler a product of one field is also made from that field, which hwtypes resizes)
        comp = [i for i in range(n) if sub[i][1][0] not in ('bit', 'bv', 's', 'u')
                and not (sub[i][1][0] in ('prod', 'tuple') and len(adtgen.subs(sub[i][1])) == 1)]
        if comp:
            i = rng.choice(comp)
            bad = list(ops)
            bad[i] = d.bv[view.sub[i].width + 1](0)
            ctx.raises(lambda: A.from_fields(*bad), f'{what} field {i} one bit too wide')
            js = [j for j in comp if view.sub[j].width != view.sub[i].width]
            if js:
                bad = list(ops)
                j = rng.choice(js)
                bad[i], bad[j] = d.bv[view.sub[j].width](0), d.bv[view.sub[i].width](0)
                ctx.raises(lambda: A.from_fields(*bad), f'{what} opcodes of fields {i} and {j} (widths differ) swapped')
    elif k == 'tu':
        ops = {f: operand(ctx, d, b, t, adtgen.rand_value(t, rng), rng, what) for f, t in s[2]}
        ctx.raises(lambda: A.from_fields(), f'{what} no alternative given')
        if n > 1:
            ctx.raises(lambda: A.from_fields(**dict(list(ops.items())[:2])), f'{what} two alternatives given')
        ctx.raises(lambda: A.from_fields(nofield=d.bv[1](0)), f'{what} unknown alternative')
    elif k == 'sum':
        t = s[1][0]
        o = operand(ctx, d, b, t, adtgen.rand_value(t, rng), rng, what)
        ctx.raises(lambda: A.from_fields(o), f'{what} no alternative named')
        ctx.raises(lambda: A.from_fields(BitVector[77], d.bv[77](0)), f'{what} unknown alternative')

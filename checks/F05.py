"""F05: histories of requests to family closures, against a dictionary of what was asked for."""
import os, sys, types
import hwtypes, magma
from hwtypes import Bit, BitVector, SIntVector
from hwtypes.adt import Enum, Product, Sum, TaggedUnion, Tuple
from ast_tools.passes import ssa, bool_to_bit
from vlib import adtgen, proggen
from checks.F01 import load
from peak import Peak, Const, family, family_closure
from peak.assembler.assembler import Assembler
from peak.assembler.assembled_adt import AssembledADT

RULE = ('(a) the pairwise comparison of a pool of families (five kinds, user subclasses of each, several assemblers given or by default, pass lists, equal configurations '
        'built twice, ignored extra arguments) against the comparison of their descriptions, with hashing, sets and dictionaries; (b) interleaved histories of requests to several '
        'family-generic definitions (families x options by position and name, .Py/.PyX/.SMT/.Magma, own family modules, bodies that fail or ask other definitions) against a '
        'dictionary of earlier answers; (c) real designs specialised in random order to several families, assemblers and options, whose types and outputs must be those asked for; '
        'distinct = (part, request key)')
N = {'quick': 640, 'thorough': 9000}
BUDGET = {'quick': 150, 'thorough': 1200}
ASSUMPTIONS = ['the passes of the standard rewriting families are fixed by their class', 'options that Python itself considers equal (1, True, 1.0) are not told apart']


class AsmA(Assembler):
    pass


class AsmB(Assembler):
    pass


def _twin():
    class AsmA(Assembler):
        pass
    AsmA.__qualname__ = 'AsmA'
    return AsmA


ASMS = [Assembler, AsmA, AsmB, _twin()]     # the last has the name of another, as the two assemblers of the package have


class MyPy(family.PyFamily):
    pass


class MyPyX(family.PyXFamily):
    def __init__(self, *args, tuning=None, **kwargs):
        super().__init__(*args, **kwargs)


class MySMT(family.SMTFamily):
    pass


class MyMagma(family.MagmaFamily):
    pass


class MyPyX2(MyPyX):
    pass


class Rew(family._RewriterFamily, family.PyFamily):
    pass


PASSES = [(), (ssa(),), (ssa(), bool_to_bit()), (bool_to_bit(),)]
ASM = [family.PyXFamily, family.SMTFamily, family.MagmaFamily, MyPyX, MySMT, MyMagma, MyPyX2]


def rand_family(rng, magma_too=True):
    """(description, fresh family object)."""
    k = rng.random()
    if k < 0.12:
        return (family.PyFamily,), family.PyFamily(**({'extra': rng.randint(0, 3)} if rng.random() < 0.3 else {}))
    if k < 0.2:
        return (MyPy,), MyPy()
    if k < 0.3 and magma_too:
        i = rng.randrange(len(PASSES))
        return (Rew, i), Rew(passes=PASSES[i])
    C = rng.choice(ASM if magma_too else [c for c in ASM if not issubclass(c, family.MagmaFamily)])
    a = rng.choice([None] + ASMS)
    kw = {'tuning': rng.randint(0, 2)} if issubclass(C, MyPyX) and rng.random() < 0.3 else {}
    return (C, a or Assembler), (C(**kw) if a is None and rng.random() < 0.5 else C(a, **kw) if rng.random() < 0.5 else C(assembler=a, **kw))


def pool(ctx, rng):
    items = [rand_family(rng) for _ in range(rng.randint(6, 16))]
    index = {}
    for d, f in items:
        for e, g in items:
            same = d == e
            ctx.ok((f == g) is same, f'{d} == {e} is {f == g}')
            ctx.ok((f != g) is (not same), f'{d} != {e} is {f != g}')
            if same:
                ctx.ok(hash(f) == hash(g), f'equal families {d} hash differently')
            ctx.event('family_pairs')
            ctx.event('equal_pairs', int(same))
        index.setdefault(f, set()).add(d)
        for other in (None, 0, 'x', type(f), d, object()):
            ctx.ok((f == other) is False and (f != other) is True, f'{d} equals {other!r}')
        ctx.seen('family', repr(d))
    ctx.ok(all(len(s) == 1 for s in index.values()), 'a dictionary confuses families')
    ctx.eq(len(index), len({d for d, _ in items}), 'families as dictionary keys')


OPTS = [1, 2, 5, 'x', 'y', None, (1, 2), (2, 1), BitVector[3], BitVector[4], SIntVector[4], Bit, frozenset({1, 2}), AsmA, b'x', 2.5, -1]


class Boom(Exception):
    pass


def histories(ctx, rng):
    calls, made = [], []
    fail = set()

    def make(i, parent):
        def fc(family, *args, **kwargs):
            rec = (i, family, args, kwargs)
            calls.append(rec)
            if i in fail:
                raise Boom
            res = types.SimpleNamespace(made_for=rec)
            if parent is not None:
                res.sub = parent(family)
            res = res if not kwargs.get('none') else None
            made.append((i, family, args, kwargs, res))
            return res
        k = rng.random()
        if k < 0.25:
            mod = types.SimpleNamespace(PyFamily=MyPy, PyXFamily=MyPyX, SMTFamily=MySMT, MagmaFamily=MyMagma)
            return family_closure(mod)(fc), mod
        return family_closure(fc), family
    closures = []
    for i in range(rng.randint(1, 4)):
        closures.append(make(i, rng.choice(closures)[0] if closures and rng.random() < 0.5 else None))
    seen = {}
    names = ['w', 'opt', 'mode', 'none']
    for step in range(rng.randint(10, 40)):
        i = rng.randrange(len(closures))
        c, mod = closures[i]
        if rng.random() < 0.2:
            a = rng.choice(['Py', 'PyX', 'SMT', 'Magma'])
            C = getattr(mod, a + 'Family')
            desc = (C,) if issubclass(C, family.PyFamily) and not issubclass(C, family.PyXFamily) else (C, Assembler)
            args, kwargs = (), {}
            ask = lambda: getattr(c, a)
            fobj = C()
        else:
            desc, fobj = rand_family(rng)
            args = tuple(rng.choice(OPTS) for _ in range(rng.choice([0, 0, 0, 1, 2])))
            kwargs = {n: rng.choice(OPTS) for n in rng.sample(names, rng.choice([0, 0, 1, 2, 3]))}
            if kwargs and rng.random() < 0.3 and seen:
                prev = [k for k in seen if k[0] == i and k[3]]
                if prev:
                    _, desc, args, kw = rng.choice(prev)
                    items = list(kw)
                    rng.shuffle(items)
                    kwargs = dict(items)
                    fobj = build(desc)
            ask = lambda: c(fobj, *args, **kwargs)
        key = (i, desc, args, frozenset(kwargs.items()))
        fail.clear()
        if key not in seen and rng.random() < 0.08:
            fail.add(i)
            ctx.raises(ask, 'the error of the definition itself', exc=Boom)
            fail.clear()
        n = len(calls)
        got = ask()
        mine = [r for r in calls[n:] if r[0] == i and r[2:] == (args, kwargs)]
        if key in seen:
            ctx.ok(got is seen[key], f'step {step}: asking again for {key} gave another specialisation')
            ctx.eq(len(calls) - n, 0, f'step {step}: specialised again for {key}')
            ctx.event('repeated_requests')
        else:
            ctx.ok(len(mine) == 1, f'step {step}: {key} was specialised {len(mine)} times')
            ctx.ok(mine[0][1] == fobj and type(mine[0][1]) is type(fobj), f'step {step}: {key} was specialised for {mine[0][1]}')
            seen[key] = got
            ctx.event('new_requests')
        if got is not None:
            j, f, a, k = got.made_for
            ctx.ok(j == i and f == fobj and type(f) is desc[0] and a == args and k == kwargs, f'step {step}: {key} got the specialisation for {got.made_for}')
            if hasattr(got, 'sub'):
                sf = got.sub.made_for[1]
                ctx.ok(sf == fobj and type(sf) is desc[0], f'step {step}: the inner definition of {key} is for {sf}')
        else:
            ctx.ok(bool(kwargs.get('none')), f'{key} gave None')
        for j, _, a, kw, res in made:
            # the definitions asked by the one asked
            seen.setdefault((j, desc, a, frozenset(kw.items())), res)
        made.clear()
        ctx.seen('history', repr(desc), len(args), tuple(sorted(kwargs)))
    if rng.random() < 0.3:
        ctx.raises(lambda: closures[0][0](family.PyFamily(), opt=[1]), 'an option that cannot be remembered', exc=TypeError)


def build(desc):
    if desc[0] is Rew:
        return Rew(passes=PASSES[desc[1]])
    return desc[0](desc[1]) if len(desc) > 1 else desc[0]()


SRC = '''
from hwtypes import Bit as HBit, BitVector as HBV, SIntVector as HS, UIntVector as HU
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
from peak import Peak, family_closure, Const
{types}
@family_closure
def inner(family, w, k=1):
    BV = family.BitVector
    @family.assemble(locals(), globals())
    class I(Peak):
        def __init__(self):
            self.r: BV[w] = family.gen_register(BV[w], 1)()
        def __call__(self, x: BV[w], en: family.Bit) -> BV[w]:
            return self.r(x, en) + k
    return I

@family_closure
def fc(family, w=4, *, op='add', k=1, flip=False, fun=None):
    BV = family.BitVector
    I = inner(family, w, k)
    one = BV[w](1) if flip else BV[w](0)
    @family.assemble(locals(), globals())
    class D(Peak):
        def __init__(self):
            self.i: I = I()
        def __call__(self, inst: Const({inst}), x: BV[w], en: family.Bit) -> (BV[w], family.Bit):
            y = self.i(x, en)
            if {cond}:
                z = (y ^ x) ^ one
            else:
                z = y {sym} x
            return z, en & family.Bit(1)
    return D
'''


def designs(ctx, rng):
    name = f'k_{ctx.index}'
    m = rng.randint(2, 5)
    pay = rng.random() < 0.5
    types_ = f'class I0(Enum):\n' + ''.join(f'    m{i} = Enum.Auto()\n' if rng.random() < 0.5 else f'    m{i} = {i}\n' for i in range(m))
    inst, cond = 'I0', 'inst == I0.m1'
    if pay:
        types_ += 'class I1(Product):\n    e = I0\n    v = HBV[3]\n'
        inst, cond = 'I1', 'inst.e == I0.m1'
    sym = rng.choice(['+', '-', '&', '|'])
    src = SRC.format(types=types_, inst=inst, cond=cond, sym=sym)
    ctx.note(src)
    mod = load(src, os.getcwd(), name)
    try:
        reqs = []
        base = [rand_family(rng, magma_too=False)[0] for _ in range(2)]
        for _ in range(rng.randint(3, 5)):
            # few families and widths, so that requests often differ in one thing only
            d = rng.choice(base)
            kw = {}
            if rng.random() < 0.7:
                kw['k'] = rng.randint(1, 3)
            if rng.random() < 0.4:
                kw['flip'] = True
            if rng.random() < 0.3:
                kw['op'] = 'add'
            w = rng.choice([3, 4, 4, 5])
            if rng.random() < 0.5:
                kw['w'] = w
                pos = ()
            else:
                pos = (w,)
            reqs.append((d, pos, frozenset(kw.items())))
        reqs += [rng.choice(reqs) for _ in range(2)]
        got = {}
        for d, pos, kws in reqs:
            kw = list(kws)
            rng.shuffle(kw)
            kw = dict(kw)
            f = build(d)
            D = mod.fc(f, *pos, **kw)
            key = (d, pos, kws)
            if key in got:
                ctx.ok(D is got[key], f'asking again for {key} gave another class')
            w = pos[0] if pos else kw.get('w', 4)
            conf = (d, w, kw.get('k', 1), kw.get('flip', False))
            ctx.ok(all(D is not v for kk, v in got.items() if kk != key), f'{key} was given the class made for another request')
            got[key] = D
            ctx.seen('design', repr(conf))
            use(ctx, rng, mod, d, f, w, D, m, pay, sym, kw.get('k', 1), kw.get('flip', False))
            I = mod.inner(build(d), w, kw.get('k', 1))
            ctx.ok(isinstance(D().i, I), f'{key}: the component is not the one specialised for this family')
            ctx.event('designs')
    finally:
        sys.modules.pop(name, None)


def use(ctx, rng, mod, d, f, w, D, m, pay, sym, k, flip):
    F = d[0]
    Bt, BV = (hwtypes.SMTBit, hwtypes.SMTBitVector) if issubclass(F, family.SMTFamily) else (hwtypes.Bit, hwtypes.BitVector)
    ctx.ok(f.Bit is Bt and f.BitVector is BV, f'{d} types')
    fs = D.input_t.field_dict
    ctx.ok(fs['x'] is BV[w] and fs['en'] is Bt, f'{d} inputs {fs}')
    T = mod.I1 if pay else mod.I0
    ctx.ok(D.output_t.field_dict[0] is BV[w], f'{d} outputs')
    A = f.get_adt_t(T)
    if len(d) > 1 and d[0] is not Rew:
        ctx.ok(A is AssembledADT[T, d[1], BV], f'{d}: instructions are {A}')
        ctx.ok(A.assembler_t is d[1] and A.bv_type is BV, f'{d}: assembler {A.assembler_t}')
    else:
        ctx.ok(A is T, f'{d}: instructions are {A}')
    ctx.ok(f.get_adt_t(BV[3]) is BV[3] and f.get_adt_t(Bt) is Bt, f'{d} get_adt_t of bits')
    if len(d) > 1 and d[0] is not Rew:
        ctx.raises(lambda: f.get_adt_t(rng.choice([int, str, object])), 'get_adt_t of no ADT', exc=TypeError)
    R = f.gen_register(BV[w], 3)
    ctx.ok(issubclass(R, family._RegFamily.RegBase), 'register class')
    if True:
        o = D()
        state = 1
        for _ in range(3):
            e = rng.randrange(m)
            x, en = rng.randrange(1 << w), rng.randrange(2)
            v = getattr(mod.I0, f'm{e}')
            inst = mod.I1(v, BitVector[3](rng.randrange(8))) if pay else v
            cons = f.get_constructor(T)
            if rng.random() < 0.5 and pay and not A is T:
                inst2 = cons(e=v, v=BV[3](2))
                ctx.ok(isinstance(inst2, A), f'{d} constructor gives {inst2!r}')
            i = inst if A is T else A(inst)
            out, b = o(i, BV[w](x), Bt(en))
            y = (state + k) % (1 << w)
            if en:
                state = x
            z = y ^ x ^ flip if e == 1 else {'+': y + x, '-': y - x, '&': y & x, '|': y | x}[sym] % (1 << w)
            ctx.ok(isinstance(out, BV[w]), f'{d} {w} gives {out!r}')
            got = out.value.simplify().constant_value() if BV is hwtypes.SMTBitVector else out.as_uint()
            ctx.eq(got, z, f'{d} w={w} inst m{e} x={x} en={en}')
            ctx.event('calls')


def case(ctx, rng):
    pool(ctx, rng)
    histories(ctx, rng)
    if ctx.index % 3 == 0:
        designs(ctx, rng)

"""M06: rules written as JSON text and read back."""
import json
from hwtypes import Bit, BitVector, AbstractBit, AbstractBitVector
from peak.mapper import RewriteRule, read_serialized_bindings
from peak.mapper.utils import Unbound
from vlib import mapcheck, mapgen

RULE = ('hand-made and mapper-found rules between random small designs without sum types, with bit, vector, enum and signed constants on nested paths, unconnected inputs and outputs; each is serialised, '
        'dumped as JSON text, loaded and read back, twice; also rules between designs with fields of up to 200 bits whose names occur in the format itself; bindings, constant types, input paths, built inputs and verdicts must be the same; distinct = the JSON text')
N = {'quick': 400, 'thorough': 8000}
BUDGET = {'quick': 200, 'thorough': 1000}
LIMIT = {'quick': 90, 'thorough': 200}
ASSUMPTIONS = ['paths consist of names and positions (paths through Sum types contain the types themselves, which JSON cannot hold)']
setup = mapcheck.setup


def same_binding(ctx, a, b, what):
    ctx.eq(len(a), len(b), f'{what}: number of entries')
    for (s, p), (t, q) in zip(a, b):
        ctx.eq(tuple(q), tuple(p), f'{what}: path')
        ctx.eq([type(x) for x in q], [type(x) for x in p], f'{what}: path elements of {p}')
        ctx.ok(isinstance(q, tuple), f'{what}: {q!r} is not a path')
        if s is Unbound or isinstance(s, tuple):
            ctx.ok((t is s) if s is Unbound else (isinstance(t, tuple) and t == s and [type(x) for x in t] == [type(x) for x in s]), f'{what}: {p} is bound to {t!r}, was {s!r}')
        else:
            ctx.ok(type(t) is type(s), f'{what}: constant of {p} has type {type(t)}, had {type(s)}')
            ctx.eq(mapcheck.as_int(t), mapcheck.as_int(s), f'{what}: constant of {p}')


NAMES = ['unbound', 'Unbound', 'type', 'width', 'value', 'Bit', 'BitVector', 'ibinding', 'a', 'b', 'i0', 'in_', 'x1']


def wide(ctx, rng):
    """Bindings between designs with wide fields and with names that also occur in the format; nothing is exhausted here."""
    from checks.F01 import load
    import os, sys

    def ty():
        k = rng.choice(['HBV', 'HBV', 'HS', 'HU', 'bit', 'enum'])
        return 'HBit' if k == 'bit' else 'E' if k == 'enum' else f'{k}[{rng.choice([1, 8, 9, 16, 31, 32, 33, 53, 54, 63, 64, 65, 100, 128, 200])}]'
    S = [(n, ty()) for n in rng.sample(NAMES, rng.randint(1, 3))]
    kind = rng.choice(['Product', 'TaggedUnion', 'Tuple'])
    consts = [(n, ty()) for n in rng.sample(NAMES, 2)]
    rest = [n for n in NAMES if n not in dict(consts)]
    datas = [(n, ty()) for n in rng.sample(rest, 3)]
    s_name = rng.choice([n for n in rest if n not in dict(datas)])
    inames = rng.sample(NAMES, 3)
    big = (1 << 200) - 1
    L = ['from hwtypes import Bit as HBit, BitVector as HBV, SIntVector as HS, UIntVector as HU', 'from hwtypes.adt import Enum, Product, TaggedUnion, Tuple',
         'from peak import Peak, family_closure, Const, name_outputs', 'class E(Enum):', f'    a = {rng.getrandbits(70) | 1 << 69}', '    b = 1', '    c = 5']
    L += ['S = Tuple[' + ', '.join(t for _, t in S) + ']'] if kind == 'Tuple' else [f'class S({kind}):'] + [f'    {n} = {t}' for n, t in S]
    onames = rng.sample(NAMES, 4)
    ins = [(n, f'Const({t})') for n, t in consts] + datas + [(s_name, 'Const(S)')]
    rng.shuffle(ins)
    for what, fields, outs in (('arch', ins, datas), ('ir', [(m, t) for m, (_, t) in zip(inames, datas)], list(zip(inames, [t for _, t in datas])))):
        L += ['@family_closure', f'def {what}(family):', '    @family.assemble(locals(), globals())', f'    class {what.title()}(Peak):',
              '        @name_outputs(' + ', '.join(f'{onames[(i + (what == "ir")) % 4]}={t}' for i, (_, t) in enumerate(outs)) + ')',
              '        def __call__(self, ' + ', '.join(f'{n}: {t}' for n, t in fields) + '):', '            return ' + ', '.join(n for n, _ in outs) , f'    return {what.title()}', '']
    src = '\n'.join(L)
    ctx.note(src)
    name = f'wide_{ctx.index}'
    mod = load(src, os.getcwd(), name)
    try:
        def value(t):
            U = eval(t, vars(mod))
            if U is mod.E:
                return BitVector[70](rng.choice([m._value_ for m in mod.E.enumerate()]))
            if issubclass(U, AbstractBit):
                return Bit(rng.randint(0, 1))
            return BitVector[U.size](rng.choice([0, big, 1, 1 << (U.size - 1), rng.getrandbits(U.size)]) & ((1 << U.size) - 1))
        for _ in range(3):
            ib = [(value(t), (n,)) for n, t in consts]
            some = [rng.choice(S)] if kind == 'TaggedUnion' else S
            ib += [(value(t), (s_name, n if kind != 'Tuple' else S.index((n, t)))) for n, t in some]
            for m, (n, t) in zip(inames, datas):
                k = rng.random()
                ib.append(((m,), (n,)) if k < 0.6 else (Unbound, (n,)) if k < 0.8 else (value(t), (n,)))
            rng.shuffle(ib)
            ob = [((onames[(i + 1) % 4],) if rng.random() < 0.7 else Unbound, (onames[i],)) for i in range(3)]
            rr = RewriteRule(ib, ob, mod.ir, mod.arch)
            text = json.dumps(rr.serialize_bindings())
            back = read_serialized_bindings(json.loads(text), mod.ir, mod.arch)
            same_binding(ctx, rr.ibinding, back.ibinding, 'wide: reread inputs')
            for (s, p), (t, q) in zip(ib, back.ibinding):
                if s is Unbound or isinstance(s, tuple):
                    ctx.ok(t == s and q == p, f'wide: {p} is bound to {t!r}, was {s!r}')
                else:
                    ctx.eq((q, mapcheck.as_int(t)), (p, mapcheck.as_int(s)), 'wide: constant')
            same_binding(ctx, ob, back.obinding, 'wide: reread outputs')
            ctx.eq(json.dumps(back.serialize_bindings()), text, 'wide: second serialisation')
            ctx.seen(text)
            ctx.event('wide_rules')
    finally:
        sys.modules.pop(name, None)


def case(ctx, rng):
    if ctx.index % 4 == 3:
        wide(ctx, rng)
        return
    W = mapcheck.Work(ctx, rng, nir=2, mutate=0.3, opts=mapgen.Opts(sums=False))
    try:
        for RI in W.RIs:
            orc = mapgen.Oracle(W.A, RI.D)
            rules = []
            for rule in mapcheck.some_rules(rng, orc, 4):
                ib, ob = mapcheck.make_binding(rng, orc, W.RA, RI, *rule)
                rules.append((RewriteRule(ib, ob, RI.fc, W.RA.fc), mapcheck.holds(orc, rule)))
            # paths through tagged unions are names too
            if rng.random() < 0.25:
                mode = mapcheck.modes(rng, W.A, 1)[0]
                rr = mapcheck.solve(ctx, mapcheck.Mappers(W.RA.fc).instr(RI.fc, *mode[:2]), mode)
                if rr is not None:
                    rules.append((rr, True))
                    ctx.event('mapper_rules')
            for rr, good in rules:
                before = (list(rr.ibinding), list(rr.obinding))
                text = json.dumps(rr.serialize_bindings())
                same_binding(ctx, before[0], rr.ibinding, 'rule after serialising, inputs')
                back = read_serialized_bindings(json.loads(text), RI.fc, W.RA.fc)
                same_binding(ctx, rr.ibinding, back.ibinding, 'reread inputs')
                same_binding(ctx, rr.obinding, back.obinding, 'reread outputs')
                ctx.eq(back.get_input_paths(), rr.get_input_paths(), 'input paths of the reread rule')
                ctx.ok(back.ir_fc is RI.fc and back.arch_fc is W.RA.fc, 'designs of the reread rule')
                ctx.eq(json.dumps(back.serialize_bindings()), text, 'second serialisation')
                ctx.seen(text)
                ctx.event('rules')
                ctx.event('constants', sum(not isinstance(s, tuple) and s is not Unbound for s, _ in rr.ibinding))
                ctx.event('unbound', sum(s is Unbound for s, _ in rr.ibinding + rr.obinding))
                if rng.random() < 0.5:
                    ce = mapcheck.solved(ctx, back.verify)
                    ctx.eq(ce is None, good, 'verdict on the reread rule', text)
                    ctx.event('verdicts')
        ctx.sample(W.src)
    finally:
        W.close()

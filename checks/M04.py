"""M04: mapping under path constraints, against exhaustion over the allowed values."""
from peak.mapper import ArchMapper
from vlib import mapcheck, mapgen

RULE = ('random small designs mapped with constraints (a value, a tuple of values) on constant fields, data inputs and fields of alternatives, chosen around a known rule or at random; every rule is '
        'judged for each allowed value on every input, and the verdict compared with exhaustion under the constraints; constraints on paths that are none are tried; '
        'distinct = (constraints, mode, verdict, architecture)')
N = {'quick': 300, 'thorough': 8000}
BUDGET = {'quick': 200, 'thorough': 1400}
LIMIT = {'quick': 90, 'thorough': 200}
ASSUMPTIONS = ['enums of instruction inputs use every code of their width', 'solver answers are bounded by a timeout; a case it gives up on is not judged']
setup = mapcheck.setup


def pick(rng, W, orc):
    """leaf -> allowed values."""
    A = W.A
    wit = orc.exists() if rng.random() < 0.6 else None
    res = {}
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        l = rng.choice(A.leaves)
        vs = mapgen.values(l.t)
        k = rng.choice([1, 1, 2, 3])
        c = rng.sample(vs, min(k, len(vs)))
        if wit and l in wit[2] and rng.random() < 0.7 and wit[2][l] not in c:
            c[rng.randrange(len(c))] = wit[2][l]
        if wit and not l.const and l in wit[1]:
            if rng.random() < 0.7:
                continue
        res[l] = c
    return res


def constraint(rng, W, l, vs):
    """As a user writes it."""
    def one(v):
        if l.t[0] == 'enum' or (l.t[0] != 's' and rng.random() < 0.6):
            return mapcheck.leaf_value(W.mod, l.t, v)
        return v
    c = tuple(one(v) for v in vs)
    return c[0] if len(c) == 1 and rng.random() < 0.6 else c


def case(ctx, rng):
    W = mapcheck.Work(ctx, rng, nir=2, mutate=0.2)
    try:
        RA = W.RA
        for RI in W.RIs:
            orc = mapgen.Oracle(W.A, RI.D)
            allowed = pick(rng, W, orc)
            if not allowed:
                continue
            cons = {RA.paths[l]: constraint(rng, W, l, vs) for l, vs in allowed.items()}
            given = dict(cons)
            M = mapcheck.Mappers(RA.fc, path_constraints=cons)
            ex = orc.exists(allowed)
            for mode in mapcheck.modes(rng, W.A, rng.choice([1, 2])):
                what = f'{RI.D.name} in {mapcheck.mode_name(mode)} under {given}'
                im = M.instr(RI.fc, *mode[:2])
                rr = mapcheck.solve(ctx, im, mode)
                ctx.event('solves_' + mapcheck.mode_name(mode))
                ctx.seen(str(given), mapcheck.mode_name(mode), rr is None, W.src)
                ctx.eq(cons, given, 'the constraints given, after mapping')
                if rr is None:
                    ctx.ok(ex is None, f'{what}: no rule is returned', f'there is one: {ex}')
                    ctx.event('no_rule')
                    continue
                R = mapcheck.judge_rule(ctx, rng, rr, RA, RI, orc, what, allowed=allowed)
                for l, vs in allowed.items():
                    if any(l is x for x in R.place):
                        ctx.ok(False, f'{what}: an instruction input is routed to {l}', R.describe())
                    if l in R.consts:
                        ctx.ok(R.consts[l] in vs, f'{what}: {l} is bound to {R.consts[l]}', R.describe())
                        ctx.event('constrained_constants' if l.const else 'constrained_inputs')
                    elif l in W.A.form_leaves(R.form):
                        ctx.ok(not l.const, f'{what}: {l} is left without a value')
                # for every allowed value of the constrained data inputs
                R.consts = {l: v for l, v in R.consts.items() if l.const or l not in allowed}
                ctx.ok(R.correct(orc, allowed), f'{what}: the rule is wrong for some allowed value', R.describe())
                ctx.ok(ex is not None, f'{what}: a rule is returned where exhaustion finds none', R.describe())
                ctx.event('rules')
        bad = rng.choice([('zz',), ('inst', 'zz'), (), tuple(RA.paths[rng.choice(W.A.leaves)]) + ('x',)] + [(n,) for n, _, t in W.A.inputs if t[0] in ('prod', 'tup', 'sum', 'tu')])
        ctx.raises(lambda: ArchMapper(RA.fc, path_constraints={bad: 0}), f'constraint on {bad}')
        ctx.sample(W.src)
    finally:
        W.close()

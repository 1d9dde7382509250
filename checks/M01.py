"""M01: rules returned by the mapper, judged by running both designs on every input."""
from vlib import mapcheck, mapgen

RULE = ('random small architectures (instruction types with products, tuples, sums, tagged unions and partial enums; constants inside data inputs; several constants of one type) and instructions '
        'specialised from them, rewritten and mutated, mapped under random index encoding, formula style and solving mode; every rule is parsed, checked for form, and compared with the '
        'instruction on every input and every value of the free architecture inputs, and on sampled executions of the plain Python designs; distinct = (mode, shape of the rule, architecture)')
N = {'quick': 330, 'thorough': 9000}
BUDGET = {'quick': 200, 'thorough': 1400}
LIMIT = {'quick': 90, 'thorough': 200}
ASSUMPTIONS = ['enums of instruction inputs use every code of their width', 'solver answers are bounded by a timeout; a case it gives up on is not judged']
setup = mapcheck.setup


def case(ctx, rng):
    kc = rng.random() < 0.4
    W = mapcheck.Work(ctx, rng, nir=6 if kc else 3, mutate=0.25, opts=mapgen.Opts(kc=kc))
    try:
        W.self_check(ctx, rng)
        M = mapcheck.Mappers(W.RA.fc)
        for RI in W.RIs:
            orc = mapgen.Oracle(W.A, RI.D)
            for mode in mapcheck.modes(rng, W.A, 1 if kc else rng.choice([1, 2, 3]), simple=kc and rng.random() < 0.7):
                im = M.instr(RI.fc, *mode[:2])
                rr = mapcheck.solve(ctx, im, mode)
                ctx.event('solves_' + mapcheck.mode_name(mode))
                if rr is None:
                    ctx.event('no_rule')
                    continue
                R = mapcheck.judge_rule(ctx, rng, rr, W.RA, RI, orc, f'{RI.D.name} in {mapcheck.mode_name(mode)}')
                ctx.seen(mapcheck.mode_name(mode), R.describe(), W.src)
                if R.consts:
                    ctx.event('rules_with_constants')
                if R.free:
                    ctx.event('rules_with_free_inputs')
                if any(l.const for l in R.place):
                    ctx.event('rules_routing_constants')
                if R.form:
                    ctx.event('rules_choosing_alternatives')
                if len(R.outs) > 1:
                    ctx.event('rules_with_several_outputs')
        ctx.event('architectures')
        ctx.sample(W.src)
    finally:
        W.close()

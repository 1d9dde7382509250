"""M03: verdicts of RewriteRule.verify against exhaustion; counterexamples are executed."""
from peak.mapper import RewriteRule
from vlib import mapcheck, mapgen

RULE = ('hand-made rules between random small designs (correct ones found by exhaustion, the same changed in one constant, routing or output, random ones, ones that fix data inputs or leave outputs '
        'unconnected) and rules from the mapper; verify must find a counterexample exactly when running every input finds a difference, and every counterexample is run; '
        'distinct = (verdict, rule, architecture)')
N = {'quick': 400, 'thorough': 12000}
BUDGET = {'quick': 200, 'thorough': 1400}
LIMIT = {'quick': 90, 'thorough': 200}
ASSUMPTIONS = ['enums of inputs left free use every code of their width']
setup = mapcheck.setup


def counterexample(ctx, ce, rule, W, RI, orc):
    form, place, consts, outs = rule
    A = W.A
    ctx.ok(isinstance(ce, tuple) and len(ce) == 2, f'counterexample {ce!r}')
    ir_ce, arch_ce = ce
    irp = {RI.paths[l]: l for l in RI.D.leaves}
    free = {W.RA.paths[l]: l for l in A.form_leaves(form) if l not in place and l not in consts}
    ctx.eq(set(ir_ce), set(irp), 'instruction inputs of the counterexample')
    ctx.eq(set(arch_ce), set(free), 'architecture inputs of the counterexample')
    iv = {irp[p]: mapcheck.as_int(v) for p, v in ir_ce.items()}
    fv = {free[p]: mapcheck.as_int(v) for p, v in arch_ce.items()}
    for l, v in list(iv.items()) + list(fv.items()):
        ctx.ok(v in mapgen.values(l.t), f'counterexample gives {l} the value {v}')
    vals = [iv[l] for l in RI.D.leaves]
    av = {l: vals[i] for l, i in place.items()} | consts | fv
    gi, ga = RI.call(iv), W.RA.call(av)
    ctx.ok(any(gi[i] != ga[j] for i, j in outs), f'the counterexample is none: instruction {gi}, architecture {ga}, connected {outs}', ir_ce, arch_ce)
    ctx.event('counterexamples_run')


def case(ctx, rng):
    W = mapcheck.Work(ctx, rng, nir=2, mutate=rng.choice([0.1, 0.5]))
    try:
        for RI in W.RIs:
            orc = mapgen.Oracle(W.A, RI.D)
            for rule in mapcheck.some_rules(rng, orc, 4):
                ib, ob = mapcheck.make_binding(rng, orc, W.RA, RI, *rule)
                rr = RewriteRule(ib, ob, RI.fc, W.RA.fc)
                good = mapcheck.holds(orc, rule)
                ce = mapcheck.solved(ctx, rr.verify)
                what = f'{RI.D.name} with {ib} {ob}'
                ctx.seen(good, str(rule), W.src)
                if good:
                    ctx.event('correct_rules')
                    ctx.ok(ce is None, f'{what}: a counterexample is reported for a correct rule', ce)
                else:
                    ctx.event('wrong_rules')
                    ctx.ok(ce is not None, f'{what}: a wrong rule is verified')
                    counterexample(ctx, ce, rule, W, RI, orc)
            if rng.random() < 0.3:
                mode = mapcheck.modes(rng, W.A, 1)[0]
                rr = mapcheck.solve(ctx, mapcheck.Mappers(W.RA.fc).instr(RI.fc, *mode[:2]), mode)
                if rr is not None:
                    R = mapcheck.Rule(rr, W.RA, RI)
                    ce = mapcheck.solved(ctx, rr.verify)
                    ctx.eq(ce is None, R.correct(orc), f'{RI.D.name}: verdict on a rule of the mapper', R.describe(), ce)
                    ctx.event('mapper_rules')
        ctx.sample(W.src)
    finally:
        W.close()

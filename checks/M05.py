"""M05: rules and verdicts about designs with black boxes, against exhaustion over the functions the boxes may compute."""
import itertools
from peak.mapper import RewriteRule
from vlib import mapcheck, mapgen

RULE = ('random small designs that call one to three black boxes of one or two kinds (in sequence, held by components, of two kinds with one signature), with instructions specialised from them, some with '
        'another argument or another kind of box; rules from the mapper and hand-made rules are judged on every input under every function of each kind (or sampled functions when there are more '
        'than 600); distinct = (verdict, rule, architecture)')
N = {'quick': 300, 'thorough': 8000}
BUDGET = {'quick': 200, 'thorough': 1400}
LIMIT = {'quick': 90, 'thorough': 200}
ASSUMPTIONS = ['each black box is called once per evaluation, unconditionally', 'box inputs and outputs are bits and vectors']
setup = mapcheck.setup


def tables(rng, boxes):
    """Interpretations, and whether they are all."""
    n = 1
    for b in boxes:
        n *= b.functions()
    if n <= 600:
        return [dict(zip([b.name for b in boxes], fs)) for fs in itertools.product(*[list(b.all()) for b in boxes])], True
    return [{b.name: b.own() for b in boxes}] + [{b.name: b.random(rng) for b in boxes} for _ in range(120)], False


def case(ctx, rng):
    W = mapcheck.Work(ctx, rng, nir=3, mutate=0.15, opts=mapgen.Opts(boxes=rng.choice([1, 2]), maxw=2, sums=rng.random() < 0.3, signed=False))
    try:
        W.self_check(ctx, rng)
        Ts, full = tables(rng, W.g.boxes)
        own = {b.name: b.own() for b in W.g.boxes}
        rng.shuffle(Ts)
        ctx.event('designs_with_all_functions' if full else 'designs_with_sampled_functions')
        M = mapcheck.Mappers(W.RA.fc)
        for RI in W.RIs:
            orc = mapgen.Oracle(W.A, RI.D, tables=Ts)
            mode = mapcheck.modes(rng, W.A, 1, boxes=True)[0]
            rr = mapcheck.solve(ctx, M.instr(RI.fc, *mode[:2]), mode)
            what = f'{RI.D.name} in {mapcheck.mode_name(mode)}'
            ctx.event('solves')
            if rr is not None:
                R = mapcheck.judge_rule(ctx, rng, rr, W.RA, RI, orc, what)
                ctx.seen('mapper', R.describe(), W.src)
                if RI.D.boxes:
                    ctx.event('rules_with_boxes')
            else:
                ctx.event('no_rule')
                if full:
                    ctx.ok(orc.exists() is None, f'{what}: no rule is returned', 'there is one for every function of the boxes')
            for rule in mapcheck.some_rules(rng, orc, 3):
                ib, ob = mapcheck.make_binding(rng, orc, W.RA, RI, *rule)
                ce = mapcheck.solved(ctx, RewriteRule(ib, ob, RI.fc, W.RA.fc).verify)
                good = mapcheck.holds(orc, rule)
                ctx.seen('verify', str(rule), W.src)
                if good and full:
                    ctx.ok(ce is None, f'{RI.D.name} with {ib} {ob}: refused, but right for every function of the boxes', ce)
                    ctx.event('correct_rules')
                if not good:
                    ctx.ok(ce is not None, f'{RI.D.name} with {ib} {ob}: verified, but wrong for some function of the boxes')
                    lucky = mapgen.Oracle(W.A, RI.D, tables=[own])
                    ctx.event('rules_wrong_only_for_other_functions' if mapcheck.holds(lucky, rule) else 'rules_wrong_for_the_own_function')
        ctx.sample(W.src)
    finally:
        W.close()

"""M02: the mapper's verdict on whether there is a rule, against exhaustion over routings, constants and inputs."""
from peak.mapper.mapper import LoopException
from vlib import mapcheck, mapgen

RULE = ('random small architectures and instructions (specialised, mutated to near misses, with more inputs than fit, with types the architecture lacks), each asked about under several of the '
        'eight modes (index encoding x formula style x solving loop, with initial vectors and iteration limits); whether a rule exists is decided by running every routing with every valid '
        'constant on every input; distinct = (mode, verdict, architecture, instruction)')
N = {'quick': 300, 'thorough': 9000}
BUDGET = {'quick': 200, 'thorough': 1400}
LIMIT = {'quick': 90, 'thorough': 200}
ASSUMPTIONS = ['enums of instruction inputs use every code of their width', 'solver answers are bounded by a timeout; a case it gives up on is not judged']
setup = mapcheck.setup


def case(ctx, rng):
    W = mapcheck.Work(ctx, rng, nir=3, mutate=rng.choice([0.2, 0.6, 0.9]))
    try:
        M = mapcheck.Mappers(W.RA.fc)
        for RI in W.RIs:
            orc = mapgen.Oracle(W.A, RI.D)
            ex = orc.exists()
            ctx.event('routings_evaluated', orc.calls)
            for mode in mapcheck.modes(rng, W.A, rng.choice([2, 3, 4])):
                name = mapcheck.mode_name(mode)
                im = M.instr(RI.fc, *mode[:2])
                if mode[2] and rng.random() < 0.2:
                    try:
                        rr = mapcheck.solve(ctx, im, mode, itr_limit=rng.choice([0, 1, 2, 20]))
                    except LoopException:
                        ctx.event('iteration_limit_reported')
                        continue
                else:
                    rr = mapcheck.solve(ctx, im, mode)
                ctx.event('solves_' + name)
                ctx.event('rule' if rr is not None else 'no_rule')
                ctx.seen(name, rr is None, W.src, RI.D.name)
                if ex is None:
                    ctx.ok(rr is None, f'{RI.D.name} in {name}: a rule is returned where there is none', rr and (rr.ibinding, rr.obinding))
                else:
                    ctx.ok(rr is not None, f'{RI.D.name} in {name}: no rule is returned', f'there is one: {ex}')
        ctx.event('architectures')
        ctx.sample(W.src)
    finally:
        W.close()

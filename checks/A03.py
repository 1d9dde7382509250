"""A03: encodings are a function of the declaration, across processes and histories."""
import json, os, subprocess, sys
from vlib import adtgen, core

RULE = ('batches of 30 random types (many sharing names, sums of sums, of same-named types), encoded in 3 processes per batch that differ in '
        'hash seed, allocation noise, declaration order, construction syntax and what was assembled before, and rebuilt once inside each; '
        'distinct = (type shape) compared in all processes')
N = {'quick': 64, 'thorough': 700}
BUDGET = {'quick': 150, 'thorough': 1300}
RUNS = 3


def same_name_sum(g, rng):
    """A sum of different types that share a name."""
    n = g.name()
    alts = []
    for _ in range(rng.randint(2, 4)):
        k = rng.choice(['enum', 'prod', 'tu'])
        if k == 'enum':
            s = g.enum()
            s = ['enum', n, s[2]]
        else:
            s = [k, n, [[f, g.spec(1)] for f in rng.sample(adtgen.NAMES, rng.randint(2, 3))]]
        if all(adtgen.family_of(s) != adtgen.family_of(o) for o in alts):
            alts.append(s)
    if len(alts) < 2:
        alts.append(['bit'])
    return ['sum', alts]


def case(ctx, rng):
    g = adtgen.Gen(rng, big=0.08)
    data = []
    for _ in range(30):
        k = rng.random()
        if k < 0.2:
            s = same_name_sum(g, rng)
            if rng.random() < 0.4:
                s = ['sum', [s, g.spec(2), ['tuple', [s, ['bit']]]]]
                if len({adtgen.family_of(t) for t in s[1]}) < 3:
                    continue
        elif k < 0.3:
            s = ['sum', [['sum', [['prod', n, [['x', ['bv', i + 1]]]] for i, n in enumerate(rng.sample('ABCDEFG', rng.randint(2, 4)))]] for _ in range(rng.randint(2, 3))]]
            s[1] = [a for i, a in enumerate(s[1]) if adtgen.canon(a) not in map(adtgen.canon, s[1][:i])]
        elif k < 0.4:
            s = g.enum()
        else:
            s = g.spec(rng.randint(1, 4), top=True)
        data.append([s, [adtgen.rand_value(s, rng) for _ in range(6)]])
    inp = os.path.join(ctx.scratch, f'in{ctx.index}.json')
    json.dump(data, open(inp, 'w'))
    results = []
    for run in range(RUNS):
        out = os.path.join(ctx.scratch, f'out{ctx.index}-{run}.json')
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 2**31)), PYTHONPATH=os.environ.get('PYTHONPATH', core.ROOT))
        order = rng.getrandbits(30)
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vlib.encode', inp, out, str(order)], cwd=ctx.scratch, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ctx.ok(p.returncode == 0, f'encoding failed in process {run}', p.stdout[-3000:])
        results.append(json.load(open(out)))
        os.unlink(out)
        ctx.event('processes')
    for i, (s, vals) in enumerate(data):
        ref = results[0][str(i)]['first']
        ctx.note(f'type {s}')
        for run in range(RUNS):
            for how in ('first', 'again'):
                got = results[run][str(i)][how]
                for ver in ('v1', 'v2'):
                    ctx.ok(got[ver] == ref[ver], f'{ver}: the encoding of one declaration differs between process 0 and process {run} ({how})', s, ref[ver], got[ver])
        enums(ctx, s, ref)
        ctx.trail.pop()
        ctx.event('types')
        ctx.seen(adtgen.shape(s))
    ctx.sample(f'{data[0][0]} -> {results[0]["0"]["first"]}')


def enums(ctx, s, ref):
    for ver in ('v1', 'v2'):
        for spec, lay in leaves(s, ref[ver]['layout']):
            if spec[0] == 'enum':
                for m, c in adtgen.enum_codes(spec).items():
                    ctx.eq(lay[m], c, f'{ver} code of enum member {m} of {spec}')


def leaves(s, lay):
    if s[0] == 'enum':
        yield s, lay
    elif adtgen.subs(s):
        for (_, t), l in zip(adtgen.subs(s), lay['sub']):
            yield from leaves(t, l)

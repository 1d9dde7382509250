"""M08: candidate bindings against an own enumeration; index variables against every code."""
import itertools
import pysmt.shortcuts as smt
from hwtypes import Bit, BitVector, SIntVector
from hwtypes.adt import Enum
from peak import Const
from peak.mapper.index_var import OneHot, Binary
from peak.mapper.utils import create_bindings, Unbound

RULE = ('random path tables over a pool of similar types (bits, vectors of several widths, signed, enums, and the Const version of each), matched by create_bindings and by an own enumeration of injective '
        'typed placements; index variables of 1 to 70 alternatives in both encodings with every code (or every code near a valid one) judged through substitution; distinct = (tables) and (encoding, size)')
N = {'quick': 1600, 'thorough': 40000}
BUDGET = {'quick': 120, 'thorough': 900}


class E1(Enum):
    a = 0
    b = 1


class E2(Enum):
    a = 0
    b = 1


class Named:
    class E1(Enum):
        a = 0
        b = 1
        c = 2


class Named2:
    class E1(Enum):
        a = 1
        b = 0


POOL = [Named.E1, Named2.E1, Const(Named.E1), Bit, BitVector[1], BitVector[2], BitVector[3], SIntVector[2], E1, E2, Const(Bit), Const(BitVector[2]), Const(E1), Const(SIntVector[2])]


def paths(rng, n, pre):
    res = []
    while len(res) < n:
        p = (rng.choice(['a', 'b', 'inst', 'x']),) + tuple(rng.choice(['f', 'g', 0, 1, 2, BitVector[2], E1]) for _ in range(rng.choice([0, 0, 1, 2])))
        if p not in res:
            res.append(p)
    return res


def own(arch, ir):
    """Every injective placement of ir paths on arch paths of the same type, as a set of frozensets of pairs."""
    irs = list(ir)

    def rec(k, used):
        if k == len(irs):
            yield {}
            return
        for a in arch:
            if a not in used and arch[a] == ir[irs[k]]:
                for rest in rec(k + 1, used | {a}):
                    yield {a: irs[k], **rest}
    return {frozenset((p.get(a, Unbound), a) for a in arch) for p in rec(0, frozenset())}


def bindings(ctx, rng):
    pool = rng.sample(POOL, rng.choice([1, 2, 2, 3, 4]))
    na = rng.choice([1, 2, 3, 4, 5, 6])
    ni = rng.randint(1, min(na + 1, 4))
    arch = {p: rng.choice(pool) for p in paths(rng, na, 'A')}
    ir = {p: rng.choice(pool if rng.random() < 0.95 else POOL) for p in paths(rng, ni, 'I')}
    ga, gi = dict(arch), dict(ir)
    got = create_bindings(arch, ir)
    ctx.eq((arch, ir), (ga, gi), 'tables after the call')
    want = own(arch, ir)
    ctx.seen(tuple(map(str, arch.items())), tuple(map(str, ir.items())))
    ctx.event('bindings', len(got))
    ctx.event('empty' if not want else 'matched')
    for b in got:
        ctx.eq(sorted(map(str, (a for _, a in b))), sorted(map(str, arch)), f'architecture paths of a binding {b}')
    sets = [frozenset((s, a) for s, a in b) for b in got]
    ctx.eq(len(set(sets)), len(sets), f'{arch} {ir}: bindings listed more than once')
    ctx.ok(set(sets) == want, f'{arch} {ir}: bindings differ', f'missing {list(want - set(sets))[:3]}', f'extra {list(set(sets) - want)[:3]}')


def const(x, var, v):
    r = smt.simplify(smt.substitute(x.value, {var.value: smt.BV(v, var.size)}))
    assert r.is_constant()
    return bool(r.constant_value())


def index(ctx, rng):
    IV = rng.choice([OneHot, Binary])
    n = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, rng.randint(1, 30), rng.randint(1, 70)])
    x = IV(n, name='v' + str(rng.randrange(10 ** 9)))
    w = x.var.size
    ctx.eq(w, IV.var_len(n), 'width of the variable')
    codes = [IV.translate_index(n, i) for i in range(n)]
    ctx.eq(len(set(codes)), n, f'{IV.__name__}({n}): codes')
    ctx.ok(all(0 <= c < 1 << w for c in codes), f'{IV.__name__}({n}): codes {codes} in {w} bits')
    if w <= 9:
        cand = list(range(1 << w))
    else:
        cand = set(codes) | {0, (1 << w) - 1} | {rng.getrandbits(w) for _ in range(40)}
        cand |= {c ^ (1 << rng.randrange(w)) for c in codes}
        cand = sorted(cand)
    valid = x.is_valid()
    matches = [x.match_index(i) for i in rng.sample(range(n), min(n, 6))]
    some = rng.sample(range(n), min(n, 6))
    matches = [(i, x.match_index(i)) for i in some]
    for v in rng.sample(cand, min(len(cand), 120)):
        is_code = v in codes
        ctx.eq(const(valid, x.var, v), is_code, f'{IV.__name__}({n}): validity of {v:#x}')
        for i, m in matches:
            ctx.eq(const(m, x.var, v), codes[i] == v, f'{IV.__name__}({n}): match of {i} with {v:#x}')
        if is_code:
            ctx.eq(x.decode(v), codes.index(v), f'{IV.__name__}({n}): decode {v:#x}')
        else:
            ctx.raises(lambda: x.decode(v), f'{IV.__name__}({n}): decode of {v:#x}')
        ctx.event('codes')
    for i in codes:
        ctx.eq(x.decode(i), codes.index(i), f'{IV.__name__}({n}): decode {i:#x}')
    for i in (-1, n, n + 3):
        ctx.raises(lambda: x.match_index(i), f'{IV.__name__}({n}): match of index {i}', exc=ValueError)
    ctx.seen(IV.__name__, n)


def case(ctx, rng):
    if ctx.index % 2:
        bindings(ctx, rng)
    else:
        index(ctx, rng)

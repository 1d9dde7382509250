"""M07: construction of rules and of their inputs, against the stated routing."""
import pysmt.shortcuts as smt
from hwtypes import Bit, BitVector, SIntVector, SMTBit, SMTBitVector, SMTSIntVector
from peak import family
from peak.assembler.assembled_adt import AssembledADT
from peak.mapper import RewriteRule
from peak.mapper.utils import Unbound
from vlib import mapcheck, mapgen

RULE = ('hand-made rules between random small designs; every leaf of the inputs built in the Python and the symbolic family is compared with the routed instruction value, the supplied free value or the '
        'constant, and the Python designs are run on them; wrong sets of inputs, missing constants and undeclared enum codes must be rejected; distinct = (rule, family, architecture)')
N = {'quick': 500, 'thorough': 12000}
BUDGET = {'quick': 200, 'thorough': 1000}
LIMIT = {'quick': 90, 'thorough': 200}
setup = mapcheck.setup


def enum_code(t, v, fam):
    w = mapgen.width(t)
    return (BitVector if fam == 'py' else SMTBitVector)[w](v)


def leaf_arg(t, v, fam, free):
    """The value of a leaf as a caller supplies it."""
    if t[0] == 'enum':
        V = (BitVector if fam == 'py' else SMTBitVector)[mapgen.width(t)]
    elif t == mapgen.BIT:
        V = Bit if fam == 'py' else SMTBit
    else:
        V = {('bv', 'py'): BitVector, ('s', 'py'): SIntVector, ('bv', 'smt'): SMTBitVector, ('s', 'smt'): SMTSIntVector}[(t[0], fam)][t[1]]
    if fam == 'smt' and free is not None:
        x = V()
        free[x.value] = smt.Bool(bool(v)) if t == mapgen.BIT else smt.BV(v, x.size)
        return x
    return V(v)


def number(v, subs):
    if isinstance(v, AssembledADT):
        v = v._value_
    if hasattr(v, 'value') and not isinstance(v, (Bit, BitVector)):
        x = smt.simplify(smt.substitute(v.value, subs))
        assert x.is_constant(), f'{x} is not determined'
        return int(x.constant_value())
    return mapcheck.as_int(v)


def at(ctx, value, path, subs):
    """The leaf of a built input at a path; matches on the way must hold."""
    for e in path:
        t = type(value).adt_t
        if isinstance(e, type) or (isinstance(e, str) and not hasattr(t, 'field_dict')) or t.__name__.startswith('Sum'):
            sub = value[e]
        elif type(t).__name__ == 'TaggedUnionMeta':
            sub = getattr(value, e)
        else:
            value = value[e]
            continue
        ctx.eq(number(sub.match, subs), 1, f'match of {e} in a built input')
        value = sub.value
    return value


def case(ctx, rng):
    W = mapcheck.Work(ctx, rng, nir=2, mutate=0.2, opts=mapgen.Opts(nested_out=False))
    try:
        for RI in W.RIs:
            orc = mapgen.Oracle(W.A, RI.D)
            for _ in range(4):
                rule = mapcheck.random_rule(rng, orc)
                if rule is None:
                    continue
                form, place, consts, outs = rule
                ib, ob = mapcheck.make_binding(rng, orc, W.RA, RI, *rule)
                if rng.random() < 0.5:
                    # constants given as the bits of the field
                    ib = [(leaf_arg(W.RA.byleaf[p].t, consts[W.RA.byleaf[p]], 'py', None), p) if W.RA.byleaf[p] in consts else (s, p) for s, p in ib]
                rr = RewriteRule(list(ib), list(ob), RI.fc, W.RA.fc)
                irp = {RI.paths[l]: i for i, l in enumerate(RI.D.leaves)}
                free = {W.RA.paths[l]: l for l in W.A.form_leaves(form) if l not in place and l not in consts}
                ctx.eq(tuple(map(set, rr.get_input_paths())), (set(irp), set(free)), 'input paths')
                fam = rng.choice(['py', 'smt'])
                subs = {}
                sym = subs if rng.random() < 0.7 else None
                v = rng.choice(orc.ir_space)
                fv = {l: rng.choice(mapgen.values(l.t)) for l in free.values()}
                ia = {p: leaf_arg(RI.D.leaves[i].t, v[i], fam, sym) for p, i in irp.items()}
                aa = {p: leaf_arg(l.t, fv[l], fam, sym) for p, l in free.items()}
                F = family.PyFamily() if fam == 'py' else family.SMTFamily()
                ins, ains = rr.build_inputs(ia, aa, F)
                ctx.eq(list(ins), [n for n, _, _ in RI.D.inputs], 'names of the instruction inputs')
                ctx.eq(list(ains), [n for n, _, _ in W.A.inputs], 'names of the architecture inputs')
                for l, i in zip(RI.D.leaves, range(len(v))):
                    p = RI.paths[l]
                    ctx.eq(number(at(ctx, ins[p[0]], p[1:], subs), subs), v[i], f'instruction leaf {p} in {fam}')
                av = {l: v[i] for l, i in place.items()} | consts | fv
                for l in W.A.form_leaves(form):
                    p = W.RA.paths[l]
                    ctx.eq(number(at(ctx, ains[p[0]], p[1:], subs), subs), av[l], f'architecture leaf {p} in {fam}', ib)
                if fam == 'py':
                    def ints(o):
                        return tuple(number(y, subs) for x in (o if isinstance(o, tuple) else (o,)) for y in mapcheck.flat_output(x))
                    ctx.eq(ints(RI.cls()(**ins)), RI.call(dict(zip(RI.D.leaves, v))), 'instruction run on the built inputs')
                    ctx.eq(ints(W.RA.cls()(**ains)), W.RA.call(av), 'architecture run on the built inputs')
                    ctx.event('runs')
                ctx.seen(str(rule), fam, W.src)
                ctx.event('built_' + fam)
                rejections(ctx, rng, rr, ib, ob, ia, aa, F, W, RI, rule)
        ctx.sample(W.src)
    finally:
        W.close()


def rejections(ctx, rng, rr, ib, ob, ia, aa, F, W, RI, rule):
    form, place, consts, outs = rule
    for d, k in ((ia, 0), (aa, 1)):
        if d:
            e = dict(d)
            e.pop(rng.choice(list(e)))
            ctx.raises(lambda: rr.build_inputs(*((e, aa) if k == 0 else (ia, e)), F), 'inputs with one missing')
        e = dict(d)
        e[rng.choice([('zz',), ('inst', 'zz'), ()])] = BitVector[2](1)
        ctx.raises(lambda: rr.build_inputs(*((e, aa) if k == 0 else (ia, e)), F), 'inputs with one too many')
    # an input that the rule fixes may not be supplied
    fixed = [W.RA.paths[l] for l in list(place) + list(consts)]
    if fixed:
        e = dict(aa)
        e[rng.choice(fixed)] = BitVector[1](0)
        ctx.raises(lambda: rr.build_inputs(ia, e, F), 'value supplied for a fixed input')
    byp = W.RA.byleaf
    cl = [i for i, (s, p) in enumerate(ib) if byp[p].const and byp[p] in consts]
    if cl:
        i = rng.choice(cl)
        b = list(ib)
        b[i] = (Unbound, b[i][1])
        ctx.raises(lambda: RewriteRule(b, ob, RI.fc, W.RA.fc), f'constant {b[i][1]} without a value')
    en = [i for i, (s, p) in enumerate(ib) if byp[p] in consts and byp[p].t[0] == 'enum']
    for i in en:
        t = byp[ib[i][1]].t
        bad = [v for v in range(1 << mapgen.width(t)) if v not in mapgen.values(t)]
        if bad:
            b = list(ib)
            b[i] = (BitVector[mapgen.width(t)](rng.choice(bad)), b[i][1])
            ctx.raises(lambda: RewriteRule(b, ob, RI.fc, W.RA.fc), f'undeclared code {b[i][0]!r} for {b[i][1]}')
            ctx.event('undeclared_codes')

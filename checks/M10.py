"""M10: symbolic forms of a type, against an own decomposition and under substitution of values."""
import itertools
from hwtypes import SMTBitVector, SMTBit
import pysmt.shortcuts as smt
from vlib import adtgen, asmview
from peak.assembler.assembler import Assembler
from peak.assembler.assembled_adt import AssembledADT
from peak.mapper.utils import SMTForms, _TAG, Match

RULE = ('random types of every kind (products, tuples, sums, tagged unions and partial enums nested up to depth 4) decomposed with free variables and for a given symbolic value; forms, paths and '
        'match keys compared with an own decomposition; leaves, tags, matches and form values evaluated for random values and for every kind of tag; distinct = (type shape, value)')
N = {'quick': 1500, 'thorough': 30000}
BUDGET = {'quick': 120, 'thorough': 1200}
ASSUMPTIONS = ['no zero-width types: symbolic vectors of width 0 do not exist']


def key(b, s, i):
    k, t = adtgen.subs(s)[i]
    return b(t) if s[0] == 'sum' else k


def combos(b, s, path=()):
    """One (choices, leaf paths) per way of choosing alternatives."""
    ks = adtgen.subs(s)
    if not ks:
        return [({}, {path})]
    parts = [combos(b, t, path + (key(b, s, i),)) for i, (_, t) in enumerate(ks)]
    if adtgen.is_sum(s):
        return [({path: key(b, s, i), **c}, l) for i, p in enumerate(parts) for c, l in p]
    return [(dict(kv for c, _ in cs for kv in c.items()), set().union(*(l for _, l in cs))) for cs in itertools.product(*parts)]


def places(b, s, view, path=()):
    """(path, view, spec) of every part."""
    yield path, view, s
    for i, (_, t) in enumerate(adtgen.subs(s)):
        yield from places(b, t, view.sub[i], path + (key(b, s, i),))


def route(b, s, view, v, path=()):
    """What the value v says: leaf path -> code, sum path -> chosen index."""
    ks = adtgen.subs(s)
    if not ks:
        return {path: view.asm.assemble(b.inst(s, v)).as_uint()}, {}
    if adtgen.is_sum(s):
        l, c = route(b, ks[v[0]][1], view.sub[v[0]], v[1], path + (key(b, s, v[0]),))
        return l, {path: v[0], **c}
    leaves, chosen = {}, {}
    for i, (_, t) in enumerate(ks):
        l, c = route(b, t, view.sub[i], v[i], path + (key(b, s, i),))
        leaves.update(l)
        chosen.update(c)
    return leaves, chosen


def const(x, w):
    return smt.Bool(bool(x)) if w is None else smt.BV(x, w)


def term(e):
    e = getattr(e, '_value_', e) if not isinstance(e, (SMTBit, SMTBitVector)) else e
    return e.value


def evaluate(e, sub):
    r = smt.simplify(smt.substitute(term(e), sub))
    if not r.is_constant():
        raise AssertionError(f'{r} is not determined by its leaves and tags')
    return int(r.constant_value())


def free(e):
    return set(smt.get_free_variables(term(e)))


def case(ctx, rng):
    g = adtgen.Gen(rng, zero=False)
    b = adtgen.Builder(rng=rng)
    while True:
        spec = g.spec(rng.randint(1, 4), top=True)
        if adtgen.subs(spec) or rng.random() < 0.1:
            cs = combos(b, spec)
            if len(cs) <= 60:
                break
    view = asmview.View(1, b, spec)
    ctx.note(f'type {spec}')
    AT = AssembledADT[b(spec), Assembler, SMTBitVector]
    leaves = {p: (v, s) for p, v, s in places(b, spec, view) if not adtgen.subs(s)}
    sums = {p: (v, s) for p, v, s in places(b, spec, view) if adtgen.is_sum(s)}
    isbit = spec[0] == 'bit'
    w = view.width
    for given in (False, True):
        if given:
            x = SMTBit() if isbit else SMTBitVector[w]()
            val = AT(x) if spec[0] not in ('bit', 'bv', 's', 'u') else (x if isbit else AT(x))
            forms, varmap, whole = SMTForms()(AT, value=val)
        else:
            forms, varmap, whole = SMTForms()(AT)
        structure(ctx, b, spec, forms, varmap, whole, AT, cs, leaves, sums, f'given={given}')
        for _ in range(4):
            v = adtgen.rand_value(spec, rng)
            op = view.asm.assemble(b.inst(spec, v)).as_uint()
            lv, chosen = route(b, spec, view, v)
            ctx.seen(given, adtgen.shape(spec), str(v))
            if given:
                sub = {x.value: const(op, None if isbit else w)}
                tags = {p: None for p in sums}
            else:
                sub, tags = free_assignment(rng, varmap, leaves, sums, view, lv, chosen)
            for p, c in lv.items():
                ctx.eq(evaluate(varmap[p], sub), c, f'given={given}: leaf {p} of {v}')
                ctx.event('leaves')
            for p, i in chosen.items():
                V, s = sums[p]
                ctx.eq(evaluate(varmap[p + (_TAG,)], sub), V.tags[i], f'given={given}: tag of {p} for {v}')
                matches(ctx, b, V, s, p, varmap, sub, V.tags[i], f'given={given}: {v}')
            if not given:
                for p, (V, s) in sums.items():
                    matches(ctx, b, V, s, p, varmap, sub, tags[p], f'{v} with tag {tags[p]}')
            choice = {p: key(b, sums[p][1], i) for p, i in chosen.items()}
            fs = [f for f in forms if f.path_dict == choice]
            ctx.eq(len(fs), 1, f'forms with the choices of {v}')
            if not given:
                ctx.eq(evaluate(fs[0].value, sub), op, f'value of the form {choice} for {v}')
            ctx.eq(evaluate(whole, sub), op, f'given={given}: the whole value for {v}')
            for p, e in fs[0].varmap.items():
                ctx.eq(evaluate(e, sub), lv[p], f'given={given}: leaf {p} of the form for {v}')
            ctx.event('values_given' if given else 'values_free')
        if given and sums:
            # opcodes of no particular value: tags and matches are those of the bits
            for _ in range(3):
                op = rng.getrandbits(w)
                sub = {x.value: smt.BV(op, w)}
                loose(ctx, b, spec, view, (), op, varmap, sub)
    ctx.sample(f'{spec}: {len(cs)} forms')


def structure(ctx, b, spec, forms, varmap, whole, AT, cs, leaves, sums, what):
    ctx.eq(len(forms), len(cs), f'{what}: number of forms')
    for choice, paths in cs:
        fs = [f for f in forms if f.path_dict == choice]
        ctx.eq(len(fs), 1, f'{what}: forms choosing {choice}')
        ctx.eq(set(fs[0].varmap), paths, f'{what}: leaves of the form {choice}')
        for p in paths:
            ctx.ok(fs[0].varmap[p].value is varmap[p].value, f'{what}: leaf {p} of the form {choice} is another variable')
        if leaves.get(()) is None:
            ctx.ok(isinstance(fs[0].value, AT), f'{what}: the form {choice} has a value of type {type(fs[0].value)}')
        ctx.event('forms')
    want = set(leaves) | {p + (_TAG,) for p in sums} | {p + (Match,) for p in sums}
    ctx.eq(set(varmap), want, f'{what}: paths')
    for p, (V, s) in leaves.items():
        T = type(varmap[p])
        if s[0] == 'bit':
            ctx.ok(T is SMTBit, f'{what}: leaf {p} is a {T}')
        else:
            ctx.ok(issubclass(T, SMTBitVector) and T.size == V.width, f'{what}: leaf {p} is a {T}, expected {V.width} bits')
    for p, (V, s) in sums.items():
        ctx.eq(set(varmap[p + (Match,)]), {key(b, s, i) for i in range(len(V.subs))}, f'{what}: match keys of {p}')


def free_assignment(rng, varmap, leaves, sums, view, lv, chosen):
    sub, tags = {}, {}
    for p, (V, s) in leaves.items():
        e = varmap[p].value
        sub[e] = const(lv[p] if p in lv else rng.getrandbits(V.width), None if s[0] == 'bit' else V.width)
    for p, (V, s) in sums.items():
        tw = V.tag_pos[1] - V.tag_pos[0]
        t = V.tags[chosen[p]] if p in chosen else rng.choice(V.tags + [rng.getrandbits(tw)])
        tags[p] = t
        sub[varmap[p + (_TAG,)].value] = smt.BV(t, tw)
    if len(sub) != len(leaves) + len(sums):
        raise AssertionError('two leaves or tags share a variable')
    return sub, tags


def matches(ctx, b, V, s, p, varmap, sub, tag, what):
    for i in range(len(V.subs)):
        k = key(b, s, i)
        ctx.eq(bool(evaluate(varmap[p + (Match,)][k], sub)), V.tags[i] == tag, f'{what}: match of {k} at {p}')
        ctx.event('matches')
    tw = V.tag_pos[1] - V.tag_pos[0]
    for t in {tag ^ 1, tag ^ (1 << (tw - 1))} if p + (_TAG,) in varmap and smt.substitute(varmap[p + (_TAG,)].value, {}).is_symbol() else ():
        sub2 = {**sub, varmap[p + (_TAG,)].value: smt.BV(t, tw)}
        for i in range(len(V.subs)):
            k = key(b, s, i)
            ctx.eq(bool(evaluate(varmap[p + (Match,)][k], sub2)), V.tags[i] == t, f'{what}: match of {k} at {p} with tag {t}')


def loose(ctx, b, s, view, path, op, varmap, sub):
    """Follow the bits of an arbitrary opcode."""
    if not adtgen.subs(s):
        ctx.eq(evaluate(varmap[path], sub), op & ((1 << view.width) - 1), f'leaf {path} of the opcode')
        return
    if adtgen.is_sum(s):
        lo, hi = view.tag_pos
        t = (op >> lo) & ((1 << (hi - lo)) - 1)
        ctx.eq(evaluate(varmap[path + (_TAG,)], sub), t, f'tag of {path} in the opcode')
        for i in range(len(view.subs)):
            k = key(b, s, i)
            ctx.eq(bool(evaluate(varmap[path + (Match,)][k], sub)), view.tags[i] == t, f'match of {k} at {path} in the opcode')
        sel = [i for i in range(len(view.subs)) if view.tags[i] == t]
    else:
        sel = range(len(view.subs))
    for i in sel:
        lo, hi = view.pos[i]
        loose(ctx, b, view.subs[i][1], view.sub[i], path + (key(b, s, i),), (op >> lo) & ((1 << (hi - lo)) - 1), varmap, sub)
    ctx.event('opcodes')

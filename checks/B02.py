"""B02: histories of operations on black boxes against a per-box record of what was set and passed."""
from hwtypes import Bit, BitVector, SIntVector, SMTBit, SMTBitVector, SMTSIntVector
import pysmt.shortcuts as smt
from peak import family
from peak.black_box import get_black_boxes, get_black_box
from peak.assembler.assembler import Assembler
from peak.assembler.assembled_adt import AssembledADT
from peak.float import float_lib_gen, RoundingMode
from checks import boxes

RULE = ('interleaved histories (set outputs, call by position and by name in any order, read inputs, and wrong variants of each: missing, extra, unknown, mixed, no arguments, calls before outputs are '
        'set, reads before a call, too few and too many outputs) over several boxes of the same and of different classes with free, constant and instruction arguments, including boxes of the '
        'float library; designs that call boxes in sequence, twice, by name and in a component below, with the recorded inputs and the outputs judged by substitution against plain ints; '
        'distinct = (box kinds, history of operations)')
N = {'quick': 6000, 'thorough': 60000}
BUDGET = {'quick': 150, 'thorough': 900}
ASSUMPTIONS = ['boxes have at least one input and one output', 'boxes are judged in the symbolic family; in the Python families they are ordinary designs, which is checked for the designs used here']

LIB = float_lib_gen(3, 4)
F = family.SMTFamily()


def val(rng, s):
    if s[0] == 'bit':
        return SMTBit() if rng.random() < 0.6 else SMTBit(rng.getrandbits(1))
    if s[0] == 'inst':
        i = boxes.Inst(rng.choice([boxes.Mode.m0, boxes.Mode.m1, boxes.Mode.m2]), BitVector[3](rng.getrandbits(3)))
        T = AssembledADT[boxes.Inst, Assembler, SMTBitVector]
        return T(i) if rng.random() < 0.5 else T(SMTBitVector[Assembler(boxes.Inst).width]())
    if s[0] == 'any':
        return object()
    V = {'bv': SMTBitVector, 's': SMTSIntVector}[s[0]]
    return V[s[1]]() if rng.random() < 0.6 else V[s[1]](rng.getrandbits(s[1]))


class Rec:
    def __init__(self, obj, ins, outs):
        self.obj, self.ins, self.outs = obj, ins, outs
        self.set, self.seen = None, None


def make(rng):
    k = rng.random()
    if k < 0.75:
        b = rng.choice(boxes.BOXES)
        return Rec(b(F)(), *boxes.SIG[b])
    if k < 0.82:
        return Rec(boxes.sub(F)(), *boxes.SIG[boxes.one])
    if k < 0.92:
        return Rec(LIB.Add_fc(F)(), [('rm', ('any',)), ('in0', ('bv', 8)), ('in1', ('bv', 8))], [('bv', 8)])
    lib = LIB.const_rm(RoundingMode.RNE)
    return Rec(lib.Mul_fc(F)(), [('in0', ('bv', 8)), ('in1', ('bv', 8))], [('bv', 8)])


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def history(ctx, rng):
    recs = [make(rng) for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.5:
        recs.append(Rec(type(recs[0].obj)(), recs[0].ins, recs[0].outs))
    log = []
    for step in range(rng.randint(8, 40)):
        j = rng.randrange(len(recs))
        r = recs[j]
        op = rng.choices(['set', 'pos', 'kw', 'read', 'badset', 'badcall'], [3, 3, 3, 3, 1, 2])[0]
        log.append((j, op))
        n = len(r.ins)
        args = [val(rng, s) for _, s in r.ins]
        kw = list(zip([m for m, _ in r.ins], args))
        rng.shuffle(kw)
        if op == 'set':
            outs = [val(rng, s) for s in r.outs]
            r.obj._set_outputs(*outs)
            r.set = outs
        elif op in ('pos', 'kw'):
            call = (lambda: r.obj(*args)) if op == 'pos' else (lambda: r.obj(**dict(kw)))
            if r.set is None:
                ctx.raises(call, f'step {step}: call of box {j} before its outputs are set', log, exc=ValueError)
            else:
                got = call()
                if len(r.set) == 1:
                    ctx.ok(got is r.set[0], f'step {step}: box {j} gives {got!r}, its output is {r.set[0]!r}', log)
                else:
                    ctx.ok(isinstance(got, tuple) and same(got, r.set), f'step {step}: box {j} gives {got!r}, its outputs are {r.set!r}', log)
                r.seen = args
        elif op == 'badset':
            outs = [val(rng, s) for s in r.outs]
            outs = outs[:-1] if rng.random() < 0.5 else outs + [val(rng, ('bv', 8))]
            ctx.raises(lambda: r.obj._set_outputs(*outs), f'step {step}: {len(outs)} outputs set for {len(r.outs)}', log, exc=ValueError)
        elif op == 'badcall':
            bad = []
            bad.append(('extra', lambda: r.obj(*args, args[0])))
            bad.append(('unknown', lambda: r.obj(**dict(kw), nope=args[0])))
            bad.append(('renamed', lambda: r.obj(**dict(kw[1:]), nope=args[0])))
            bad.append(('none', lambda: r.obj()))
            if n > 1:
                i = rng.randint(1, n - 1)
                bad.append(('missing', lambda: r.obj(*args[:i])))
                bad.append(('missing name', lambda: r.obj(**dict(kw[:i]))))
                bad.append(('mixed', lambda: r.obj(*args[:i], **{m: a for (m, _), a in list(zip(r.ins, args))[i:]})))
            else:
                bad.append(('mixed', lambda: r.obj(*args, **{'nope': args[0]})))
            w, call = rng.choice(bad)
            ctx.raises(call, f'step {step}: {w} arguments for box {j}', log, exc=(ValueError, TypeError))
            ctx.event('bad_' + w.replace(' ', '_'))
        for i, q in enumerate(recs):
            if q.seen is None:
                ctx.raises(q.obj._get_inputs, f'step {step}: inputs of box {i} read before a call', log, exc=ValueError)
            else:
                got = q.obj._get_inputs()
                ctx.ok(isinstance(got, tuple) and same(got, q.seen), f'step {step}: box {i} reports {got!r}, its latest call got {q.seen!r}', log)
        ctx.event('op_' + op)
    ctx.seen(tuple(type(r.obj).__name__ for r in recs), tuple(log))
    for r in recs:
        ctx.ok(list(type(r.obj).input_t.field_dict) == [m for m, _ in r.ins], 'declared order')


def ev(x, subs):
    c = smt.simplify(smt.substitute(x.value, subs))
    return int(c.constant_value()) if c.is_constant() else None


def design(ctx, rng):
    C = boxes.chain(F)
    objs = [C() for _ in range(rng.choice([1, 2]))]
    names = {('p',): [8], ('q',): [8, 1], ('d', 'bb'): [5, 8, 1], ('r',): [8]}
    kinds = {('p',): [('bv', 8)], ('q',): [('bv', 8), ('bit',)], ('d', 'bb'): [('bv', 5), ('s', 8), ('bit',)], ('r',): [('bv', 8)]}
    runs = []
    for o in objs:
        bbs = get_black_boxes(o)
        ctx.eq(set(bbs), set(names), 'boxes of the design')
        ctx.raises(lambda: o(SMTBitVector[2](1), SMTBitVector[8](), SMTBitVector[8]()), 'the design is called before its boxes have outputs', exc=ValueError)
    for step in range(rng.randint(1, 3)):
        for o in objs:
            subs, ov = {}, {}
            for p, ss in kinds.items():
                vs = []
                for s in ss:
                    x = val(rng, s)
                    v = rng.getrandbits(1 if s[0] == 'bit' else s[1])
                    if x.value.is_constant():
                        v = int(x.value.constant_value())
                    else:
                        subs[x.value] = smt.Bool(bool(v)) if s[0] == 'bit' else smt.BV(v, s[1])
                    vs.append((x, v))
                get_black_box(o, p)._set_outputs(*[x for x, _ in vs])
                ov[p] = [v for _, v in vs]
            k, x, y = rng.randrange(4), rng.getrandbits(8), rng.getrandbits(8)
            X, Y = SMTBitVector[8](), SMTBitVector[8]()
            subs[X.value], subs[Y.value] = smt.BV(x, 8), smt.BV(y, 8)
            a, b = o(SMTBitVector[2](k), X, Y) if rng.random() < 0.5 else o(k=SMTBitVector[2](k), y=Y, x=X)
            u = ov['p',][0]
            s, c = ov['q',]
            A, B, cc = ov['d', 'bb']
            v = A if cc else B
            w = ov['r',][0]
            t = u
            out = u if k == 0 else w if k == 1 or c else (v + t) & 255
            ctx.eq((ev(a, subs), ev(b, subs)), (out, s), f'design outputs with box outputs {ov}, k={k} x={x} y={y}')
            runs.append((o, subs, {('p',): [w ^ y], ('q',): [u, y], ('d', 'bb'): [s & 1, y & 31, s], ('r',): [v]}))
            if rng.random() < 0.5:
                judge(ctx, *runs[-1])
        for r in runs[-len(objs):]:
            judge(ctx, *r)
        ctx.event('design_calls', len(objs))
    if rng.random() < 0.3:
        python(ctx, rng)
    ctx.seen('design', len(objs), step)


def judge(ctx, o, subs, want):
    for p, w in want.items():
        got = [ev(x, subs) for x in get_black_box(o, p)._get_inputs()]
        ctx.eq(got, w, f'inputs recorded by {p}')


def python(ctx, rng):
    for f in ('py', 'pyx'):
        o = boxes.chain(boxes.FAM[f]())()
        k, x, y = rng.randrange(4), rng.getrandbits(8), rng.getrandbits(8)
        a, b = o(BitVector[2](k), BitVector[8](x), BitVector[8](y))
        u = (x + 1) & 255
        s, c = (u - y) & 255, int(u == y)
        yy = y & 31
        A, B, cc = yy if s & 1 else (yy + 3) & 31, s, 1 - (s & 1)
        v = A if cc else B
        w = (v + 1) & 255
        t = ((w ^ y) + 1) & 255
        ctx.eq((int(a), int(b)), (u if k == 0 else w if k == 1 or c else (v + t) & 255, s), f'{f} outputs for k={k} x={x} y={y}')
        ctx.event('python_calls')


def case(ctx, rng):
    if ctx.index % 4 == 0:
        design(ctx, rng)
    else:
        history(ctx, rng)

"""A02: validity of opcodes and tags is exact."""
from hwtypes import BitVector, SMTBitVector, Bit
import pysmt.shortcuts as smt
from vlib import adtgen, asmview

RULE = ('random instruction types (depth<=4, every enum shape the validator special-cases); every opcode when width<=10, else valid '
        'opcodes, their bit/arith neighbours and random ones; oracle: recursive reading through published positions and declared members; '
        'distinct = (assembler, type shape, number of valid and invalid opcodes seen)')
N = {'quick': 700, 'thorough': 9000}
BUDGET = {'quick': 120, 'thorough': 1200}


def smt_val(e):
    r = e.value.simplify() if hasattr(e, 'value') else e
    if not r.is_constant():
        raise AssertionError(f'not constant: {r}')
    return bool(r.constant_value())


def case(ctx, rng):
    g = adtgen.Gen(rng, zero=rng.random() < 0.3, big=0.08)
    if rng.random() < 0.35:
        spec = g.enum()
    else:
        spec = g.spec(rng.randint(1, 4), top=True)
    for s in adtgen.twins(spec, rng):
        one(ctx, rng, g, s)


def one(ctx, rng, g, spec):
    b = adtgen.Builder(rng=rng)
    ctx.note(f'type {spec}')
    b(spec)
    vals = adtgen.some_values(spec, rng, 40)
    for ver in (1, 2):
        view = asmview.View(ver, b, spec)
        asm, w = view.asm, view.width
        if view.kind == 'enum':
            for m, c in adtgen.enum_codes(spec).items():
                ctx.eq(view.codes[m], c, f'v{ver} code of {m}')
        ops, full = asmview.opcodes(view, rng, vals, b, 10 if ctx.tier == 'quick' else 12)
        nv = ni = 0
        sym = None
        if w > 0 and not g.zero:
            x = SMTBitVector[w]()
            sym = asm.is_valid(x)
            step = max(1, len(ops) // 16)
        for k, op in enumerate(ops):
            want = view.read(op)
            o = BitVector[w](op)
            got = asm.is_valid(o)
            ctx.ok(isinstance(got, Bit), f'v{ver} is_valid returns {type(got)}')
            ctx.ok(bool(got) == (want is not None), f'v{ver} opcode {op:#x} of {w} bits reported valid={got}, reads as {want}')
            if want is not None:
                nv += 1
                inst = asm.disassemble(o)
                ctx.ok(b.read(spec, inst) == want, f'v{ver} opcode {op:#x} decodes as {inst!r}, holds {want}')
                back = asm.assemble(inst).as_uint()
                m = view.mask(want)
                ctx.ok((back ^ op) & m == 0, f'v{ver} opcode {op:#x} decodes as {inst!r} which encodes as {back:#x}, used bits {m:#x}')
            else:
                ni += 1
                ctx.raises(lambda: asm.disassemble(o), f'v{ver} decoding invalid opcode {op:#x} of {w} bits')
            if sym is not None and k % step == 0:
                r = smt.simplify(smt.substitute(sym.value, {x.value: smt.BV(op, w)})) if hasattr(sym, 'value') else sym
                ctx.ok(r.is_constant() and bool(r.constant_value()) == (want is not None), f'v{ver} symbolic validity of {op:#x} is {r}, concrete {want}')
                ctx.event('symbolic_opcodes')
        ctx.event('valid_opcodes', nv)
        ctx.event('invalid_opcodes', ni)
        ctx.event('types_exhausted' if full else 'types_sampled')
        ctx.seen(ver, adtgen.shape(spec), nv, ni)
        if ver == 1:
            for s in [view] + all_subs(view):
                if s.kind in ('sum', 'tu'):
                    tags(ctx, s, b)
    ctx.sample(f'{spec}: width {w}, {nv} valid and {ni} invalid opcodes judged')




def all_subs(view):
    res = []
    for s in view.sub:
        res += [s] + all_subs(s)
    return res


def tags(ctx, s, b):
    asm, tw = s.asm, s.asm.tag_width
    ctx.eq(len(set(s.tags)), len(s.subs), f'tags of {s.spec} collide: {s.tags}')
    for t in range(1 << min(tw, 10)):
        o = BitVector[tw](t)
        want = t in s.tags
        ctx.ok(bool(asm.is_valid_tag(o)) == want, f'tag {t} of {s.spec} reported valid={not want}, tags are {s.tags}')
        ctx.event('tags')
        if tw:
            ctx.ok(smt_val(asm.is_valid_tag(SMTBitVector[tw](t))) == want, f'symbolic tag {t} of {s.spec} valid={not want}')
        if want:
            n = asm.disassemble_tag(o)
            ctx.ok(n == s.key(s.tags.index(t)), f'tag {t} names {n}, encodes {s.key(s.tags.index(t))}')
        else:
            ctx.raises(lambda: asm.disassemble_tag(o), f'decoding invalid tag {t} of {s.spec}')

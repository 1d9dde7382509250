"""A01: encode/decode round trip and injectivity, both assemblers."""
from hwtypes import BitVector
from vlib import adtgen
import peak.assembler as a1, peak.assembler2 as a2
from peak.assembler.assembler import Assembler as Asm1
from peak.assembler2.assembler import Assembler as Asm2

RULE = ('random instruction type (depth<=4, enums dense/sparse/one-hot/multi-range/Auto/single, products, tuples, sums, '
        'unions, types sharing names); all instructions when <=N, else samples incl. extremes; distinct = (assembler, type shape, opcode)')
N = {'quick': 1600, 'thorough': 16000}
BUDGET = {'quick': 120, 'thorough': 1200}


def case(ctx, rng):
    g = adtgen.Gen(rng, big=0.08)
    for spec in adtgen.twins(g.spec(rng.randint(1, 4), top=True), rng):
        one(ctx, rng, spec)


def one(ctx, rng, spec):
    b = adtgen.Builder(rng=rng)
    T = b(spec)
    ctx.note(f'type {spec}')
    cap = 300 if ctx.tier == 'quick' else 600
    full = adtgen.count(spec) <= cap
    vals = adtgen.some_values(spec, rng, cap if full else 60)
    ctx.event('types')
    ctx.event('types_enumerated' if full else 'types_sampled')
    for ver, Asm in ((1, Asm1), (2, Asm2)):
        asm = Asm(T)
        w = asm.width
        ctx.ok(isinstance(w, int) and w >= 0, f'v{ver} width {w!r}')
        codes = {}
        for v in vals:
            inst = b.inst(spec, v)
            op = asm.assemble(inst)
            ctx.ok(isinstance(op, BitVector[w]), f'v{ver} opcode of {inst} is a {type(op)}, declared width {w}')
            back = asm.disassemble(op)
            try:
                got = b.read(spec, back)
            except (TypeError, ValueError) as e:
                ctx.ok(False, f'v{ver} decoded {back!r} is not an instruction of the type', e, op)
            ctx.ok(got == v, f'v{ver} {inst} encodes as {op} which decodes as {back!r}', v, got)
            ctx.ok(bool(back == inst), f'v{ver} decoded {back!r} does not equal {inst!r}')
            ctx.ok(bool(asm.is_valid(op)), f'v{ver} opcode {op} of {inst} reported invalid')
            k = op.as_uint()
            other = codes.setdefault(k, v)
            ctx.ok(other == v, f'v{ver} {other} and {v} share opcode {k:#x}')
            ctx.event('instructions')
        ctx.seen(ver, adtgen.shape(spec), frozenset(codes))
    ctx.sample(f'{spec}: {len(vals)} instructions, width {asm.width}')

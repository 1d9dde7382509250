"""L02: the legacy assembler generator: round trips, injectivity, layout."""
import warnings
from hwtypes import BitVector, Bit, AbstractBit, AbstractBitVector
from vlib import adtgen
warnings.simplefilter('ignore')
from peak import auto_assembler

RULE = ('random types of products, sums, enums (with gaps and automatic members), bits and signed and unsigned vectors up to depth 4, and constants; encoders run on every value of small types and samples '
        'of others: decoded value, width, difference of codes, and bits at every published place at every depth; distinct = (type shape, value)')
N = {'quick': 3000, 'thorough': 60000}
BUDGET = {'quick': 120, 'thorough': 1200}
ASSUMPTIONS = ['the types it is made for: enums, products, sums, bits, vectors (it rejects tuples and was not made for tagged unions); no zero-width parts']


class Norm:
    """Specs without tuples and tagged unions."""
    def __init__(self):
        self.n = 0

    def __call__(self, s):
        k = s[0]
        if k in ('tuple', 'prod'):
            self.n += 1
            ts = [self(t) for _, t in adtgen.subs(s)]
            return ['prod', s[1] if k == 'prod' else f'Q{self.n}', [[f if k == 'prod' else f'f{f}', t] for (f, _), t in zip(adtgen.subs(s), ts)]]
        if k in ('sum', 'tu'):
            ts = []
            for _, t in adtgen.subs(s):
                t = self(t)
                if t not in ts:
                    ts.append(t)
            return ['sum', ts]
        return s


def case(ctx, rng):
    g = adtgen.Gen(rng, zero=False, autos=rng.random() < 0.5, big=0.08)
    for s in adtgen.twins(Norm()(g.spec(rng.randint(0, 4), top=True)), rng):
        one(ctx, rng, s)


def one(ctx, rng, s):
    b = adtgen.Builder(rng=rng)
    T = b(s)
    ctx.note(f'type {s}')
    asm, dis, w, layout = auto_assembler.generate_assembler(T)
    ctx.eq(auto_assembler.get_width(T), w, f'width of {s}')
    vals = adtgen.some_values(s, rng, 40)
    codes = {}
    for v in vals:
        x = b.inst(s, v)
        c = asm(x)
        if s[0] == 'bit':
            ctx.ok(isinstance(c, (AbstractBit, AbstractBitVector)), f'the code of {x!r} is a {type(c)}')
        else:
            ctx.ok(isinstance(c, AbstractBitVector) and c.size == w, f'the code of {x!r} is a {type(c)}, expected {w} bits')
        got = dis(c)
        try:
            r = read(b, s, got)
        except (TypeError, ValueError) as e:
            ctx.ok(False, f'{x!r} decodes to {got!r}: {e}')
        ctx.eq(r, v, f'{x!r} decoded')
        k = num(c)
        ctx.ok(codes.setdefault(k, v) == v, f'{x!r} and another value have the code {k:#x}', codes[k])
        places(ctx, b, s, v, k, w, layout, f'{x!r}')
        # a second generation agrees
        ctx.seen(adtgen.shape(s), str(v))
        ctx.event('values')
    again = auto_assembler.generate_assembler(T)
    x = b.inst(s, vals[0])
    ctx.eq(num(again[0](x)), num(asm(x)), f'the code of {x!r} by another assembler of the type')
    if rng.random() < 0.1:
        constant(ctx, rng)
    ctx.sample(f'{s} {vals[0]}')


def read(b, s, x):
    """As Builder.read, with alternatives told apart by exact type (a signed vector is also a vector)."""
    if s[0] == 'prod' and isinstance(x, b(s)):
        return [read(b, t, getattr(x, f)) for f, t in s[2]]
    if s[0] == 'sum' and isinstance(x, b(s)):
        hits = [i for i, t in enumerate(s[1]) if type(x.value) is b(t)]
        if len(hits) != 1:
            raise ValueError(f'{type(x.value)} is no alternative')
        return [hits[0], read(b, s[1][hits[0]], x.value)]
    return b.read(s, x)


def num(c):
    return int(bool(c)) if isinstance(c, AbstractBit) else c.as_uint()


def places(ctx, b, s, v, code, w, layout, what):
    """The published place of every part holds the code of that part."""
    if s[0] == 'enum':
        for m, _ in s[2]:
            ctx.eq(tuple(layout[getattr(b(s), m)][:2]), (0, w), f'{what}: place of {m}')
        want = adtgen.enum_codes(s).get(v)
        if want is not None:
            ctx.eq(code, want, f'{what}: code of {v}')
        return
    ks = adtgen.subs(s)
    if not ks:
        if s[0] != 'enum':
            ctx.eq(code, v, f'{what}: leaf {s}')
        return
    taken = 0
    for i, (k, t) in enumerate(ks):
        key = b(t) if s[0] == 'sum' else k
        lo, hi, sub = layout[key]
        ctx.ok(0 <= lo <= hi <= w, f'{what}: place {lo}:{hi} of {key} in {w} bits')
        ctx.eq(hi - lo, auto_assembler.get_width(b(t)), f'{what}: width of the place of {key}')
        if s[0] == 'sum':
            if v[0] != i:
                continue
            x = v[1]
        else:
            m = ((1 << (hi - lo)) - 1) << lo
            ctx.ok(not taken & m, f'{what}: the place of {key} overlaps another')
            taken |= m
            x = v[i]
        part = (code >> lo) & ((1 << (hi - lo)) - 1)
        own = num(auto_assembler.generate_assembler(b(t))[0](b.inst(t, x)))
        ctx.eq(part, own, f'{what}: bits {lo}:{hi} of {code:#x} for {key}')
        ctx.event('places')
        places(ctx, b, t, x, part, hi - lo, sub, what)


def constant(ctx, rng):
    n = rng.randint(1, 6)
    v = rng.getrandbits(n)
    c = BitVector[n](v)
    asm, dis, w, _ = auto_assembler.generate_assembler(c)
    ctx.eq((w, num(asm(c)), num(dis(asm(c)))), (n, v, v), f'constant {c!r}')
    other = BitVector[n](v ^ (1 << rng.randrange(n)))
    ctx.raises(lambda: asm(other), f'encoding {other!r} as the constant {c!r}')
    ctx.raises(lambda: dis(other), f'decoding {other!r} as the constant {c!r}')
    ctx.event('constants')

"""L03: generated floating-point operations against the number library in the selected mode."""
import warnings
from hwtypes import BitVector, Bit, FPVector, SMTBitVector, RoundingMode as HW
import gmpy2
import pysmt.shortcuts as smt
from peak import family
from peak.assembler.assembler import Assembler
from peak.float import float_lib_gen, RoundingMode, RoudningMode_utils

RULE = ('random formats (2 to 11 exponent bits, 2 to 52 fraction bits, with and without IEEE compliance), operations, modes and operands (specials, neighbours, ties, random words) for the general and the '
        'constant-mode operation in the plain and (for a share) the rewriting Python family; conversions between the mode representations, concrete and symbolic; '
        'distinct = (format, operation, mode, operands)')
N = {'quick': 1500, 'thorough': 3500}
BUDGET = {'quick': 200, 'thorough': 1400}
LIMIT = {'quick': 150, 'thorough': 200}
ASSUMPTIONS = ['the number library is hwtypes FPVector (gmpy2); the sign of a NaN it returns is arbitrary, so NaN results, and infinities of formats without IEEE compliance (which stand for NaN too), are compared up to sign',
               'operations are black boxes in the SMT family and restricted to one mode in the magma family: they are run in the two Python families']

MODE = {'RNE': HW.RNE, 'RTZ': HW.RTZ, 'RDN': HW.RTN, 'RUP': HW.RTP, 'RMM': HW.RNA}
UNARY = ['abs', 'neg', 'sqrt', 'round_to_integral']
BINARY = ['add', 'sub', 'mul', 'div', 'rem', 'min', 'max']
BITS1 = ['is_normal', 'is_subnormal', 'is_zero', 'is_infinite', 'is_NaN', 'is_negative', 'is_positive']
BITS2 = ['leq', 'lt', 'geq', 'gt', 'eq']
ARITY = {**{o: 1 for o in UNARY + BITS1}, **{o: 2 for o in BINARY + BITS2}, 'fma': 3}
NAN = object()


def fc_name(op):
    return op.capitalize() + '_fc'


def operands(rng, e, f, n):
    w = 1 + e + f
    m = (1 << w) - 1
    expmask = ((1 << e) - 1) << f
    base = [0, 1 << (w - 1), expmask, expmask | 1 << (w - 1), expmask | 1, 1, (1 << f) - 1, 1 << f, expmask - 1, ((1 << (e - 1)) - 1) << f]
    a = rng.choice([rng.getrandbits(w), rng.getrandbits(w), rng.choice(base), (((1 << (e - 1)) - 1 + rng.randint(-2, 2)) << f) | rng.getrandbits(f)]) & m
    res = [a]
    while len(res) < n:
        k = rng.random()
        if k < 0.3:
            x = res[0] ^ (1 << rng.randrange(w))
        elif k < 0.6:
            # an exponent near the first one
            x = ((((res[0] >> f) + rng.randint(-f - 2, f + 2)) & ((1 << (e + 1)) - 1)) << f) | rng.getrandbits(f)
        elif k < 0.7:
            x = rng.choice(base)
        elif k < 0.75:
            x = res[0]
        else:
            x = rng.getrandbits(w)
        res.append(x & m)
    return res


def number(e, f, mode, ieee, op, xs):
    """What the number library gives, NAN, or the exception it raises."""
    T = FPVector[e, f, mode, ieee]
    w = 1 + e + f
    vs = [T.reinterpret_from_bv(BitVector[w](x)) for x in xs]
    try:
        r = getattr(vs[0], 'fp_' + op)(*vs[1:])
    except Exception as ex:
        return ex
    if isinstance(r, Bit):
        return int(bool(r))
    if gmpy2.is_nan(r._value):
        return NAN
    return r.reinterpret_as_bv().as_uint()


def expected(e, f, mode, ieee, op, xs):
    r = number(e, f, mode, ieee, op, xs)
    if not ieee and isinstance(r, int) and op not in BITS1 + BITS2:
        # without compliance a NaN becomes an infinity of arbitrary sign
        if r & ((1 << (e + f)) - 1) == ((1 << e) - 1) << f:
            return r, (1 << (e + f)) - 1
    return r, (1 << (1 + e + f)) - 1


def agree(ctx, got, want, mask, e, f, what):
    if want is NAN:
        ctx.ok((got >> f) & ((1 << e) - 1) == (1 << e) - 1, f'{what}: got {got:#x}, expected a NaN')
    else:
        ctx.eq(got & mask, want & mask, what)


def run(f):
    try:
        return f()
    except Exception as ex:
        return ex


def value(r):
    return int(bool(r)) if isinstance(r, Bit) else r.as_uint()


def case(ctx, rng):
    warnings.simplefilter('ignore')
    if ctx.index % 16 == 3:
        utils(ctx, rng)
    e, f = rng.choice([(3, 4), (4, 3), (5, 10), (8, 7), (8, 23), (11, 52), (rng.randint(2, 8), rng.randint(2, 20))])
    ieee = rng.random() < 0.5
    lib = float_lib_gen(e, f, ieee) if ieee or rng.random() < 0.5 else float_lib_gen(e, f)
    ctx.eq(sorted(k for k in vars(lib) if k.endswith('_fc')), sorted(fc_name(o) for o in ARITY), 'operations of the library')
    op = rng.choice(list(ARITY))
    fc = getattr(lib, fc_name(op))
    ctx.note(f'format ({e}, {f}, ieee={ieee}) operation {op}')
    w = 1 + e + f
    bit = op in BITS1 + BITS2
    gen = fc.Py()
    consts = {}
    cm = rng.sample(list(MODE), 2)
    for m in cm:
        clib = lib.const_rm(getattr(RoundingMode, m))
        ctx.eq(sorted(k for k in vars(clib) if k.endswith('_fc')), sorted(fc_name(o) for o in ARITY), f'operations of the library with mode {m}')
        consts[m] = getattr(clib, fc_name(op)).Py()
    rewriting = rng.random() < 0.06
    for _ in range(40):
        xs = operands(rng, e, f, ARITY[op])
        bvs = [BitVector[w](x) for x in xs]
        results = {}
        for m, hm in MODE.items():
            want, mask = expected(e, f, hm, ieee, op, xs)
            got = run(lambda: gen(getattr(RoundingMode, m), *bvs))
            what = f'{op} of {[hex(x) for x in xs]} with {m} in ({e}, {f}, {ieee})'
            if isinstance(want, Exception):
                ctx.ok(isinstance(got, type(want)), f'{what}: got {got!r}, the number library raises {want!r}')
                ctx.event('raising')
                continue
            if isinstance(got, Exception):
                ctx.ok(False, f'{what}: raises {got!r}')
            ctx.ok(isinstance(got, Bit) if bit else isinstance(got, BitVector) and got.size == w, f'{what}: got a {type(got)}')
            agree(ctx, value(got), want, mask, e, f, what)
            results[m] = value(got)
            ctx.event(f'results_{m}')
            if m in consts:
                agree(ctx, value(consts[m](*bvs)), want, mask, e, f, what + ', constant mode')
                ctx.event('results_constant')
        if rewriting and len(results) == len(MODE):
            # the rewriting family computes every branch, so no mode may raise
            if rewriting is True:
                X = family.PyXFamily()
                RM = X.get_adt_t(RoundingMode)
                rewriting = fc(X)(), {m: getattr(lib.const_rm(getattr(RoundingMode, m)), fc_name(op))(X)() for m in cm}
            for m, hm in MODE.items():
                want, mask = expected(e, f, hm, ieee, op, xs)
                what = f'{op} of {[hex(x) for x in xs]} with {m} in ({e}, {f}, {ieee}), rewriting family'
                agree(ctx, value(rewriting[0](RM(getattr(RoundingMode, m)), *bvs)), want, mask, e, f, what)
                if m in consts:
                    agree(ctx, value(rewriting[1][m](*bvs)), want, mask, e, f, what + ', constant mode')
                ctx.event('results_rewriting_family')
        if len(set(results.values())) > 1:
            ctx.event('operands_rounding_differently')
        ctx.seen(e, f, ieee, op, str(xs))
    ctx.sample(f'({e}, {f}, {ieee}) {op} {[hex(x) for x in xs]}')


def utils(ctx, rng):
    """Conversions between mode representations are inverse of each other."""
    asm = Assembler(RoundingMode)
    for fam, BV in ((family.PyXFamily(), BitVector), (family.SMTFamily(), SMTBitVector)):
        U = RoudningMode_utils(fam)
        RM = fam.get_adt_t(RoundingMode)
        for m, hm in MODE.items():
            M = getattr(RoundingMode, m)
            ctx.eq(U.RM_to_RM_hwtypes(M), hm, f'the number library\'s name of {m}')
            ctx.eq(U.RM_hwtypes_to_RM(hm), M, f'the mode of {hm}')
            c = asm.assemble(M).as_uint()
            a = RM(BV[asm.width](c))
            b = U.from_rm(a)
            n = num(b)
            ctx.eq(n, M._value_, f'{type(fam).__name__}: {m} as bits')
            back = U.to_rm(BV[3](n))
            ctx.eq(num(back._value_), c, f'{type(fam).__name__}: bits {n} as a mode')
            ctx.eq(num(U.to_rm(b)._value_), c, f'{type(fam).__name__}: {m} to bits and back')
            ctx.event('conversions')


def num(b):
    if isinstance(b, BitVector):
        return b.as_uint()
    v = smt.simplify(b.value)
    if not v.is_constant():
        raise AssertionError(f'{v} is not determined')
    return int(v.constant_value())

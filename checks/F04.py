"""F04: input_t / output_t report the declared interface; ill-typed declarations and results are rejected."""
import os, sys
from hwtypes import Bit, BitVector, SIntVector, UIntVector
from hwtypes.adt import Product, Tuple
from hwtypes.modifiers import is_modified, is_modifier, strip_modifiers, get_modifier, get_unmodified
from vlib import adtgen, proggen
from checks.F01 import load
from peak import Peak, Const, family, name_outputs, gen_input_t, gen_output_t

RULE = ('random signatures (0-6 inputs of bits, vectors, signed vectors, enums, sums, products and tagged unions, with and without Const, with local variables, '
        'defaults and calls by keyword; single, tuple, named and absent outputs) declared in source and created in the three software families, plain functions and '
        'subclasses, several designs of one maker called with different types (also different ones of the same name); declarations lacking an annotation; result checking with well-typed, ill-typed, missing and extra results; distinct = (signature, family)')
N = {'quick': 400, 'thorough': 8000}
BUDGET = {'quick': 150, 'thorough': 1200}
ASSUMPTIONS = ['result checking is judged in the plain Python family: the rewriting families rebuild __call__ from its source and drop it']

NAMES = ['a', 'b', 'c', 'in0', 'in1', 'inst', 'data', 'sel', 'en', 'out', 'x', 'y_', 'Foo', 'res', 'T', 'k2', 'clk_en', 'op0']


class Sig:
    def __init__(self, rng):
        self.rng = rng
        g = adtgen.Gen(rng, zero=False, bvmax=8)
        self.types = proggen.TypeNames()
        self.b = adtgen.Builder(rng=rng)
        n = rng.choice([0, 1, 1, 2, 3, 4, 6])
        self.inputs = [(m, self.rand(g), rng.random() < 0.4) for m in rng.sample(NAMES, n)]
        k = rng.choice([0, 1, 1, 1, 2, 2, 3])
        self.outputs = [(m, self.rand(g)) for m in rng.sample(NAMES, k)]
        self.named = k > 0 and rng.random() < 0.5
        self.locals = rng.sample([x for x in NAMES if x not in [m for m, _, _ in self.inputs]], rng.randint(0, 2))

    def rand(self, g):
        r = self.rng
        k = r.random()
        if k < 0.25:
            return ('bit',)
        if k < 0.55:
            return (r.choice(['bv', 'bv', 's', 'u']), r.randint(1, 9))
        return g.spec(r.randint(1, 2), top=True)

    def tname(self, s):
        if s[0] in ('bit', 'bv', 's', 'u'):
            return proggen.tsrc(s)
        return self.types(s)

    def source(self, drop=None):
        """drop: the input whose annotation is left out, or 'return'."""
        def ann(m, s, c):
            t = self.tname(s)
            if drop == m:
                return m
            return f'{m}: Const({t})' if c else f'{m}: {t}'
        args = ', '.join(['self'] + [ann(*i) for i in self.inputs])
        outs = [self.tname(s) for _, s in self.outputs]
        if not outs:
            ret = 'None'
        elif len(outs) == 1:
            ret = outs[0] if self.rng.random() < 0.7 else f'({outs[0]},)'
        else:
            ret = '(' + ', '.join(outs) + ')'
        L = ['@family_closure', 'def fc(family):', '    Bit = family.Bit', '    BV = family.BitVector', '    Signed = family.Signed', '    Unsigned = family.Unsigned',
             '    @family.assemble(locals(), globals())', '    class A(Peak, typecheck=check):']
        L += ['        def helper(self, q):', '            return q', '']
        if self.named:
            L.append('        @name_outputs(' + ', '.join(f'{m}={self.tname(s)}' for m, s in self.outputs) + ')')
        arrow = '' if drop == 'return' or (self.named and self.rng.random() < 0.5 and drop is None) else f' -> {ret}'
        L.append(f'        def __call__({args}){arrow}:')
        for v in self.locals:
            L.append(f'            {v}_l = {len(v)}')
        L += ['            return self.result', '', '    return A', '']
        head = ['from hwtypes import Bit as HBit, BitVector as HBV, SIntVector as HS, UIntVector as HU',
                'from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion',
                'from peak import Peak, family_closure, Const, name_outputs', 'check = False', '']
        return '\n'.join(head + self.types.lines + [''] + L)


def ftype(F, b, s):
    k = s[0]
    if k == 'bit':
        return F.Bit
    if k in ('bv', 's', 'u'):
        return {'bv': F.BitVector, 's': F.Signed, 'u': F.Unsigned}[k][s[1]]
    return b(s)


def case(ctx, rng):
    sig = Sig(rng)
    name = f'i_{ctx.index}'
    src = sig.source()
    ctx.note(src)
    try:
        mod = load(src, os.getcwd(), name)
        b = adtgen.NamedBuilder(mod, sig.types)
        for fn in ('py', 'pyx', 'smt'):
            F = {'py': family.PyFamily, 'pyx': family.PyXFamily, 'smt': family.SMTFamily}[fn]()
            A = mod.fc(F)
            check_inputs(ctx, A.input_t, [(m, ftype(F, b, s), c) for m, s, c in sig.inputs], fn)
            check_outputs(ctx, A.output_t, [(m, ftype(F, b, s)) for m, s in sig.outputs], sig.named, fn)
            B = type('B', (A,), {'extra': 1})
            ctx.ok(B.input_t is A.input_t and B.output_t is A.output_t, f'{fn} a subclass reports another interface')
            ctx.seen(fn, repr(sig.inputs), repr(sig.outputs), sig.named)
        functions(ctx, rng, sig)
        if ctx.index % 2:
            made(ctx, rng, sig, name + '_made')
        results(ctx, rng, sig, mod, b)
        # declarations that lack something
        if sig.inputs:
            d = rng.choice(sig.inputs)[0]
            bad = load(sig.source(drop=d), os.getcwd(), name + '_bad')
            for fn in ('Py', 'PyX', 'SMT'):
                ctx.raises(lambda: getattr(bad.fc, fn), f'{fn}: input {d} has no type', sig.source(drop=d), exc=ValueError)
        if not sig.named:
            bad = load(sig.source(drop='return'), os.getcwd(), name + '_bad')
            for fn in ('Py', 'PyX', 'SMT'):
                ctx.raises(lambda: getattr(bad.fc, fn), f'{fn}: no return type', exc=ValueError)
        ctx.sample(src)
    finally:
        sys.modules.pop(name, None)
        sys.modules.pop(name + '_bad', None)
        sys.modules.pop(name + '_made', None)


def check_inputs(ctx, T, want, what):
    if not want:
        ctx.ok(T is None, f'{what} input_t of a design without inputs is {T}')
        return
    ctx.ok(issubclass(T, Product), f'{what} input_t {T} is no Product')
    got = list(T.field_dict.items())
    ctx.eq([m for m, _ in got], [m for m, _, _ in want], f'{what} input names')
    for (m, t), (_, w, c) in zip(got, want):
        ctx.eq(is_modified(t), c, f'{what} input {m}: {t} modified')
        ctx.ok((strip_modifiers(t) if c else t) is w, f'{what} input {m} has type {t}, declared {w} (Const: {c})')
        if c:
            ctx.ok(issubclass(t, Const) and t == Const(w), f'{what} input {m} has type {t}, declared Const({w})')
        ctx.ok(getattr(T, m) is t, f'{what} input_t.{m}')
    ctx.event('inputs', len(want))


def check_outputs(ctx, T, want, named, what):
    if not want:
        ctx.ok(T is None, f'{what} output_t of a design without outputs is {T}')
        return
    ctx.ok(issubclass(T, Product if named else Tuple), f'{what} output_t is {T}')
    got = list(T.field_dict.items())
    ctx.eq([m for m, _ in got], [m for m, _ in want] if named else list(range(len(want))), f'{what} output names')
    for (m, t), (_, w) in zip(got, want):
        ctx.ok(t is w, f'{what} output {m} has type {t}, declared {w}')
    ctx.event('outputs', len(want))


def functions(ctx, rng, sig):
    """The same signature on a plain function, through the decorators themselves."""
    F = family.PyFamily()
    b = sig.b
    ann = {m: (Const(ftype(F, b, s)) if c else ftype(F, b, s)) for m, s, c in sig.inputs}
    outs = tuple(ftype(F, b, s) for _, s in sig.outputs)
    ns = {}
    defaults = {m for m, _, _ in sig.inputs[len(sig.inputs) - rng.randint(0, len(sig.inputs)):]}
    exec(f'def f({", ".join(m + "=None" if m in defaults else m for m, _, _ in sig.inputs)}):\n    zz = 1\n    return zz\n', ns)
    f = ns['f']
    f.__annotations__ = dict(ann)
    if sig.named:
        f = name_outputs(**{m: ftype(F, b, s) for m, s in sig.outputs})(f)
    else:
        f.__annotations__['return'] = None if not outs else outs[0] if len(outs) == 1 and rng.random() < 0.5 else outs
    g = gen_input_t(gen_output_t(f))
    check_inputs(ctx, g._input_t, [(m, ftype(F, b, s), c) for m, s, c in sig.inputs], 'function')
    check_outputs(ctx, g._output_t, [(m, ftype(F, b, s)) for m, s in sig.outputs], sig.named, 'function')
    ctx.eq(g.__annotations__.get('return', 0) is not 0, not sig.named, 'annotations kept')


def made(ctx, rng, sig, name):
    """One maker called with several lists of types: every design keeps its own interface."""
    n, k = len(sig.inputs), len(sig.outputs)
    args = ', '.join(['self'] + [f'{m}: T[{i}]' for i, (m, _, _) in enumerate(sig.inputs)])
    L = ['from peak import Peak, family_closure, Const, name_outputs', '', 'def make(types):', '    @family_closure', '    def fc(family):', '        T, O = types(family)',
         '        @family.assemble(locals(), globals())', '        class A(Peak):']
    if sig.named:
        L.append('            @name_outputs(' + ', '.join(f'{m}=O[{i}]' for i, (m, _) in enumerate(sig.outputs)) + ')')
        L.append(f'            def __call__({args}):')
    else:
        L.append(f'            def __call__({args}) -> ' + ('None' if not k else 'O[0]' if k == 1 else 'O') + ':')
    L += ['                return self.result', '        return A', '    return fc', '']
    mod = load('\n'.join(L), os.getcwd(), name)
    g = adtgen.Gen(rng, zero=False, bvmax=8)
    b = adtgen.Builder(rng=rng)
    fcs = []
    for _ in range(rng.randint(2, 3)):
        ins = [(m, sig.rand(g), rng.random() < 0.4) for m, _, _ in sig.inputs]
        outs = [(m, sig.rand(g)) for m, _ in sig.outputs]
        if fcs and rng.random() < 0.6:
            # types named like those of an earlier design, but different ones
            _, i0, o0 = rng.choice(fcs)
            ins = [(m, adtgen.vary(s, rng) if rng.random() < 0.7 else s, c) for m, s, c in i0]
            outs = [(m, adtgen.vary(s, rng) if rng.random() < 0.7 else s) for m, s in o0]

        def types(F, ins=ins, outs=outs):
            return (tuple(Const(ftype(F, b, s)) if c else ftype(F, b, s) for _, s, c in ins), tuple(ftype(F, b, s) for _, s in outs))
        fcs.append((mod.make(types), ins, outs))
    todo = [(x, F) for x in fcs for F in (family.PyFamily(), family.PyXFamily(), family.SMTFamily())]
    rng.shuffle(todo)
    done = []
    for (fc, ins, outs), F in todo:
        done.append((fc(F), F, ins, outs))
        for A, F, ins, outs in {0: done[-1:], 1: done}[rng.randint(0, 1)]:
            check_inputs(ctx, A.input_t, [(m, ftype(F, b, s), c) for m, s, c in ins], f'made {type(F).__name__}')
            check_outputs(ctx, A.output_t, [(m, ftype(F, b, s)) for m, s in outs], sig.named, f'made {type(F).__name__}')
    for A, F, ins, outs in done:
        check_inputs(ctx, A.input_t, [(m, ftype(F, b, s), c) for m, s, c in ins], f'made {type(F).__name__}')
        check_outputs(ctx, A.output_t, [(m, ftype(F, b, s)) for m, s in outs], sig.named, f'made {type(F).__name__}')
    ctx.event('designs_made', len(done))


def results(ctx, rng, sig, mod, b):
    F = family.PyFamily()
    mod.check = True
    A = mod.fc.fc(F)
    obj = A()
    args = [b.inst(s, adtgen.rand_value(s, rng)) for _, s, _ in sig.inputs]
    kw = {m: a for (m, _, _), a in zip(sig.inputs, args)}
    call = (lambda: obj(*args)) if rng.random() < 0.5 else (lambda: obj(**kw))
    for _ in range(4):
        vals = [b.inst(s, adtgen.rand_value(s, rng)) for _, s in sig.outputs]
        obj.result = None if not vals else vals[0] if len(vals) == 1 else tuple(vals)
        ctx.ok(call() is obj.result, 'result checking changed a well-typed result')
        ctx.event('well_typed_calls')
        if vals:
            i = rng.randrange(len(vals))
            bad = list(vals)
            bad[i] = wrong(ftype(F, b, sig.outputs[i][1]), rng)
            obj.result = bad[0] if len(bad) == 1 else tuple(bad)
            ctx.raises(call, f'result {bad!r} of outputs {sig.outputs}', exc=TypeError)
            obj.result = tuple(vals) + (rng.choice(vals),)
            ctx.raises(call, f'an extra result {obj.result!r}', exc=TypeError)
            obj.result = tuple(vals[:-1]) if len(vals) > 1 else None
            ctx.raises(call, f'a missing result {obj.result!r}')
        else:
            obj.result = rng.choice([Bit(0), BitVector[3](1), (Bit(1),)])
            ctx.raises(call, f'result {obj.result!r} of a call without outputs', exc=TypeError)


def wrong(T, rng):
    c = [0, 1, True, None, 'a', Bit(1), BitVector[5](3), BitVector[4](3), SIntVector[4](1), UIntVector[4](1)]
    c = [x for x in c if not isinstance(x, T)]
    if issubclass(T, BitVector):
        c += [BitVector[T.size + 1](0)] * 4
    return rng.choice(c)

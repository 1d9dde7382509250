"""F06: instruction-set entries against the function they were made from, and their table against a dictionary."""
import os, sys
import hwtypes
import peak
from hwtypes import Bit, BitVector, SIntVector, UIntVector, SMTBit, SMTBitVector, SMTSIntVector, SMTUIntVector
from hwtypes.adt import Product, Tuple
import pysmt.shortcuts as smt
from vlib import adtgen
from peak import Const, Peak, family, family_closure
from peak.ir import IR

RULE = ('random instruction sets of several entries (1-5 inputs and 1-4 outputs of bits, vectors of three kinds and composite types, shared and distinct types, Const inputs, explicit '
        'and shared class names, entries with the interface of an earlier one, field names like the generated ones) whose functions record the family and arguments they get; every entry called by position and by name in the Python, rewriting and symbolic '
        'families (constant and free), against the function on plain ints; repeated names and plain entries; the small example instruction set at random widths; '
        'distinct = (interface, family, results)')
N = {'quick': 2500, 'thorough': 20000}
BUDGET = {'quick': 150, 'thorough': 1200}
ASSUMPTIONS = ['interfaces give the types of the Python family, which the entries report in every family', 'inputs are not called self or family']

VECT = {'py': {'bit': Bit, 'bv': BitVector, 's': SIntVector, 'u': UIntVector}, 'smt': {'bit': SMTBit, 'bv': SMTBitVector, 's': SMTSIntVector, 'u': SMTUIntVector}}
NAMES = ['a', 'b', 'in0', 'in1', 't0', 't1', 't2', '_t0', '_t1', 'Out', 'x', 'y', 'out', 'data', 'peak_fc', 'sel', 'c']
SCAL = ('bit', 'bv', 's', 'u')


def T(fam, s):
    t = VECT[fam][s[0]]
    return t if s[0] == 'bit' else t[s[1]]


class Entry:
    def __init__(self, rng, g, shared, like=None):
        self.rng = rng
        r = rng
        if like is not None:
            # the same interface (or one of other widths), another function
            w = r.choice([0, 0, 1])
            ty = lambda s: s if s[0] not in ('bv', 's', 'u') else (s[0], s[1] + w)
            self.inputs = [(n, ty(s), c) for n, s, c in like.inputs]
            self.outs = []
            for n, s, f in like.outs:
                s = ty(s)
                same = [i for i, (_, t, _) in enumerate(self.inputs) if t == s]
                if s[0] not in SCAL:
                    f = ('in', r.choice(same))
                else:
                    ops = [('k', r.getrandbits(12) % (2 if s[0] == 'bit' else 1 << s[1]))]
                    ops += [('~', i) for i in same] + [(o, i, j) for i in same for j in same if i != j for o in '^&|']
                    f = r.choice(ops)
                self.outs.append((n, s, f))
            self.calls = []
            return

        def ty():
            if shared and r.random() < 0.5:
                return r.choice(shared)
            named = [x for x in shared if x[0] in ('enum', 'prod', 'tu')]
            if named and r.random() < 0.4:
                # another type of the same name
                t = r.choice(named)
                u = g.enum() if t[0] == 'enum' else ['prod', '', [[m, g.spec(1)] for m in r.sample('abcd', r.randint(1, 3))]]
                u = [u[0], t[1], u[2]]
                if u not in shared:
                    shared.append(u)
                    return u
            t = ('bit',) if r.random() < 0.25 else (r.choice(['bv', 'bv', 's', 'u']), r.randint(1, 12)) if r.random() < 0.8 else g.spec(r.randint(1, 2), top=True)
            shared.append(t)
            return t
        ns = r.sample(NAMES, r.choice([1, 1, 2, 2, 3, 5]))
        self.inputs = [(n, ty(), r.random() < 0.2) for n in ns]
        vec = [i for i, (_, s, _) in enumerate(self.inputs) if s[0] in SCAL]
        self.outs = []
        for n in r.sample(NAMES, r.choice([1, 1, 2, 3, 4])):
            if self.inputs and r.random() < 0.35:
                i = r.randrange(len(self.inputs))
                self.outs.append((n, self.inputs[i][1], ('in', i)))
                continue
            s = ('bit',) if r.random() < 0.2 else (r.choice(['bv', 's', 'u']), r.randint(1, 12))
            same = [i for i in vec if self.inputs[i][1] == s]
            if len(same) >= 2:
                self.outs.append((n, s, (r.choice(['^', '&', '|'] + (['+', '-'] if s[0] != 'bit' else [])), *r.sample(same, 2))))
            elif same:
                self.outs.append((n, s, ('~', same[0])))
            else:
                self.outs.append((n, s, ('k', r.getrandbits(12) % (2 if s[0] == 'bit' else 1 << s[1]))))
        self.calls = []

    def fun(self, fam, *args):
        self.calls.append((fam, args))
        V = VECT['smt' if isinstance(fam, family.SMTFamily) else 'py']
        res = []
        for _, s, f in self.outs:
            if f[0] == 'in':
                res.append(args[f[1]])
            elif f[0] == 'k':
                res.append((V[s[0]] if s[0] == 'bit' else V[s[0]][s[1]])(f[1]))
            elif f[0] == '~':
                res.append(~args[f[1]])
            else:
                x, y = args[f[1]], args[f[2]]
                res.append({'^': lambda: x ^ y, '&': lambda: x & y, '|': lambda: x | y, '+': lambda: x + y, '-': lambda: x - y}[f[0]]())
        return res[0] if len(res) == 1 else tuple(res)

    def reference(self, vals):
        res = []
        for _, s, f in self.outs:
            m = 2 if s[0] == 'bit' else 1 << s[1] if s[0] in SCAL else None
            if f[0] == 'in':
                res.append(vals[f[1]])
            elif f[0] == 'k':
                res.append(f[1])
            elif f[0] == '~':
                res.append(m - 1 - vals[f[1]])
            else:
                x, y = vals[f[1]], vals[f[2]]
                res.append({'^': x ^ y, '&': x & y, '|': x | y, '+': x + y, '-': x - y}[f[0]] % m)
        return res


def case(ctx, rng):
    g = adtgen.Gen(rng, zero=False, bvmax=8)
    b = adtgen.Builder(rng=rng)
    hw = lambda s: T('py', s) if s[0] in SCAL else b(s)
    ir = IR()
    ctx.eq(ir.instructions, {}, 'a new instruction set is empty')
    other = IR()
    shared, entries, table = [], {}, {}
    names = [f'Op{i}' for i in range(6)] + ['add', 'a', 'in0', 'Inst', 'T0']
    for step in range(rng.randint(2, 7)):
        name = rng.choice(names)
        before = dict(ir.instructions)
        if rng.random() < 0.15:
            obj = rng.choice([family_closure(lambda fam: None), object()])
            add = lambda: ir.add_instruction(name, obj)
            e = None
        else:
            like = rng.choice(list(entries.values())) if entries and rng.random() < 0.25 else None
            e = Entry(rng, g, shared, like and like[0])
            I = Product.from_fields('I', {n: Const(hw(s)) if c else hw(s) for n, s, c in e.inputs})
            O = Product.from_fields('O', {n: hw(s) for n, s, _ in e.outs})
            cls = rng.choice([None, None, 'MyOp', 'C_' + name]) if like is None or rng.random() < 0.3 else like[1]
            style = rng.randrange(3)
            add = lambda: (ir.add_peak_instruction(name, I, O, e.fun, cls) if style == 0 else
                           ir.add_peak_instruction(name, I, O, e.fun, cls_name=cls) if style == 1 else
                           ir.add_peak_instruction(name=name, input_interface=I, output_interface=O, fun=e.fun, cls_name=cls))
            ctx.note((name, e.inputs, e.outs, cls))
        if name in before:
            ctx.raises(add, f'{name} added twice', exc=ValueError)
            ctx.ok(list(ir.instructions.items()) == list(before.items()), f'a rejected {name} changed the table')
            ctx.event('rejected_entries')
            continue
        add()
        ctx.eq(list(ir.instructions), list(before) + [name], 'names in the table')
        ctx.ok(all(ir.instructions[k] is v for k, v in before.items()), f'adding {name} changed other entries')
        if e is None:
            ctx.ok(ir.instructions[name] is obj, 'the entry given')
        else:
            entries[name] = (e, cls or name)
        ctx.ok(not other.instructions, 'another instruction set changed')
        ctx.event('entries')
    for name, (e, cname) in sorted(entries.items(), key=lambda _: rng.random()):
        check(ctx, rng, name, e, cname, ir.instructions[name], hw, b)
    if ctx.index % 5 == 0:
        small(ctx, rng)


def check(ctx, rng, name, e, cname, fc, hw, b):
    ctx.ok(isinstance(fc, family_closure), 'the entry is a family closure')
    fams = ['py', 'pyx', 'smt']
    rng.shuffle(fams)
    for f in fams:
        F = {'py': family.PyFamily, 'pyx': family.PyXFamily, 'smt': family.SMTFamily}[f]()
        C = fc(F)
        what = f'{name} in {f}'
        ctx.ok(issubclass(C, Peak), f'{what} is no peak class')
        ctx.eq(C.__name__, cname, f'{what} class name')
        ctx.ok(fc(F) is C, f'{what} is specialised again')
        if e.inputs:
            got = list(C.input_t.field_dict.items())
            ctx.eq([n for n, _ in got], [n for n, _, _ in e.inputs], f'{what} input names')
            for (n, t), (_, s, c) in zip(got, e.inputs):
                w = Const(hw(s)) if c else hw(s)
                ctx.ok(t is w, f'{what} input {n} is {t}, declared {w}')
        else:
            ctx.ok(C.input_t is None, f'{what} inputs {C.input_t}')
        got = list(C.output_t.field_dict.items())
        ctx.ok(issubclass(C.output_t, Product), f'{what} output_t')
        ctx.eq([n for n, _ in got], [n for n, _, _ in e.outs], f'{what} output names')
        for (n, t), (_, s, _) in zip(got, e.outs):
            ctx.ok(t is hw(s), f'{what} output {n} is {t}, declared {hw(s)}')
        o = C()
        for _ in range(3):
            vals, args, subs = [], [], {}
            for n, s, c in e.inputs:
                if s[0] in SCAL:
                    v = rng.getrandbits(1 if s[0] == 'bit' else s[1])
                    t = T('smt' if f == 'smt' else 'py', s)
                    if f == 'smt' and rng.random() < 0.6:
                        a = t()
                        subs[a.value] = smt.Bool(bool(v)) if s[0] == 'bit' else smt.BV(v, s[1])
                    else:
                        a = t(v)
                else:
                    v = a = b.inst(s, adtgen.rand_value(s, rng))
                vals.append(v)
                args.append(a)
            e.calls.clear()
            out = o(**{n: a for (n, _, _), a in zip(e.inputs, args)}) if rng.random() < 0.4 else o(*args)
            ctx.eq(len(e.calls), 1, f'{what} calls of the function')
            ctx.ok(e.calls[0][0] == F and len(e.calls[0][1]) == len(args) and all(x is y for x, y in zip(e.calls[0][1], args)),
                   f'{what} called its function with {e.calls[0]}, given {args}')
            outs = out if len(e.outs) > 1 else (out,)
            ctx.ok(isinstance(outs, tuple) and len(outs) == len(e.outs), f'{what} gives {out!r}')
            for g, w, (n, s, _) in zip(outs, e.reference(vals), e.outs):
                ctx.ok(value(g, s, f, subs) == w, f'{what} output {n} for {vals} is {g!r}, expected {w}')
            ctx.event(f'calls_{f}')
        ctx.seen(f, repr(e.inputs), repr(e.outs))


def value(g, s, f, subs):
    if s[0] not in SCAL:
        return g
    if f == 'smt':
        c = smt.simplify(smt.substitute(g.value, subs))
        return int(c.constant_value()) if c.is_constant() else None
    return int(g) if s[0] == 'bit' else g.as_uint()


def small(ctx, rng):
    root = os.path.dirname(os.path.dirname(os.path.abspath(peak.__file__)))
    if root not in sys.path:
        sys.path.append(root)
    from examples.smallir import gen_SmallIR
    w = rng.randint(1, 20)
    ir = gen_SmallIR(w)
    M = (1 << w) - 1
    ref = dict(Add=lambda x, y: x + y, Sub=lambda x, y: x - y, And=lambda x, y: x & y, Nand=lambda x, y: ~(x & y), Or=lambda x, y: x | y, Nor=lambda x, y: ~(x | y),
               Mul=lambda x, y: x * y, Shftr=lambda x, y: x >> y, Shftl=lambda x, y: x << y if y <= w else 0, Not=lambda x: ~x, Neg=lambda x: -x)
    ctx.eq(set(ir.instructions), set(ref), 'names of the small instruction set')
    for n, fc in ir.instructions.items():
        k = 1 if n in ('Not', 'Neg') else 2
        for F, V in ((family.PyFamily(), BitVector), (family.SMTFamily(), SMTBitVector)):
            for _ in range(2):
                xs = [rng.choice([rng.getrandbits(w), rng.randrange(3) & M, M]) for _ in range(k)]
                r = fc(F)()(*[V[w](x) for x in xs])
                got = r.as_uint() if V is BitVector else int(smt.simplify(r.value).constant_value())
                ctx.eq(got, ref[n](*xs) & M, f'{n}{xs} at width {w}')
                ctx.event('smallir_calls')

"""F01: the Python, rewriting-Python and symbolic families agree with a plain reference interpreter."""
import importlib.util, os, sys
import hwtypes
from hwtypes import Bit, BitVector, SIntVector, UIntVector, SMTBit, SMTBitVector, SMTSIntVector, SMTUIntVector
import pysmt.shortcuts as smt
from vlib import adtgen, cores, proggen
from peak import family
from peak.assembler.assembler import Assembler
from peak.assembler.assembled_adt import AssembledADT

RULE = ('random designs (nested and early-returning conditionals, elif chains, conditions with and/or/not, switches over enums and sum alternatives, '
        'makers called with other constants, registers with and without enable, prev, attribute registers written under conditions, nested sub-modules, all vector operators) run for several '
        'cycles in PyFamily, PyXFamily and SMTFamily (constant and free symbolic inputs) against an interpreter on plain ints; programs and instructions of the repository\'s example cores (RISC-V, its extensions, PEs) against interpreters of theirs; '
        'distinct = (feature set, family, outputs of the run)')
N = {'quick': 320, 'thorough': 12000}
BUDGET = {'quick': 200, 'thorough': 1300}
LIMIT = {'quick': 60, 'thorough': 60}
ASSUMPTIONS = ['registers and sub-modules are called unconditionally and before any return, as the rewriting families require']

FAMS = {
    'py': (Bit, BitVector, SIntVector, UIntVector),
    'pyx': (Bit, BitVector, SIntVector, UIntVector),
    'smt': (SMTBit, SMTBitVector, SMTSIntVector, SMTUIntVector),
}


def load(src, scratch, name):
    path = os.path.join(scratch, name + '.py')
    with open(path, 'w') as f:
        f.write(src)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def fam(n):
    return {'py': family.PyFamily, 'pyx': family.PyXFamily, 'smt': family.SMTFamily}[n]()


def ty(f, t):
    bit, bv, s, u = FAMS[f]
    return bit if t == proggen.BIT else {'bv': bv, 's': s, 'u': u}[t[0]][t[1]]


class Runner:
    """One design object in one family."""
    def __init__(self, prog, fc, f, inst_t, free):
        self.p, self.f, self.inst_t, self.free = prog, f, inst_t, free
        self.subs = {}
        self.cls = fc(fam(f))
        self.obj = self.cls()

    def arg(self, t, v):
        T = ty(self.f, t)
        if self.f == 'smt' and self.free:
            x = T()
            self.subs[x.value] = smt.Bool(bool(v)) if t == proggen.BIT else smt.BV(v, t[1])
            return x
        return T(v)

    def inst(self, b, v):
        i = b.inst(self.p.inst, v)
        if self.f == 'py':
            return i
        bv = FAMS[self.f][1]
        T = AssembledADT[self.inst_t, Assembler, bv]
        if self.f == 'smt' and self.free:
            asm = Assembler(self.inst_t)
            x = SMTBitVector[asm.width]()
            self.subs[x.value] = smt.BV(asm.assemble(i).as_uint(), asm.width)
            return T(x)
        return T(i)

    def call(self, inputs, b, kw):
        args = {}
        for n in self.p.arg_names():
            t = dict(self.p.inputs).get(n)
            args[n] = self.inst(b, inputs[n]) if t is None else self.arg(t, inputs[n])
        out = self.obj(**args) if kw else self.obj(*args.values())
        return out if isinstance(out, tuple) else (out,)

    def value(self, o):
        if self.f != 'smt':
            return int(o) if isinstance(o, (bool, Bit)) else o.as_uint()
        v = o.value
        if self.free:
            v = smt.substitute(v, self.subs)
        v = smt.simplify(v)
        assert v.is_constant(), f'output is not determined by the inputs: {v}'
        return int(v.constant_value())


def insts_of(mod, prog, types):
    """Builder giving the module's own instruction types."""
    return adtgen.NamedBuilder(mod, types)


def case(ctx, rng):
    if rng.random() < 0.08:
        return cores.case(ctx, rng)
    # a share of the designs come from a maker, called several times with other constants
    params = proggen.Params() if rng.random() < 0.2 else None
    prog = proggen.Prog(rng, proggen.Opts(size=2 if rng.random() < 0.08 else 1, params=params))
    src = prog.source()
    name = f'd_{ctx.pid}_{ctx.index}'
    ctx.note(src)
    mod = load(src, os.getcwd(), name)
    try:
        b = adtgen.NamedBuilder(mod, prog.type_env)
        inst_t = b(prog.inst) if prog.inst else None
        free = rng.random() < 0.5
        kw = rng.random() < 0.3
        cycles = rng.randint(3, 6) if prog.regs or prog.subs else rng.randint(4, 8)
        seq = [prog.rand_inputs(rng) for _ in range(cycles)]
        variants = [None]
        if params is not None:
            variants = [params.cur] + [params.rand(rng) for _ in range(rng.randint(1, 2))]
        made = []
        for K in variants:
            if K is not None:
                params.cur = K
            made.append((K, mod.fc if K is None else mod.make(K), run(prog, seq)))
        order = [(f, v) for f in FAMS for v in made]
        rng.shuffle(order)
        all_runs = [(f, K, want, [Runner(prog, fc, f, inst_t, free) for _ in range(rng.choice([1, 1, 2]))]) for f, (K, fc, want) in order]
        for f, K, want, runs in all_runs:
            for c, ins in enumerate(seq if f != 'smt' or not free else seq[:4]):
                for R in runs:
                    outs = R.call(ins, b, kw)
                    ctx.eq(len(outs), len(prog.outputs), f'{f} number of results')
                    got = [R.value(o) for o in outs]
                    ctx.eq(got, want[c], f'{f}{" free" if free else ""} cycle {c} of {seq[:c + 1]}, constants {K}')
                    for o, t in zip(outs, prog.outputs):
                        ctx.ok(isinstance(o, ty(f, t)) or (t == proggen.BIT and isinstance(o, bool)), f'{f} result {o!r} is not a {t}')
                    ctx.event(f'calls_{f}')
                    ctx.event('calls_made' if K is not None else 'calls_plain')
            ctx.seen(f, tuple(sorted(prog.features)), tuple(map(tuple, want)))
        for x in prog.features:
            ctx.event('feature_' + x)
        ctx.event('designs')
        ctx.sample(src)
    finally:
        sys.modules.pop(name, None)


def run(prog, seq):
    st = prog.init_state()
    return [prog.step(st, i) for i in seq]

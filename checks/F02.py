"""F02: circuits generated by the Magma family simulate like the Python specialisation."""
import os, shutil, sys
import magma
from vlib import adtgen, proggen, rtl
from checks import F01
from peak import family
from peak.assembler.assembler import Assembler

RULE = ('random designs (instructions of enums, sums, products and tagged unions, registers with and without enable, prev, attribute registers, nested sub-modules, '
        'nested and early-returning conditionals) compiled through MagmaFamily, coreir and verilator and driven for several cycles with random inputs and resets; '
        'every output of every cycle against the Python specialisation and against an interpreter on plain ints, port names, directions and widths against the declaration; '
        'distinct = (feature set, outputs of the run)')
N = {'quick': 40, 'thorough': 700}
BUDGET = {'quick': 240, 'thorough': 1300}
LIMIT = {'quick': 200, 'thorough': 200}
BATCH = 7
ASSUMPTIONS = ['magma, coreir and verilator are trusted', 'registers hold bits or vectors, and attribute registers vectors, as the installed magma requires',
               'instruction opcodes of up to 64 bits']


def case(ctx, rng):
    wd = os.path.join(os.getcwd(), f'b{ctx.index}')
    os.makedirs(wd)
    batch = rtl.Batch(wd)
    items = []
    try:
        for j in range(BATCH):
            name = f'H{ctx.index}_{j}'
            params = proggen.Params() if rng.random() < 0.2 else None
            prog = proggen.Prog(rng, proggen.Opts(hw=True, div=False, params=params), name=name)
            src = prog.source()
            mod = F01.load(src, wd, 'mod_' + name)
            b = adtgen.NamedBuilder(mod, prog.type_env)
            inst_t = b(prog.inst) if prog.inst else None
            asm = Assembler(inst_t) if inst_t else None
            if asm and asm.width > 64:
                continue
            if j == 0:
                ctx.note(src)
            fc = mod.fc if params is None else mod.make(params.cur)
            if params is not None:
                # the same maker was called with other constants before
                src += f'\n# constants {params.cur}'
                mod.make(params.rand(rng))(family.MagmaFamily())
                ctx.event('made_circuits')
            err = rtl.to_verilog(lambda: fc(family.MagmaFamily()), os.path.join(wd, name))
            ctx.ok(err is None, f'no circuit for\n{src}\n{err}')
            ps = batch.add(name, open(os.path.join(wd, name + '.v')).read())
            want = {n: ('input', proggen.width(t)) for n, t in prog.inputs}
            if asm:
                want['inst'] = ('input', asm.width)
            outs = ['O'] if len(prog.outputs) == 1 else [f'O{i}' for i in range(len(prog.outputs))]
            want.update({o: ('output', proggen.width(t)) for o, t in zip(outs, prog.outputs)})
            got = {n: p for n, p in ps.items() if n not in ('CLK', 'ASYNCRESET')}
            ctx.eq(got, want, f'ports of\n{src}')
            items.append((name, prog, src, fc, b, inst_t, asm, outs))
        batch.build()
        stims, wants, seqs = [], [], []
        for name, prog, src, fc, b, inst_t, asm, outs in items:
            st, R = prog.init_state(), F01.Runner(prog, fc, 'py', inst_t, False)
            stim, want, seq = [], [], []
            for c in range(rng.randint(6, 14)):
                ins = prog.rand_inputs(rng)
                if c and rng.random() < 0.3:
                    ins = dict(ins, **{k: v for k, v in seq[-1][1].items() if rng.random() < 0.5})
                rst = c > 0 and rng.random() < 0.08
                if rst:
                    st, R = prog.init_state(), F01.Runner(prog, fc, 'py', inst_t, False)
                    ctx.event('resets')
                seq.append((rst, ins))
                py = [R.value(o) for o in R.call(ins, b, False)]
                ref = prog.step(st, ins)
                ctx.eq(py, ref, f'Python family in cycle {c} of {seq} of\n{src}')
                want.append(py)
                hw = {n: ins[n] for n, _ in prog.inputs}
                if asm:
                    hw['inst'] = asm.assemble(b.inst(prog.inst, ins['inst'])).as_uint()
                stim.append((rst, hw))
            stims.append(stim)
            wants.append(want)
            seqs.append(seq)
        for (name, prog, src, *_, outs), want, got, seq in zip(items, wants, batch.run(stims), seqs):
            for c, (w, g) in enumerate(zip(want, got)):
                ctx.eq([g[o] for o in outs], w, f'circuit outputs in cycle {c} of {seq[:c + 1]} of\n{src}')
                ctx.event('cycles')
            ctx.event('circuits')
            for f in prog.features:
                ctx.event('feature_' + f)
            ctx.seen(tuple(sorted(prog.features)), tuple(map(tuple, want)))
            ctx.sample(src)
    finally:
        for it in items:
            sys.modules.pop('mod_' + it[0], None)
        shutil.rmtree(wd, ignore_errors=True)

"""L04: circuits wrapped with a disassembler, fed with opcodes of the legacy assembler, in simulation."""
import os, shutil, warnings
import magma as m
from vlib import adtgen, rtl
from checks import L02
warnings.simplefilter('ignore')
from peak import auto_assembler, wrap_with_disassembler

RULE = ('random circuits whose instruction input is a product of bits, vectors, enums, sums and nested products (other inputs, outputs that mix them, registers, '
        'further ports in random order, several wrappers in one process, also of circuits and wrappers that share names) wrapped with the legacy assembler of the product, compiled through coreir and verilator and fed with opcodes of '
        'random instructions for several cycles; every output against the fields of the instruction, ports against those of the circuit; distinct = (type shape, outputs)')
N = {'quick': 40, 'thorough': 800}
BUDGET = {'quick': 200, 'thorough': 1200}
LIMIT = {'quick': 200, 'thorough': 200}
BATCH = 7
ASSUMPTIONS = ['magma, coreir and verilator are trusted', 'fields of the circuit hold the code of the field: products are magma products, all else bits', 'instructions of at most 64 bits']


class Layout(dict):
    """The wrapper is cached by its arguments, so a layout must be hashable."""
    def __hash__(self):
        return hash(tuple(sorted(map(str, self))))


def leaves(s, path=()):
    if s[0] == 'prod':
        return [x for f, t in s[2] for x in leaves(t, path + (f,))]
    return [(path, s)]


def field(s, v, path):
    for f in path:
        i = [g for g, _ in s[2]].index(f)
        s, v = s[2][i][1], v[i]
    return s, v


class Item:
    def __init__(self, rng, name):
        self.rng, self.name = rng, name
        while True:
            g = adtgen.Gen(rng, zero=False, big=0.05)
            k = rng.randint(1, 5)
            names = rng.sample(['op', 'a', 'data', 'inst', 'x', 'imm', 'mode', 'flag'], k)
            self.s = L02.Norm()(['prod', 'I' + name, [[f, g.spec(rng.choice([0, 0, 1, 2, 3]))] for f in names]])
            self.b = adtgen.Builder(rng=rng)
            self.T = self.b(self.s)
            self.asm, self.dis, self.w, self.layout = auto_assembler.generate_assembler(self.T)
            if self.w <= 64:
                break
        self.leaves = [(p, t, auto_assembler.get_width(self.b(t))) for p, t in leaves(self.s)]
        self.inst = rng.choice(['inst', 'i', 'cfg', 'O9'])
        self.ins, self.outs = {}, {}
        for k in range(rng.randint(0, 3)):
            self.ins[f'in{k}'] = rng.choice([0, 1, 3, 8])        # 0: a Bit
        # an output is a leaf, xored with an input of its width, registered or not
        for k, (p, t, w) in enumerate(self.leaves):
            same = [n for n, x in self.ins.items() if x == (0 if t[0] == 'bit' else w)]
            self.outs[f'out{k}'] = (k, rng.choice(same) if same and rng.random() < 0.7 else None, rng.random() < 0.2)
        for n, x in self.ins.items():
            self.outs['pass_' + n] = (None, n, False)
        self.clocked = any(r for _, _, r in self.outs.values()) or rng.random() < 0.2
        self.order = [self.inst] + list(self.ins) + list(self.outs)
        rng.shuffle(self.order)

    def mtype(self, s, name='M'):
        if s[0] == 'prod':
            return m.Product.from_fields(name, {f: self.mtype(t, name + f) for f, t in s[2]})
        if s[0] == 'bit':
            return m.Bit
        return m.Bits[auto_assembler.get_width(self.b(s))]

    def bits(self, n):
        return m.Bits[n] if n else m.Bit

    def circuit(self):
        M = self.mtype(self.s)
        ports = {}
        for n in self.order:
            if n == self.inst:
                ports[n] = m.In(M)
            elif n in self.ins:
                ports[n] = m.In(self.bits(self.ins[n]))
            else:
                k, i, _ = self.outs[n]
                ports[n] = m.Out(self.bits(self.ins[i]) if k is None else self.mtype(self.leaves[k][1]))
        me = self
        lay = Layout(self.layout)
        if self.rng.random() < 0.4:
            # another circuit of the same name wrapped before, with other outputs
            flip = {n: p for n, p in ports.items() if n in self.ins or n == self.inst}
            flip.update({'other': m.Out(m.Bits[3])})

            class Decoy(m.Circuit):
                name = 'PE_' + me.name
                io = m.IO(**flip)
                m.wire(m.Bits[3](5), io.other)
            top = wrap_with_disassembler(Decoy, self.dis, self.w, lay, M, self.name)
            assert 'other' in top.interface.ports, 'the wrapper of another circuit of the same name'

        class PE(m.Circuit):
            name = 'PE_' + me.name
            io = m.IO(**ports)
            if me.clocked:
                io += m.ClockIO(has_async_reset=True)
            for n, (k, i, reg) in me.outs.items():
                if k is None:
                    x = getattr(io, i)
                else:
                    x = getattr(io, me.inst)
                    for f in me.leaves[k][0]:
                        x = getattr(x, f)
                    if i is not None:
                        x = x ^ getattr(io, i)
                if reg:
                    x = m.Register(me.mtype(me.leaves[k][1]), reset_type=m.AsyncReset)()(x)
                m.wire(x, getattr(io, n))
        # other wrappers of the same circuit
        if self.rng.random() < 0.5:
            other = wrap_with_disassembler(PE, self.dis, self.w, lay, M, 'Other')
        top = wrap_with_disassembler(PE, self.dis, self.w, lay, M, self.name)
        again = wrap_with_disassembler(PE, self.dis, self.w, lay, M, self.name)
        assert again is top, 'asked twice, two wrappers'
        return top

    def ports(self):
        res = {self.inst: ('input', self.w)}
        res.update({n: ('input', w or 1) for n, w in self.ins.items()})
        res.update({n: ('output', (self.ins[i] or 1) if k is None else self.leaves[k][2]) for n, (k, i, _) in self.outs.items()})
        return res

    def code(self, t, v):
        return L02.num(auto_assembler.generate_assembler(self.b(t))[0](self.b.inst(t, v)))


def case(ctx, rng):
    wd = os.path.join(os.getcwd(), f'b{ctx.index}')
    os.makedirs(wd)
    batch = rtl.Batch(wd)
    try:
        items, stims, wants, seqs = [], [], [], []
        for j in range(BATCH):
            it = Item(rng, f'W{ctx.index}_{j}')
            err = rtl.to_verilog(it.circuit, os.path.join(wd, it.name))
            ctx.ok(err is None, f'no circuit for {it.s}, ports {it.order}\n{err}')
            got = {n: p for n, p in batch.add(it.name, open(os.path.join(wd, it.name + '.v')).read()).items() if n not in ('CLK', 'ASYNCRESET')}
            ctx.eq(got, it.ports(), f'ports of the wrapper for {it.s}')
            stim, want, seq, held = [], [], [], {n: 0 for n in it.outs}
            for c in range(rng.randint(4, 10)):
                v = adtgen.rand_value(it.s, rng)
                ins = {n: rng.getrandbits(w or 1) for n, w in it.ins.items()}
                rst = c > 0 and it.clocked and rng.random() < 0.1
                if rst:
                    held = {n: 0 for n in it.outs}
                now = {n: (ins[i] if k is None else it.code(*field(it.s, v, it.leaves[k][0])) ^ (ins[i] if i else 0)) for n, (k, i, _) in it.outs.items()}
                want.append({n: held[n] if it.outs[n][2] else x for n, x in now.items()})
                held = now
                stim.append((rst, dict(ins, **{it.inst: L02.num(it.asm(it.b.inst(it.s, v)))})))
                seq.append((rst, v, ins))
            items.append(it)
            stims.append(stim)
            wants.append(want)
            seqs.append(seq)
        batch.build()
        for it, want, got, seq in zip(items, wants, batch.run(stims), seqs):
            for c, (w, g) in enumerate(zip(want, got)):
                ctx.eq(g, {n: w[n] for n in g}, f'outputs in cycle {c} of {seq[:c + 1]} for {it.s} with {it.outs}')
                ctx.eq(set(g), set(w), 'names of outputs')
                ctx.event('cycles')
            ctx.event('wrappers')
            ctx.event('nested', any(len(p) > 1 for p, _, _ in it.leaves))
            ctx.event('registers', sum(r for _, _, r in it.outs.values()))
            ctx.seen(adtgen.shape(it.s), str(want))
        ctx.sample(f'{it.s} {it.outs} {seq[0]}')
    finally:
        shutil.rmtree(wd, ignore_errors=True)

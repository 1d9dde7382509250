"""The example cores of /repo as workloads: instructions, programs and reference interpreters on plain ints."""
import os, sys
import peak
import pysmt.shortcuts as smt
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector
from peak import family
from peak.assembler.assembler import Assembler
from peak.assembler.assembled_adt import AssembledADT

# the examples lie beside the package
sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(peak.__file__))))

M32 = (1 << 32) - 1


def sx(v, n=32):
    return v - (1 << n) if v >> (n - 1) & 1 else v


def word(rng, n=32):
    r = rng.random()
    if r < 0.25:
        return rng.choice([0, 1, 2, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << n) - 2, n, n - 1, n + 1]) & ((1 << n) - 1)
    if r < 0.45:
        return rng.randrange(64) & ((1 << n) - 1)
    return rng.getrandbits(n)


ARITH = ['ADD', 'SUB', 'SLT', 'SLTU', 'AND', 'OR', 'XOR']
SHIFT = ['SLL', 'SRL', 'SRA']
MULDIV = ['MUL', 'MULH', 'MULHU', 'MULHSU', 'DIV', 'DIVU', 'REM', 'REMU']
BRANCH = ['BEQ', 'BNE', 'BLT', 'BLTU', 'BGE', 'BGEU']
BITS = ['POPCNT', 'CNTLZ', 'CNTTZ']


def alu(op, a, b):
    sa, sb = sx(a), sx(b)
    if op in SHIFT:
        # the cores shift by the whole register
        if op == 'SLL':
            return (a << b) & M32 if b < 32 else 0
        return (a >> b if b < 32 else 0) if op == 'SRL' else (sa >> min(b, 31)) & M32
    # division by zero and signed division of negative numbers are left out (None): hwtypes rounds them down, the solver towards zero
    if op in ('DIV', 'REM', 'DIVU', 'REMU') and (b == 0 or (op in ('DIV', 'REM') and (sa < 0 or sb < 0))):
        return None
    return {
        'ADD': lambda: a + b, 'SUB': lambda: a - b, 'SLT': lambda: int(sa < sb), 'SLTU': lambda: int(a < b), 'AND': lambda: a & b, 'OR': lambda: a | b, 'XOR': lambda: a ^ b,
        'MUL': lambda: a * b, 'MULH': lambda: (sa * sb) >> 32, 'MULHU': lambda: (a * b) >> 32, 'MULHSU': lambda: (sa * b) >> 32,
        'DIV': lambda: a // b, 'DIVU': lambda: a // b, 'REM': lambda: a % b, 'REMU': lambda: a % b,
    }[op]() & M32


class RiscV:
    """riscv, riscv_ext or riscv_m."""
    def __init__(self, name):
        import importlib
        self.name = name
        self.sim = importlib.import_module(f'examples.{name}.sim')
        self.isa_mod = importlib.import_module(f'examples.{name}.isa')
        self.asm = importlib.import_module(f'examples.{name}.asm')
        self.isa = self.isa_mod.ISA_fc.Py

    def rand(self, rng, regs=None):
        """A random instruction as a description."""
        r = lambda: rng.randrange(32) if regs is None else rng.choice(regs)
        kinds = ['op', 'op', 'op', 'imm', 'imm', 'shimm', 'lui', 'auipc', 'jal', 'jalr', 'branch', 'branch', 'load', 'store']
        if self.name == 'riscv_ext':
            kinds += ['ext'] * 3
        k = rng.choice(kinds)
        d = {'k': k, 'rd': r(), 'rs1': r(), 'rs2': r()}
        if k == 'op':
            d['tag'] = rng.choice(ARITH + SHIFT + (MULDIV * 2 if self.name == 'riscv_m' else []))
        elif k == 'imm':
            d['tag'], d['imm'] = rng.choice([x for x in ARITH if x != 'SUB']), word(rng, 12)
        elif k == 'shimm':
            d['tag'], d['imm'] = rng.choice(SHIFT), word(rng, 5)
        elif k in ('lui', 'auipc', 'jal'):
            d['imm'] = word(rng, 20)
        elif k == 'branch':
            d['tag'], d['imm'] = rng.choice(BRANCH), word(rng, 12)
        elif k == 'ext':
            d['tag'] = rng.choice(BITS)
        else:
            d['imm'] = word(rng, 12)
        return d

    def build(self, d):
        i = self.isa
        I, k = i.Idx, d['k']
        rd, rs1, rs2 = I(d['rd']), I(d['rs1']), I(d['rs2'])
        if k == 'op':
            n = 'arith' if d['tag'] in ARITH else 'shift' if d['tag'] in SHIFT else 'muldiv'
            T = {'arith': i.ArithInst, 'shift': i.ShiftInst}.get(n) or i.MulDivInst
            x = i.OP(data=i.R(rd=rd, rs1=rs1, rs2=rs2), tag=i.AluInst(**{n: getattr(T, d['tag'])}))
        elif k == 'imm':
            x = i.OP_IMM(arith=i.OP_IMM_A(data=i.I(rd=rd, rs1=rs1, imm=BitVector[12](d['imm'])), tag=getattr(i.ArithInst, d['tag'])))
        elif k == 'shimm':
            x = i.OP_IMM(shift=i.OP_IMM_S(data=i.Is(rd=rd, rs1=rs1, imm=BitVector[5](d['imm'])), tag=getattr(i.ShiftInst, d['tag'])))
        elif k in ('lui', 'auipc'):
            x = {'lui': i.LUI, 'auipc': i.AUIPC}[k](data=i.U(rd=rd, imm=BitVector[20](d['imm'])))
        elif k == 'jal':
            x = i.JAL(data=i.J(rd=rd, imm=BitVector[20](d['imm'])))
        elif k == 'jalr':
            x = i.JALR(data=i.I(rd=rd, rs1=rs1, imm=BitVector[12](d['imm'])))
        elif k == 'branch':
            x = i.Branch(data=i.B(rs1=rs1, rs2=rs2, imm=BitVector[12](d['imm'])), tag=getattr(i.BranchInst, d['tag']))
        elif k == 'load':
            x = i.Load(data=i.I(rd=rd, rs1=rs1, imm=BitVector[12](d['imm'])), tag=i.LoadInst.LH)
        elif k == 'store':
            x = i.Store(data=i.S(rs1=rs1, rs2=rs2, imm=BitVector[12](d['imm'])), tag=i.LoadInst.LW)
        else:
            x = i.Ext(data=i.E(rd=rd, rs=rs1), tag=getattr(i.BitInst, d['tag']))
        return i.Inst(x)

    def exec(self, d, pc, a, b):
        """(next pc, written value or None); a, b are the values of the source registers. (pc, Ellipsis): not judged."""
        k, nxt = d['k'], (pc + 4) & M32
        imm = d.get('imm')
        if k == 'op':
            v = alu(d['tag'], a, b)
            return nxt, Ellipsis if v is None else v
        if k == 'imm':
            return nxt, alu(d['tag'], a, sx(imm, 12) & M32)
        if k == 'shimm':
            return nxt, alu(d['tag'], a, imm)
        if k == 'lui':
            return nxt, (imm << 12) & M32
        if k == 'auipc':
            return nxt, (pc + (imm << 12)) & M32
        if k == 'jal':
            return (pc + 2 * sx(imm, 20)) & M32, nxt
        if k == 'jalr':
            return (a + sx(imm, 12)) & M32 & ~1, nxt
        if k == 'branch':
            sa, sb = sx(a), sx(b)
            t = {'BEQ': a == b, 'BNE': a != b, 'BLT': sa < sb, 'BLTU': a < b, 'BGE': sa >= sb, 'BGEU': a >= b}[d['tag']]
            return ((pc + 2 * sx(imm, 12)) & M32 if t else nxt), None
        if k in ('load', 'store'):
            return nxt, None       # not implemented by the cores
        n = {'POPCNT': bin(a).count('1'), 'CNTLZ': 32 - a.bit_length(), 'CNTTZ': (a & -a).bit_length() - 1 if a else 32}[d['tag']]
        return nxt, n


_riscv = {}


def riscv(name):
    if name not in _riscv:
        _riscv[name] = RiscV(name)
    return _riscv[name]


def riscv_case(ctx, rng):
    C = riscv(rng.choice(['riscv', 'riscv_ext', 'riscv_m']))
    isa = C.isa
    # Python: a program on one core
    core = C.sim.R32I_fc.Py()
    regs = [0] + [word(rng) for _ in range(31)]
    for j in range(1, 32):
        core.register_file.store(isa.Idx(j), isa.Word(regs[j]))
    pc = word(rng) & ~3
    log = []
    few = rng.sample(range(32), 4) if rng.random() < 0.7 else None
    for _ in range(rng.randint(6, 20)):
        d = C.rand(rng, few)
        inst = C.build(d)
        log.append(d)
        nxt, v = C.exec(d, pc, regs[d['rs1']], regs[d['rs2']])
        got = core(inst, isa.Word(pc))
        ctx.eq(got.as_uint(), nxt, f'{C.name} next pc after {log} from {pc:#x}')
        if d['rd'] and v is not None:
            if v is Ellipsis:
                v = core.register_file.load1(isa.Idx(d['rd'])).as_uint()
            regs[d['rd']] = v
        pc = nxt
        ctx.event('core_steps_py')
    ctx.eq([core.register_file.load1(isa.Idx(j)).as_uint() for j in range(32)], regs, f'{C.name} registers after {log}')
    ctx.seen('core', C.name, tuple(regs))
    # symbolic: single instructions
    fam = C.isa_mod.family.SMTFamily()
    core = C.sim.R32I_mappable_fc(fam)
    T = AssembledADT[isa.Inst, Assembler, SMTBitVector]
    A = Assembler(isa.Inst)
    for _ in range(3):
        d = C.rand(rng)
        inst = C.build(d)
        pc, a, b, old = (word(rng) for _ in range(4))
        subs = {}
        free = rng.random() < 0.6

        def sym(x, n):
            if not free or rng.random() < 0.2:
                return SMTBitVector[n](x)
            s = SMTBitVector[n]()
            subs[s.value] = smt.BV(x, n)
            return s
        i = T(sym(A.assemble(inst).as_uint(), A.width)) if rng.random() < 0.5 else T(inst)
        W = lambda x: fam.Word(sym(x, 32))
        pn, rd = core()(i, W(pc), W(a), W(b), W(old))
        nxt, v = C.exec(d, pc, a if d['rs1'] else 0, b if d['rs2'] else 0)
        val = lambda x: smt.simplify(smt.substitute(x.value, subs))
        g = val(pn)
        ctx.ok(g.is_constant(), f'{C.name} symbolic next pc of {d} is not determined by the inputs')
        ctx.eq(int(g.constant_value()), nxt, f'{C.name} symbolic next pc of {d} at {pc:#x} with {a:#x}, {b:#x}')
        if v is not Ellipsis:
            g = val(rd)
            ctx.ok(g.is_constant(), f'{C.name} symbolic result of {d} is not determined by the inputs')
            ctx.eq(int(g.constant_value()), old if v is None or not d['rd'] else v, f'{C.name} symbolic result of {d} at {pc:#x} with {a:#x}, {b:#x}')
        ctx.event('core_steps_smt')


def lut(t, b):
    return t >> (b[0] | b[1] << 1 | b[2] << 2) & 1


def pe_lut(rng):
    from examples.PE_lut.sim import gen_PE
    from examples.PE_lut.isa import gen_isa
    w = rng.choice([1, 4, 8, 16, 16, 32])
    isa = gen_isa(w).Py
    op = rng.choice(['imm', 'Add', 'Mux'])
    imm, t, d0, d1 = word(rng, w), rng.getrandbits(8), word(rng, w), word(rng, w)
    b = [rng.getrandbits(1) for _ in range(3)]
    inst = isa.Inst(isa.AluInst(getattr(isa.OP, op), BitVector[w](imm)), BitVector[8](t))
    want = [{'imm': imm, 'Add': (d0 + d1) % (1 << w), 'Mux': d0 if b[0] else d1}[op], lut(t, b)]
    return gen_PE(w), isa.Inst, inst, [('v', w, d0), ('v', w, d1)] + [('b', x) for x in b], want


def sum_pe(rng, tagged):
    if tagged:
        from examples.tagged_pe.sim import PE_fc
        from examples.tagged_pe.isa import ISA_fc
    else:
        from examples.sum_pe.sim import PE_fc
        from examples.sum_pe.isa import ISA_fc
    isa = ISA_fc.Py
    op, a, b, c, x = rng.choice('AB'), word(rng, 8), word(rng, 8), word(rng, 8), rng.getrandbits(1)
    o = getattr(isa.Op, op)
    if rng.random() < 0.5:
        off = word(rng, 8)
        i = isa.ArithOp(o, isa.Word(off))
        inst = isa.Inst(alu=i) if tagged else isa.Inst(i)
        want = (a + b + off if op == 'A' else a - b + off) & 255
    else:
        neg = rng.getrandbits(1)
        i = isa.BitOp(o, isa.Bit(neg))
        inst = isa.Inst(bit=i) if tagged else isa.Inst(i)
        r = a & b if op == 'A' else a | b
        want = ~r & 255 if neg else r
    return PE_fc, isa.Inst, inst, [('v', 8, a), ('v', 8, b), ('v', 8, c), ('b', x)], [want, x]


def pe_case(ctx, rng):
    for _ in range(rng.randint(4, 8)):
        kind = rng.choice(['lut', 'lut', 'sum', 'tagged'])
        fc, inst_t, inst, args, want = pe_lut(rng) if kind == 'lut' else sum_pe(rng, kind == 'tagged')
        for f, F in (('py', family.PyFamily), ('pyx', family.PyXFamily), ('smt', family.SMTFamily)):
            if kind == 'sum' and f == 'py':
                continue    # it inverts a Python bool there (see DESIGN.md)
            subs = {}
            free = rng.random() < 0.5

            def arg(x):
                n = x[1] if x[0] == 'v' else None
                if f != 'smt':
                    return Bit(x[1]) if n is None else BitVector[n](x[2])
                if not free:
                    return SMTBit(bool(x[1])) if n is None else SMTBitVector[n](x[2])
                s = SMTBit() if n is None else SMTBitVector[n]()
                subs[s.value] = smt.Bool(bool(x[1])) if n is None else smt.BV(x[2], n)
                return s
            if f == 'py':
                i = inst
            else:
                T = AssembledADT[inst_t, Assembler, SMTBitVector if f == 'smt' else BitVector]
                A = Assembler(inst_t)
                if f == 'smt' and free:
                    s = SMTBitVector[A.width]()
                    subs[s.value] = smt.BV(A.assemble(inst).as_uint(), A.width)
                    i = T(s)
                else:
                    i = T(inst)
            out = fc(F())()(i, *map(arg, args))
            got = []
            for o in out if isinstance(out, tuple) else (out,):
                if f == 'smt':
                    v = smt.simplify(smt.substitute(o.value, subs))
                    ctx.ok(v.is_constant(), f'{kind}_pe in {f}: result not determined by the inputs')
                    got.append(int(v.constant_value()))
                else:
                    got.append(int(o) if isinstance(o, (bool, Bit)) else o.as_uint())
            ctx.eq(got, want, f'{kind}_pe in {f} with {inst} on {args}')
            ctx.event('core_steps_' + f)
        ctx.seen('core', kind, tuple(want))


def case(ctx, rng):
    if rng.random() < 0.6:
        riscv_case(ctx, rng)
    else:
        pe_case(ctx, rng)
    ctx.event('core_cases')

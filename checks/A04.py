"""A04: published positions locate every field; extract and match agree with the instruction."""
from hwtypes import BitVector, SMTBitVector
import pysmt.shortcuts as smt
from vlib import adtgen, asmview
from peak.assembler.assembler import Assembler as Asm1
from peak.assembler2.assembler import Assembler as Asm2

RULE = ('random instruction types (depth<=4); every nested path of every type: published (low,high) against the opcode bits of random '
        'instructions and of the field encoded on its own; overlap and bounds of every level; distinct = (type shape, path, position)')
N = {'quick': 4000, 'thorough': 60000}
BUDGET = {'quick': 120, 'thorough': 1200}


def bits(op, lo, hi):
    return (op >> lo) & ((1 << (hi - lo)) - 1)


def key(b, spec, i):
    k, t = adtgen.subs(spec)[i]
    return b(t) if spec[0] == 'sum' else k


def paths(b, spec):
    """(path keys, spec at path, getter of the value at the path or None when another alternative is selected)"""
    yield (), spec, lambda v: v
    for i, (_, t) in enumerate(adtgen.subs(spec)):
        def first(v, i=i):
            if adtgen.is_sum(spec):
                return v[1] if v[0] == i else None
            return v[i]
        for p, s, get in paths(b, t):
            def g(v, first=first, get=get):
                x = first(v)
                return None if x is None else get(x)
            yield (key(b, spec, i),) + p, s, g


def by_attr(sub, path):
    for k in path:
        sub = getattr(sub, k) if isinstance(k, str) else sub[k]
    return sub


def case(ctx, rng):
    g = adtgen.Gen(rng, zero=rng.random() < 0.3, big=0.08)
    for spec in adtgen.twins(g.spec(rng.randint(1, 4), top=True), rng):
        one(ctx, rng, g, spec)


def one(ctx, rng, g, spec):
    b = adtgen.Builder(rng=rng)
    T = b(spec)
    ctx.note(f'type {spec}')
    asm1, asm2 = Asm1(T), Asm2(T)
    vals = adtgen.some_values(spec, rng, 12)
    insts = [b.inst(spec, v) for v in vals]
    ops = [asm1.assemble(i).as_uint() for i in insts]
    ctx.eq(asm1.width, asm2.width, 'widths of the two assemblers')
    # v1: every path
    for path, s, get in paths(b, spec):
        sub = asm1.sub[path]
        sl = sub.idx
        lo, hi = sl.start, sl.stop
        ctx.ok(0 <= lo <= hi <= asm1.width and sl.step is None, f'position {sl} of {path} outside width {asm1.width}')
        st = b(s)
        own = Asm1(st)
        ctx.eq(hi - lo, own.width, f'size of the position of {path}')
        ctx.ok(sub.asm.isa is st or sub.asm.isa == st, f'{path} published as a {sub.asm.isa}')
        sl2 = by_attr(asm1.sub, path).idx
        ctx.eq((sl2.start, sl2.stop), (lo, hi), f'position of {path} by attributes and by path')
        for v, op in zip(vals, ops):
            x = get(v)
            if x is None:
                continue
            want = own.assemble(b.inst(s, x)).as_uint()
            ctx.ok(bits(op, lo, hi) == want, f'bits {lo}:{hi} of opcode {op:#x} are not field {path}', f'instruction {v}', f'field encodes as {want:#x}')
            ctx.event('field_reads')
        if s[0] in ('sum', 'tu'):
            tl = sub.tag_idx
            ctx.ok(lo <= tl.start <= tl.stop <= hi, f'tag position {tl} of {path} outside {lo}:{hi}')
            for v, op in zip(vals, ops):
                x = get(v)
                if x is None:
                    continue
                kk = key(b, s, x[0])
                want = own.assemble_tag(kk, BitVector).as_uint()
                ctx.eq(bits(op, tl.start, tl.stop), want, f'tag bits {tl.start}:{tl.stop} of {path} in {op:#x} ({v})')
                ctx.event('tag_reads')
        ctx.seen(adtgen.shape(spec), str(path), lo, hi)
        structure(ctx, b, s, Asm1(st), path)
    # v2: extract and match, all levels, following the selected alternatives
    for v, op, inst in zip(vals, ops, insts):
        o2 = asm2.assemble(inst)
        follow(ctx, b, spec, v, inst, o2)
        if not g.zero and rng.random() < 0.15:
            follow(ctx, b, spec, v, inst, asm2.assemble(inst, SMTBitVector))
    ctx.sample(f'{spec}')


def structure(ctx, b, s, asm, path):
    """Bounds and overlaps of the direct parts of s, v1 layout and v2 probed positions."""
    n = len(adtgen.subs(s))
    if not n:
        return
    ranges = [tuple(asm.layout[key(b, s, i)]) for i in range(n)]
    ctx.eq(set(asm.sub), {key(b, s, i) for i in range(n)}, f'parts listed for {path}')
    v2 = asmview.View(2, b, s)
    for name, rs in (('v1', ranges), ('v2', [tuple(p) for p in v2.pos])):
        for i, (lo, hi) in enumerate(rs):
            ctx.ok(0 <= lo <= hi <= asm.width, f'{name} part {i} of {path} at {lo}:{hi} outside width {asm.width}', s)
            for j in range(i):
                l2, h2 = rs[j]
                if not adtgen.is_sum(s):
                    ctx.ok(hi <= l2 or h2 <= lo or lo == hi or l2 == h2, f'{name} parts {i} and {j} of {path} overlap: {lo}:{hi} and {l2}:{h2}', s)
    if adtgen.is_sum(s):
        tl, th = asm.tag_layout
        ctx.ok(0 <= tl <= th <= asm.width and th - tl == asm.tag_width, f'tag of {path} at {tl}:{th}, tag width {asm.tag_width}')
        for i, (lo, hi) in enumerate(ranges):
            ctx.ok(hi <= tl or th <= lo or lo == hi or tl == th, f'part {i} of {path} at {lo}:{hi} overlaps the tag at {tl}:{th}', s)
    if s[0] == 'tu':
        for i, (f, t) in enumerate(s[2]):
            ctx.eq(tuple(asm.layout[b(t)]), ranges[i], f'position of {path} alternative {f} by type and by name')
    if s[0] in ('prod',):
        for i in range(n):
            w = v2.width
            if w:
                for p in range(w):
                    o = BitVector[w](1 << p)
                    ctx.ok(v2.asm.extract(o, i) == v2.asm.extract(o, s[2][i][0]), f'v2 extract of {path} by index {i} and name {s[2][i][0]}')


def val(x):
    if hasattr(x, 'as_uint') and not isinstance(x, SMTBitVector):
        return x.as_uint()
    r = smt.simplify(x.value)
    assert r.is_constant(), r
    return int(r.constant_value())


def truth(x):
    if hasattr(x, 'value'):
        r = smt.simplify(x.value)
        assert r.is_constant(), r
        return bool(r.constant_value())
    return bool(x)


def follow(ctx, b, s, v, inst, op):
    asm = Asm2(b(s))
    n = len(adtgen.subs(s))
    ctx.eq(op.size, asm.width, f'v2 size of {s}')
    BV = SMTBitVector if isinstance(op, SMTBitVector) else BitVector
    for i in range(n):
        k = key(b, s, i)
        _, t = adtgen.subs(s)[i]
        if adtgen.is_sum(s):
            m = truth(asm.match(op, k))
            ctx.ok(m == (v[0] == i), f'v2 match of alternative {k} in {inst!r} is {m}', s)
            ctx.event('matches')
            if s[0] == 'tu':
                m = truth(asm.match(op, b(t)))
                same = [j for j, (_, u) in enumerate(s[2]) if u == t]
                ctx.ok(m == (v[0] in same), f'v2 match of type {b(t)} in {inst!r} is {m}', s)
            if v[0] != i:
                continue
            sub, x = v[1], None
            field = inst[k].value if s[0] == 'sum' else getattr(inst, k).value
        else:
            sub = v[i]
            field = inst[k] if s[0] == 'tuple' else getattr(inst, k)
        x = asm.extract(op, k)
        want = Asm2(b(t)).assemble(field, BV)
        ctx.ok(val(x) == val(want) and x.size == want.size, f'v2 extract of {k} from {inst!r} gives {x}, the field encodes as {want}', s)
        ctx.event('extractions')
        follow(ctx, b, t, sub, field, x)
    if not adtgen.is_sum(s):
        ctx.raises(lambda: asm.match(op, 'nofield'), f'v2 match on {s}') if s[0] != 'enum' else None
    ctx.raises(lambda: asm.extract(op, 'nofield'), f'v2 extract of an unknown field of {s}')

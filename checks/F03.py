"""F03: registers, attribute registers and memories against the history of their writes."""
import hwtypes, warnings
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector
import pysmt.shortcuts as smt
from vlib import adtgen
from peak import Peak, family, ROM, RAM
from peak.memory import Memory
from peak import register as regmod

RULE = ('interleaved histories of calls, enables, reads without a call and ill-typed writes over several instances of several generated register types '
        '(bits, vectors, signed vectors, subclasses of vectors that share names, enums; shared and distinct initial values; with and without enable) in the Python, rewriting and symbolic families '
        '(constants and free symbols), attribute registers on plain peak objects, gen_register, gen_register2, ROM and RAM; '
        'a dictionary of last writes is the oracle; distinct = (kind, family, type, history)')
N = {'quick': 1500, 'thorough': 40000}
BUDGET = {'quick': 150, 'thorough': 1200}
ASSUMPTIONS = ['initial values are ints or concrete values (symbolic ones are not hashable)', 'registers of composite types other than enums are only generated by gen_register2 and memories, as generated registers build T(init)']


class Env:
    """Values of one type in one family."""
    def __init__(self, ctx, rng, fname, subs):
        self.f = {'py': family.PyFamily, 'pyx': family.PyXFamily, 'smt': family.SMTFamily}[fname]()
        self.name, self.rng, self.subs = fname, rng, subs
        self.b = adtgen.Builder(rng=rng)

    def type(self, s):
        F = self.f
        if s[0] == 'enum':
            return F.get_adt_t(self.b(s))
        if len(s) == 3:
            return named(F.BitVector[s[1]], s[2])
        return {'bit': lambda: F.Bit, 'bv': lambda: F.BitVector[s[1]], 's': lambda: F.Signed[s[1]], 'u': lambda: F.Unsigned[s[1]]}[s[0]]()

    def value(self, s, v):
        T = self.type(s)
        if s[0] == 'enum':
            return T(self.b.inst(s, v))
        if self.name == 'smt' and self.rng.random() < 0.5:
            x = T()
            self.subs[x.value] = smt.Bool(bool(v)) if s[0] == 'bit' else smt.BV(v, s[1])
            return x
        return T(v)

    def same(self, s, got, v):
        """The observed value is v (compared on the concrete meaning)."""
        if s[0] == 'enum':
            e = got == self.b.inst(s, v)
            return self.truth(e)
        x = got
        if self.name == 'smt' and isinstance(got, (SMTBit, SMTBitVector)):
            c = smt.simplify(smt.substitute(got.value, self.subs))
            return c.is_constant() and int(c.constant_value()) == v
        return (int(x) if s[0] == 'bit' else x.as_uint()) == v

    def truth(self, e):
        if isinstance(e, bool) or isinstance(e, Bit):
            return bool(e)
        c = smt.simplify(smt.substitute(e.value, self.subs))
        return c.is_constant() and c.constant_value()

    def bit(self, v):
        return self.value(('bit',), v)


_named = {}


def named(B, name):
    """A class of the given name derived from a vector type; the width does not show in it."""
    if (B, name) not in _named:
        _named[B, name] = type(B)(name, (B,), {})
    return _named[B, name]


def rand_type(rng, g, names=True):
    k = rng.random()
    if names and rng.random() < 0.15:
        return ('bv', rng.choice([1, 2, 3, 4, 8, 16]), rng.choice(['Word', 'Word', 'V']))
    if k < 0.2:
        return ('bit',)
    if k < 0.6:
        return ('bv', rng.choice([1, 2, 3, 8, 16, 33]))
    if k < 0.75:
        return (rng.choice('su'), rng.choice([1, 4, 8]))
    while True:
        s = g.spec(1, top=True)
        if s[0] == 'enum':
            return s


def rand_val(s, rng):
    if s[0] == 'bit':
        return rng.randint(0, 1)
    if s[0] in ('bv', 's', 'u'):
        return rng.choice([0, 1, (1 << s[1]) - 1, rng.randrange(1 << s[1])]) & ((1 << s[1]) - 1)
    return adtgen.rand_value(s, rng)


def init_of(env, s, v, rng):
    if s[0] == 'enum':
        return env.b.inst(s, v)
    if env.name == 'smt' or s[0] == 's' and v >> (s[1] - 1):
        return v
    return rng.choice([v, env.type(s)(v), bool(v) if s[0] == 'bit' else v])


def case(ctx, rng):
    warnings.simplefilter('ignore')
    g = adtgen.Gen(rng, zero=False, big=0.05)
    {0: call_registers, 1: attr_registers, 2: memories}[rng.choice([0, 0, 1, 1, 2])](ctx, rng, g)


def call_registers(ctx, rng, g):
    fname = rng.choice(['py', 'pyx', 'smt'])
    subs = {}
    env = Env(ctx, rng, fname, subs)
    types = [rand_type(rng, g) for _ in range(rng.randint(1, 2))]
    types += [('bv', t[1] + rng.randint(1, 4), t[2]) for t in types if len(t) == 3 and t[0] == 'bv' and rng.random() < 0.6]
    kinds = []
    for _ in range(rng.randint(2, 4)):
        s = rng.choice(types)
        v = rand_val(s, rng)
        how = rng.choice(['en', 'en', 'default', 'noen'] + (['old', 'old2'] if fname != 'pyx' and s[0] != 'enum' else []))
        T = env.type(s)
        i = init_of(env, s, v, rng)
        if how == 'old' and not (s[0] in ('bit', 'bv') and len(s) < 3):
            how = 'default'
        if how == 'old2' and fname != 'py':
            how = 'default'
        if how == 'old':
            py = {'bit': Bit}.get(s[0]) or BitVector[s[1]]
            cls = regmod.gen_register(py, i)(env.f) if rng.random() < 0.7 or v else regmod.gen_register(py)(env.f)
        elif how == 'old2':
            cls = regmod.gen_register2(env.f, T, T(v) if not isinstance(i, T) else i)
        elif how == 'default':
            cls = env.f.gen_register(T, i)
        else:
            cls = env.f.gen_register(T, i, has_enable=how == 'en')
        if how in ('en', 'default', 'noen'):
            kw = {} if how == 'default' else {'has_enable': how == 'en'}
            ctx.ok(env.f.gen_register(T, i, **kw) is cls, 'a register generated again with the same arguments is another class')
        kinds.append((s, v, how, cls))
    objs = []
    for _ in range(rng.randint(2, 5)):
        s, v, how, cls = rng.choice(kinds)
        objs.append([s, v, how, cls(), []])
    hist = []
    for step in range(rng.randint(6, 16)):
        o = rng.choice(objs)
        s, cur, how, r, h = o
        if how != 'old2' and rng.random() < 0.3:
            hist.append((objs.index(o), 'prev'))
            ctx.ok(env.same(s, r.prev(), cur), f'{fname} {how} register of {s}: prev is not {cur}', hist)
            ctx.event('prev')
            continue
        v = rand_val(s, rng)
        x = env.value(s, v)
        en = rng.randint(0, 1)
        kw = rng.random() < 0.2 and how != 'old2'
        hist.append((objs.index(o), 'call', v, en if how != 'noen' else None))
        if how == 'noen':
            got = r(value=x) if kw else r(x)
            en = 1
        else:
            e = env.bit(en)
            got = r(value=x, en=e) if kw else r(x, e)
        ctx.ok(env.same(s, got, cur), f'{fname} {how} register of {s} returned {got!r}, not {cur}', hist)
        if en:
            o[1] = v
        ctx.event('calls')
        ctx.event('enabled' if en else 'disabled')
    ctx.seen('call', fname, repr([k[:3] for k in kinds]), repr(hist))


def attr_registers(ctx, rng, g):
    fname = rng.choice(['py', 'pyx', 'smt'])
    subs = {}
    env = Env(ctx, rng, fname, subs)
    types = [rand_type(rng, g) for _ in range(rng.randint(1, 3))]
    types += [('bv', t[1] + rng.randint(1, 4), t[2]) for t in types if len(t) == 3 and t[0] == 'bv' and rng.random() < 0.6]
    decl = []
    for i in range(rng.randint(1, 4)):
        s = rng.choice(types)
        v = rand_val(s, rng)
        decl.append((f'r{i}', s, v, env.f.gen_attr_register(env.type(s), init_of(env, s, v, rng))))

    class Holder(Peak):
        def __init__(self):
            for n, s, v, cls in decl:
                setattr(self, n, cls())
            self.plain = 7

    objs = [(Holder(), {n: v for n, _, v, _ in decl}) for _ in range(rng.randint(1, 3))]
    inner = [{n: h.__dict__[n] for n, *_ in decl} for h, _ in objs]
    hist = []
    for step in range(rng.randint(6, 16)):
        k = rng.randrange(len(objs))
        h, model = objs[k]
        n, s, _, cls = rng.choice(decl)
        T = env.type(s)
        op = rng.random()
        if op < 0.45:
            v = rand_val(s, rng)
            hist.append((k, n, 'write', v))
            setattr(h, n, env.value(s, v))
            model[n] = v
            ctx.event('attr_writes')
        elif op < 0.65:
            bad = wrong(env, s, rng)
            hist.append((k, n, 'ill-typed write', repr(bad)))
            ctx.raises(lambda: setattr(h, n, bad), f'{fname} attribute register of {T}: write of {bad!r} ({type(bad)})', hist, exc=TypeError)
        elif op < 0.75 and len(decl) > 1:
            # register to register
            same = [d for d in decl if d[1] == s]
            m = rng.choice(same)
            hist.append((k, n, 'copy of', m[0]))
            setattr(h, n, getattr(h, m[0]))
            model[n] = model[m[0]]
        else:
            h.plain = step
            ctx.eq(h.plain, step, 'an ordinary attribute')
        for j, (hh, mm) in enumerate(objs):
            for nn, ss, _, _ in decl:
                got = getattr(hh, nn)
                ctx.ok(isinstance(got, env.type(ss)), f'{fname} attribute register holds {got!r}, not a {env.type(ss)}', hist)
                ctx.ok(env.same(ss, got, mm[nn]), f'{fname} object {j} register {nn} of {ss} holds {got!r}, not {mm[nn]}', hist)
                ctx.ok(hh.__dict__[nn] is inner[j][nn], f'writing replaced the register {nn} of object {j} itself', hist)
        ctx.event('attr_reads')
    ctx.seen('attr', fname, repr([d[:3] for d in decl]), repr(hist))


def wrong(env, s, rng):
    F = env.f
    c = [3, True, None, 'x', F.BitVector[s[1] + 1](0) if s[0] in ('bv', 's', 'u') else F.BitVector[1](0)]
    if s[0] != 'bit':
        c.append(F.Bit(0))
    other = hwtypes.SMTBitVector if env.name != 'smt' else hwtypes.BitVector
    if s[0] == 'bv':
        c.append(other[s[1]](0))
    if s[0] == 'bv' and len(s) == 3:
        c.append(named(F.BitVector[s[1] + 1], s[2])(0))
        c.append(F.BitVector[s[1]](0))
    if s[0] in 'su':
        c.append((F.Unsigned if s[0] == 's' else F.Signed)[s[1]](1))
        c.append(F.BitVector[s[1]](1))
    if s[0] == 'enum':
        c.append(F.BitVector[4](0))
        if env.name != 'py':
            c.append(env.b.inst(s, s[2][0][0]))
    return rng.choice(c)


def memories(ctx, rng, g):
    b = adtgen.Builder(rng=rng)
    s = rng.choice([rand_type(rng, g, False), g.spec(2, top=True)])
    T = b(s)
    env = Env(ctx, rng, 'py', {})
    n = rng.choice([1, 2, 4, 5, 16])
    fill = [rand_val(s, rng) if s[0] in ('bit', 'bv', 's', 'u') else adtgen.rand_value(s, rng) for _ in range(rng.randint(0, n))]
    mk = lambda v: b.inst(s, v)
    default = rand_val(s, rng) if s[0] in ('bit', 'bv', 's', 'u') else adtgen.rand_value(s, rng)
    cls = rng.choice([ROM, RAM, RAM, Memory])
    mems = []
    for _ in range(rng.choice([1, 2])):
        init = [mk(v) for v in fill]
        m = cls(T, n, init, mk(default))
        mems.append([m, [fill[i] if i < len(fill) else default for i in range(n)]])
    hist = []
    aw = max((n - 1).bit_length(), 1)
    for step in range(rng.randint(5, 20)):
        k = rng.randrange(len(mems))
        m, model = mems[k]
        a = rng.randrange(n)
        addr = rng.choice([a, BitVector[aw](a), BitVector[aw + 3](a)])
        if cls is ROM:
            hist.append((k, 'read', a))
            got = m(addr)
        else:
            v = rand_val(s, rng) if s[0] in ('bit', 'bv', 's', 'u') else adtgen.rand_value(s, rng)
            wen = rng.randint(0, 1)
            hist.append((k, 'access', a, v, wen))
            got = m(addr, mk(v), rng.choice([Bit(wen), wen]))
        ctx.ok(got == mk(model[a]), f'{cls.__name__} of {s}, cell {a}: {got!r}, not {mk(model[a])!r}', hist)
        if cls is not ROM and wen:
            model[a] = v
        ctx.event('memory_accesses')
    ctx.seen('mem', cls.__name__, n, repr(s), repr(hist))

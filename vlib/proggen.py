"""Random peak designs as source text, with an independent reference on plain ints.

A design has inputs (an optional instruction, bits, vectors), state (registers
called explicitly, attribute registers, sub-modules with state of their own)
and a body of assignments, conditionals and returns. Each expression carries
its source and a function from the environment to an int; types are
('bit',), ('bv', n), ('s', n), ('u', n).
"""
from vlib import adtgen

BIT = ('bit',)


def width(t):
    return 1 if t == BIT else t[1]


def mask(t):
    return (1 << width(t)) - 1


def signed(v, n):
    return v - (1 << n) if v >> (n - 1) else v


class E:
    """A typed expression: source text and meaning."""
    __slots__ = ('t', 'src', 'ev', 'const')

    def __init__(self, t, src, ev, const=False):
        self.t, self.src, self.ev, self.const = t, src, ev, const


class Params:
    """Constants of a design that its maker takes as arguments: K0, K1, ... of types .types, at present .cur."""
    def __init__(self):
        self.types, self.cur = [], []

    def new(self, t, v):
        self.types.append(t)
        self.cur.append(v)
        return Param(self, len(self.cur) - 1)

    def rand(self, r):
        return [r.choice([0, 1, mask(t), r.randint(0, mask(t)), r.randint(0, mask(t))]) & mask(t) for t in self.types]


class Param:
    def __init__(self, params, i):
        self.params, self.i = params, i

    def __str__(self):
        return f'K{self.i}'

    def __int__(self):
        return self.params.cur[self.i]


class Return(Exception):
    pass


class Opts:
    def __init__(self, hw=False, insts=True, state=True, subs=True, early=True, div=True, signs=True, maxw=8, shifts=True, prev=True, boolops=True, depth=3, adt_depth=2, mul=True, tern=True, muts=True, size=1, params=None):
        self.__dict__.update(locals())


TCLS = {'bit': 'Bit', 'bv': 'BV', 's': 'Signed', 'u': 'Unsigned'}


def lhs(v):
    return v.src[1:].split()[0] if v.src.startswith('(') else v.src


def tsrc(t):
    return 'Bit' if t == BIT else f'{TCLS[t[0]]}[{t[1]}]'


class Prog:
    """One random design (and its sub-designs)."""
    def __init__(self, rng, opts, name='A', top=True, depth=0):
        self.r, self.o, self.name, self.top = rng, opts, name, top
        self.subs = []            # (attr, Prog)
        self.regs = []            # (attr, type, init, kind) kind: 'en' | 'noen' | 'attr'
        self.features = set()
        self.nv = 0
        self.level = depth
        r = rng
        self.inst = None
        if opts.insts and top and r.random() < 0.7:
            g = adtgen.Gen(rng, zero=False, signed=opts.signs and r.random() < 0.5, autos=True, bvmax=6)
            while True:
                s = g.spec(r.randint(1, opts.adt_depth), top=True)
                if s[0] not in ('bit', 'bv'):
                    break
            self.inst = s
        self.inputs = []          # (name, type)
        ws = sorted({r.randint(1, opts.maxw) for _ in range(r.randint(1, 3))})
        self.types = [BIT] + [('bv', w) for w in ws]
        if opts.signs and r.random() < 0.35:
            self.types.append((r.choice('su'), r.choice(ws)))
        if self.inst:
            # so that the sign of a field matters
            found = sorted(set(sign_leaves(self.inst)))
            self.types += r.sample(found, min(2, len(found)))
        names = r.sample(['a', 'b', 'c', 'd', 'x', 'y', 'data', 'k', 'op0', 'en', 'sel', 'value'], r.randint(1 if self.inst else 2, 4))
        for n in names:
            self.inputs.append((n, r.choice(self.types)))
        self.inst_pos = r.randint(0, len(self.inputs)) if self.inst else None
        self.outputs = [r.choice(self.types) for _ in range(r.choice([1, 1, 2, 2, 3]))]
        self.named = r.random() < 0.5
        self.const_inst = r.random() < 0.5
        if opts.state and r.random() < 0.65:
            for i in range(r.randint(1, 3)):
                t = r.choice(self.types)
                kind = r.choice(['en', 'en', 'noen', 'attr', 'attr'])
                if opts.hw and t[0] != 'bv' and kind == 'attr':
                    kind = 'en'
                init = r.randint(0, mask(t))
                self.regs.append((f'r{i}', t, init if opts.params is None else opts.params.new(t, init), kind))
        if opts.subs and depth < 2 and r.random() < (0.35 if depth == 0 else 0.2):
            for i in range(r.choice([1, 1, 2])):
                if self.subs and r.random() < 0.4:
                    self.subs.append((f'sub{i}', self.subs[0][1]))
                else:
                    self.subs.append((f'sub{i}', Prog(rng, opts, f'{name}S{i}', False, depth + 1)))
        self.body = self.make_body()

    # ---- expressions
    def const(self, t):
        r = self.r
        v = r.choice([0, 1, mask(t), r.randint(0, mask(t)), r.randint(0, mask(t))]) & mask(t)
        if self.o.params is not None and r.random() < 0.8:
            v = self.o.params.new(t, v)
        return E(t, f'{tsrc(t)}({v})', lambda e: int(v), True)

    def atom(self, t, scope):
        c = [v for v in scope if v.t == t]
        if c and self.r.random() < 0.88:
            return self.r.choice(c)
        return self.derive(t, scope) or self.const(t)

    def derive(self, t, scope):
        """t made from something of another type."""
        r = self.r
        vecs = [v for v in scope if v.t != BIT]
        if t == BIT and vecs:
            v = r.choice(vecs)
            i = r.randrange(v.t[1])
            return E(t, f'{v.src}[{i}]', lambda e: (v.ev(e) >> i) & 1)
        if t != BIT and t[0] == 'bv':
            n = t[1]
            wide = [v for v in vecs if v.t[1] > n and v.t[0] == 'bv']
            narrow = [v for v in vecs if v.t[1] < n and v.t[0] == 'bv']
            if wide and r.random() < 0.5:
                v = r.choice(wide)
                lo = r.randint(0, v.t[1] - n)
                self.features.add('slice')
                return E(t, f'{v.src}[{lo}:{lo + n}]', lambda e: (v.ev(e) >> lo) & ((1 << n) - 1))
            if narrow:
                v = r.choice(narrow)
                k = n - v.t[1]
                how = r.choice(['zext', 'zext' if self.o.hw else 'sext', 'concat'])
                self.features.add(how)
                if how == 'zext':
                    return E(t, f'{v.src}.zext({k})', lambda e: v.ev(e))
                if how == 'sext':
                    return E(t, f'{v.src}.sext({k})', lambda e: signed(v.ev(e), v.t[1]) & mask(t))
                ks = [u for u in narrow if u.t[1] == k]
                if ks:
                    u = r.choice(ks)
                    return E(t, f'BV.concat({v.src}, {u.src})', lambda e: v.ev(e) | (u.ev(e) << v.t[1]))
                return E(t, f'{v.src}.zext({k})', lambda e: v.ev(e))
            same = [v for v in vecs if v.t[1] == n and v.t[0] != 'bv']
            if same:
                v = r.choice(same)
                return E(t, f'{tsrc(t)}({v.src})', v.ev)
        elif t != BIT:
            same = [v for v in vecs if v.t[1] == t[1] and v.t[0] != t[0]]
            if same:
                v = r.choice(same)
                self.features.add('signed')
                return E(t, f'{tsrc(t)}({v.src})', v.ev)
        return None

    def expr(self, t, scope, d=None):
        r = self.r
        if d is None:
            d = r.randint(0, self.o.depth)
        if d <= 0:
            return self.atom(t, scope)
        if self.o.tern and r.random() < 0.08:
            c = self.cond(scope, d - 1)
            a, b = self.expr(t, scope, d - 1), self.expr(t, scope, d - 1)
            self.features.add('ternary')
            return E(t, f'({a.src} if {c.src} else {b.src})', lambda e: a.ev(e) if c.ev(e) else b.ev(e))
        if r.random() < 0.08:
            c = self.expr(BIT, scope, d - 1)
            a, b = self.expr(t, scope, d - 1), self.expr(t, scope, d - 1)
            if not (a.const and b.const):
                self.features.add('ite')
                return E(t, f'({c.src}).ite({a.src}, {b.src})', lambda e: a.ev(e) if c.ev(e) else b.ev(e))
        if t == BIT:
            k = r.random()
            if k < 0.45:
                op = r.choice('&|^')
                a, b = self.expr(t, scope, d - 1), self.expr(t, scope, d - 1)
                f = {'&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y}[op]
                return E(t, f'({a.src} {op} {b.src})', lambda e: f(a.ev(e), b.ev(e)))
            if k < 0.6:
                a = self.expr(t, scope, d - 1)
                return E(t, f'(~{a.src})', lambda e: 1 - a.ev(e))
            return self.compare(scope, d)
        n = t[1]
        m = mask(t)
        ops = ['+', '-', '&', '|', '^', '~', '+', '-']
        if self.o.mul:
            ops.append('*')
        if self.o.shifts:
            ops += ['<<', '>>']
        if self.o.div and t[0] == 'bv':
            ops += ['//', '%']
        if t[0] != 'bv' or True:
            ops.append('neg')
        op = r.choice(ops)
        if op == '~':
            a = self.expr(t, scope, d - 1)
            return E(t, f'(~{a.src})', lambda e: ~a.ev(e) & m)
        if op == 'neg':
            a = self.expr(t, scope, d - 1)
            if self.o.hw:
                return a
            return E(t, f'(-{a.src})', lambda e: -a.ev(e) & m)
        a, b = self.expr(t, scope, d - 1), self.expr(t, scope, d - 1)
        if self.o.hw and a.const:
            a = self.atom(t, [v for v in scope if v.t == t]) if any(v.t == t for v in scope) else a
        if r.random() < 0.12 and op in '+-&|^' and not a.const and t[0] != 's':
            v = r.randint(0, m)
            b = E(t, str(v), lambda e: v, True)
        f = {
            '+': lambda x, y: (x + y) & m, '-': lambda x, y: (x - y) & m, '*': lambda x, y: (x * y) & m,
            '&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y,
            '<<': lambda x, y: (x << y) & m if y < n else 0,
            '>>': (lambda x, y: (signed(x, n) >> min(y, n)) & m) if t[0] == 's' else (lambda x, y: x >> y if y < n else 0),
            '//': lambda x, y: x // y if y else m, '%': lambda x, y: x % y if y else x,
        }[op]
        self.features.add(op)
        return E(t, f'({a.src} {op} {b.src})', lambda e: f(a.ev(e), b.ev(e)))

    def compare(self, scope, d):
        r = self.r
        vt = [v.t for v in scope if v.t != BIT]
        if not vt:
            return self.atom(BIT, scope)
        t = r.choice(vt)
        a, b = self.expr(t, scope, d - 1), self.expr(t, scope, d - 1)
        if a.const and b.const or (self.o.hw and a.const):
            a = r.choice([v for v in scope if v.t == t])
        op = r.choice(['==', '!=', '<', '<=', '>', '>='])
        n = t[1]
        if self.o.hw and t[0] == 'bv' and op not in ('==', '!='):
            U = tsrc(('u', n))
            a, b = (E(('u', n), f'{U}({x.src})', x.ev) for x in (a, b))
            self.features.add('unsigned_compare')
        num = (lambda x: signed(x, n)) if t[0] == 's' else (lambda x: x)
        f = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y,
             '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}[op]
        return E(BIT, f'({a.src} {op} {b.src})', lambda e: int(f(num(a.ev(e)), num(b.ev(e)))))

    def cond(self, scope, d=None):
        """A condition of an if: a bit, possibly under and/or/not."""
        r = self.r
        c = self.expr(BIT, scope, r.randint(0, 2) if d is None else d)
        if self.o.boolops and r.random() < 0.2:
            k = r.choice(['and', 'or', 'not'])
            self.features.add(k)
            if k == 'not':
                return E(BIT, f'(not {c.src})', lambda e: 1 - c.ev(e))
            b = self.expr(BIT, scope, 1)
            if k == 'and':
                return E(BIT, f'({c.src} and {b.src})', lambda e: c.ev(e) & b.ev(e))
            return E(BIT, f'({c.src} or {b.src})', lambda e: c.ev(e) | b.ev(e))
        return c

    # ---- statements: lists of (emit lines, run)
    def fresh(self):
        self.nv += 1
        return f'v{self.nv}'

    def make_body(self):
        r = self.r
        stmts = []
        scope = [self.var(n, t) for n, t in self.inputs]
        pend = list(self.regs)
        # instruction fields reachable without a choice
        insts = []
        if self.inst:
            scope2, insts = self.inst_fields('inst', self.inst, lambda e: e['inst'], 0)
            scope += scope2
        attrs = [x for x in pend if x[3] == 'attr']
        self.attrs = {a: t for a, t, _, _ in attrs}
        for a, t, _, _ in attrs:
            scope.append(E(t, f'(self.{a} + 0)' if self.o.hw else f'self.{a}', lambda e, a=a: e['self.' + a]))
        calls = [x for x in pend if x[3] != 'attr'] + [('sub',) + s for s in self.subs]
        r.shuffle(calls)
        # the calls of registers and sub-modules, unconditional and before any return
        prevs = []
        for c in calls:
            if c[0] != 'sub' and self.o.prev and r.random() < 0.4:
                v = self.fresh()
                a, t = c[0], c[1]
                stmts.append(Prev(v, a, '' if not self.o.hw else ' & Bit(1)' if t == BIT else ' + 0' if t[0] == 'bv' else ' & ' + tsrc(t) + f'({mask(t)})'))
                scope.append(self.var(v, t))
                self.features.add('prev')
        for c in calls:
            self.block(stmts, scope, insts, r.choice([0, 0, 1]) if self.o.size == 1 else r.randint(0, 2), 1, returns=False)
            if c[0] == 'sub':
                _, a, p = c
                args = [self.expr(t, scope) for _, t in p.inputs]
                outs = [self.fresh() for _ in p.outputs]
                stmts.append(CallSub(a, p, args, outs, r))
                scope += [self.var(v, t) for v, t in zip(outs, p.outputs)]
                self.features.add('submodule')
            else:
                a, t, _, kind = c
                val = self.expr(t, scope)
                en = self.expr(BIT, scope, r.randint(0, 2)) if kind == 'en' else None
                v = self.fresh()
                stmts.append(CallReg(a, val, en, v))
                scope.append(self.var(v, t))
                self.features.add('register_' + kind)
        self.block(stmts, scope, insts, r.randint(1, 2 * self.o.size) if self.top else 1, self.o.depth if self.o.size > 1 else r.choice([1, 2, 2]), returns=self.o.early)
        if self.o.hw:
            # magma requires every register to be driven
            for a, t, _, _ in attrs:
                v = self.fresh()
                e = E(t, f'(self.{a} + 0)', lambda e, a=a: e['self.' + a])
                stmts.insert(0, Assign('self.' + a, r.choice([self.var(v, t), self.expr(t, [self.var(v, t)] + [self.var(n, u) for n, u in self.inputs])])))
                stmts.insert(0, Assign(v, e))
        stmts.append(Ret([self.expr(t, scope) for t in self.outputs]))
        return stmts

    def var(self, n, t):
        return E(t, n, lambda e: e[n])

    def inst_fields(self, src, s, get, d):
        """Leaf expressions of an instruction value and the choices below it."""
        k = s[0]
        if k in ('bit', 'bv', 's', 'u'):
            t = BIT if k == 'bit' else (k, s[1])
            return [E(t, src, get)], []
        if k == 'enum':
            return [], [(src, s, get)]
        if k in ('sum', 'tu'):
            return [], [(src, s, get)]
        fields, choices = [], []
        for i, (key, t) in enumerate(adtgen.subs(s)):
            sub = f'{src}.{key}' if k == 'prod' else f'{src}[{key}]'
            f, c = self.inst_fields(sub, t, lambda e, i=i: get(e)[i], d + 1)
            fields += f
            choices += c
        return fields, choices

    def block(self, stmts, scope, insts, n, depth, returns):
        r = self.r
        for _ in range(n):
            k = r.random()
            muts = [v for v in scope if v.src.startswith('v') or v.src.startswith(('self.', '(self.'))]
            if depth > 0 and k < 0.5:
                if insts and r.random() < 0.6:
                    self.switch(stmts, scope, insts, depth, returns)
                else:
                    self.branch(stmts, scope, insts, depth, returns)
            elif muts and self.o.muts and k < 0.7:
                v = r.choice(muts)
                e = self.expr(v.t, scope)
                stmts.append(Assign(lhs(v), e))
                if lhs(v).startswith('self.'):
                    self.features.add('attr_write')
            else:
                t = r.choice(self.types)
                e = self.expr(t, scope)
                v = self.fresh()
                stmts.append(Assign(v, e))
                scope.append(self.var(v, t))

    def arms(self, guards, stmts, scope, insts, depth, returns, exhaustive):
        """An if/elif/else chain over guards: (E condition, extra scope, extra choices, prologue)."""
        r = self.r
        arms = []
        news = [(self.fresh(), r.choice(self.types)) for _ in range(r.choice([0, 1, 1, 2]))]
        early = False
        for i, (c, extra, more, pro) in enumerate(guards):
            body = list(pro)
            sc = list(scope) + extra
            self.block(body, sc, insts + more, r.randint(0, 2) if self.o.size > 1 else r.choice([0, 1]), depth - 1, returns)
            last = i == len(guards) - 1
            if returns and r.random() < 0.2 and not (last and exhaustive and early):
                body.append(Ret([self.expr(t, sc) for t in self.outputs]))
                self.features.add('early_return')
                early = True
            for v, t in news:
                body.append(Assign(v, self.expr(t, sc)))
            if not body:
                body.append(Pass())
            arms.append((c, body))
        stmts.append(If(arms))
        if guards[-1][0] is None:
            scope += [self.var(v, t) for v, t in news]
        elif news:
            pass
        self.features.add('if')

    def branch(self, stmts, scope, insts, depth, returns):
        r = self.r
        guards = [(self.cond(scope), [], [], []) for _ in range(r.choice([1, 1, 1, 2]))]
        if r.random() < 0.75:
            guards.append((None, [], [], []))
            self.arms(guards, stmts, scope, insts, depth, returns, True)
        else:
            # no else: assign only what is defined already
            arms = []
            for c, _, _, _ in guards:
                body = []
                sc = list(scope)
                self.block(body, sc, insts, r.randint(1, 2), depth - 1, returns)
                muts = [v for v in scope if v.src.startswith('v') or v.src.startswith(('self.', '(self.'))]
                if muts:
                    v = r.choice(muts)
                    body.append(Assign(lhs(v), self.expr(v.t, sc)))
                if returns and r.random() < 0.35:
                    body.append(Ret([self.expr(t, sc) for t in self.outputs]))
                    self.features.add('early_return')
                arms.append((c, body))
            stmts.append(If(arms))
            self.features.add('if_without_else')

    def switch(self, stmts, scope, insts, depth, returns):
        """Branch over an enum field or the alternatives of a sum."""
        r = self.r
        src, s, get = r.choice(insts)
        if s[0] == 'enum':
            ms = [m for m, _ in s[2]]
            r.shuffle(ms)
            pick = ms[:r.randint(1, min(len(ms), 4))]
            guards = []
            tn = self.tname(s)
            for m in pick:
                if r.random() < 0.2:
                    guards.append((E(BIT, f'({src} != {tn}.{m})', lambda e, m=m: int(get(e) != m)), [], [], []))
                else:
                    guards.append((E(BIT, f'({src} == {tn}.{m})', lambda e, m=m: int(get(e) == m)), [], [], []))
            guards.append((None, [], [], []))
            self.features.add('enum_switch')
            self.arms(guards, stmts, scope, insts, depth, returns, True)
            return
        subs = adtgen.subs(s)
        order = list(range(len(subs)))
        r.shuffle(order)
        guards = []
        for pos, i in enumerate(order):
            key, t = subs[i]
            sub = f'{src}.{key}' if s[0] == 'tu' else f'{src}[{self.tname(t)}]'
            f, c = self.inst_fields(f'{sub}.value', t, lambda e, i=i: get(e)[1] if get(e)[0] == i else adt_default(subs[i][1]), 0)
            last = pos == len(order) - 1
            guards.append((None if last else E(BIT, f'{sub}.match', lambda e, i=i: int(get(e)[0] == i)), f, c, []))
        self.features.add('sum_switch')
        self.arms(guards, stmts, scope, [x for x in insts if x[0] != src], depth, returns, True)

    def tname(self, s):
        return self.names[repr(s)] if hasattr(self, 'names') else TName(self, s)

    # ---- source
    def collect(self, seen=None):
        seen = [] if seen is None else seen
        for _, p in self.subs:
            if p not in seen:
                p.collect(seen)
        if self not in seen:
            seen.append(self)
        return seen

    def source(self, fcname='fc'):
        types = TypeNames()
        progs = self.collect()
        body = []
        for p in progs:
            body += p.class_lines(types)
        out = ['from hwtypes import Bit as HBit, BitVector as HBV, SIntVector as HS, UIntVector as HU',
               'from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion',
               'from peak import Peak, family_closure, Const, name_outputs', '']
        out += types.lines
        fc = ['@family_closure', f'def {fcname}(family):', '    Bit = family.Bit', '    BV = family.BitVector',
              '    Signed = family.Signed', '    Unsigned = family.Unsigned']
        if self.o.params is not None:
            fc += [f'    K{i} = K[{i}]' for i in range(len(self.o.params.cur))]
        fc += ['    ' + l for l in body]
        fc += [f'    return {self.name}', '']
        if self.o.params is not None:
            fc = ['def make(K):'] + ['    ' + l for l in fc] + [f'    return {fcname}', '']
        out += [''] + fc
        text = '\n'.join(out)
        self.type_env = types
        return text

    def class_lines(self, types):
        L = []
        for a, t, init, kind in self.regs:
            if kind == 'attr':
                L.append(f'{self.name}_{a}_t = family.gen_attr_register({tsrc(t)}, {init})')
            elif kind == 'en' and self.r.random() < 0.7:
                L.append(f'{self.name}_{a}_t = family.gen_register({tsrc(t)}, {init})')
            else:
                L.append(f'{self.name}_{a}_t = family.gen_register({tsrc(t)}, {init}, has_enable={kind == "en"})')
        L.append('@family.assemble(locals(), globals())')
        L.append(f'class {self.name}(Peak):')
        if self.regs or self.subs:
            L.append('    def __init__(self):')
            for a, _, _, _ in self.regs:
                L.append(f'        self.{a} = {self.name}_{a}_t()')
            for a, p in self.subs:
                L.append(f'        self.{a} = {p.name}()')
            L.append('')
        args = [f'{n}: {tsrc(t)}' for n, t in self.inputs]
        if self.inst:
            tn = types(self.inst)
            args.insert(self.inst_pos, f'inst: Const({tn})' if self.const_inst else f'inst: {tn}')
        outs = ', '.join(tsrc(t) for t in self.outputs)
        ret = outs if len(self.outputs) == 1 else f'({outs})'
        if self.named:
            L.append('    @name_outputs(%s)' % ', '.join(f'out{i}={tsrc(t)}' for i, t in enumerate(self.outputs)))
            if self.o.hw:
                L.append(f'    def __call__(self, {", ".join(args)}) -> {ret}:')
            else:
                L.append(f'    def __call__(self, {", ".join(args)}):')
        else:
            L.append(f'    def __call__(self, {", ".join(args)}) -> {ret}:')
        for s in self.body:
            L += ['        ' + l for l in s.emit(types)]
        L.append('')
        return L

    def arg_names(self):
        names = [n for n, _ in self.inputs]
        if self.inst:
            names.insert(self.inst_pos, 'inst')
        return names

    # ---- meaning
    def init_state(self):
        st = {'self.' + a: int(init) for a, _, init, _ in self.regs}
        for a, p in self.subs:
            st[a] = p.init_state()
        return st

    def step(self, state, inputs):
        """inputs: name -> int (inst: value as in adtgen). Updates state, returns the output ints."""
        env = dict(inputs)
        env.update({k: v for k, v in state.items()})
        env['#state'] = state
        out = None
        for s in self.body:
            out = s.run(env)
            if out is not None:
                break
        for a, t, _, kind in self.regs:
            if kind == 'attr':
                state['self.' + a] = env['self.' + a]
        return out

    def rand_inputs(self, rng):
        d = {n: rng.choice([0, mask(t), rng.randint(0, mask(t)), rng.randint(0, mask(t)), rng.randint(0, mask(t))]) for n, t in self.inputs}
        if self.inst:
            d['inst'] = adtgen.rand_value(self.inst, rng)
        return d


def sign_leaves(s):
    if s[0] in ('s', 'u'):
        return [(s[0], s[1])]
    if s[0] in ('bit', 'bv', 'enum'):
        return []
    return [x for _, t in adtgen.subs(s) for x in sign_leaves(t)]


def adt_default(s):
    return adtgen.rand_value(s, _Zero())


class _Zero:
    def randint(self, a, b):
        return a

    def choice(self, l):
        return l[0]

    def randrange(self, n):
        return 0


class TName:
    """A type name in source text, resolved when the source is written."""
    table = {}

    def __init__(self, prog, spec):
        self.spec = spec

    def __format__(self, f):
        key = f'\x01{len(TName.table)}\x02'
        TName.table[key] = self.spec
        return key


class TypeNames:
    """Module-level declarations of the instruction types a program uses."""
    def __init__(self):
        self.lines, self.names, self.used = [], {}, set()

    def __call__(self, s):
        k = s[0]
        if k == 'bit':
            return 'HBit'
        if k in ('bv', 's', 'u'):
            return {'bv': 'HBV', 's': 'HS', 'u': 'HU'}[k] + f'[{s[1]}]'
        key = repr(s)
        if key in self.names:
            return self.names[key]
        if k == 'enum':
            n = self.fresh('T_' + s[1])
            self.lines += [f'class {n}(Enum):'] + [f'    {m} = {"Enum.Auto()" if v is None else v}' for m, v in s[2]] + ['']
        elif k in ('prod', 'tu'):
            fs = [(f, self(t)) for f, t in s[2]]
            n = self.fresh('T_' + s[1])
            self.lines += [f'class {n}({"Product" if k == "prod" else "TaggedUnion"}):'] + [f'    {f} = {t}' for f, t in fs] + ['']
        else:
            ts = [self(t) for t in (s[1])]
            n = self.fresh('Sum_' if k == 'sum' else 'Tuple_')
            self.lines += [f'{n} = {"Sum" if k == "sum" else "Tuple"}[{", ".join(ts)}]', '']
        self.names[key] = n
        return n

    def fresh(self, base):
        n = base
        i = 0
        while n in self.used or n in ('A', 'B', 'Bit', 'BV'):
            i += 1
            n = f'{base}_{i}'
        self.used.add(n)
        return n

    def resolve(self, src):
        while '\x01' in src:
            a = src.index('\x01')
            b = src.index('\x02', a)
            src = src[:a] + self(TName.table[src[a:b + 1]]) + src[b + 1:]
        return src


class Assign:
    def __init__(self, v, e):
        self.v, self.e = v, e

    def emit(self, T):
        return [f'{self.v} = {T.resolve(self.e.src)}']

    def run(self, env):
        env[self.v] = self.e.ev(env)


class Pass:
    def emit(self, T):
        return ['pass']

    def run(self, env):
        pass


class Ret:
    def __init__(self, es):
        self.es = es

    def emit(self, T):
        return ['return ' + ', '.join(T.resolve(e.src) for e in self.es)]

    def run(self, env):
        return [e.ev(env) for e in self.es]


class Prev:
    def __init__(self, v, reg, tail=''):
        # magma gives the register itself: use it in an operation
        self.v, self.reg, self.tail = v, reg, tail

    def emit(self, T):
        return [f'{self.v} = self.{self.reg}.prev(){self.tail}']

    def run(self, env):
        env[self.v] = env['#state']['self.' + self.reg]


class CallReg:
    def __init__(self, reg, val, en, v):
        self.reg, self.val, self.en, self.v = reg, val, en, v

    def emit(self, T):
        args = T.resolve(self.val.src) + (', ' + T.resolve(self.en.src) if self.en else '')
        return [f'{self.v} = self.{self.reg}({args})']

    def run(self, env):
        st = env['#state']
        k = 'self.' + self.reg
        val = self.val.ev(env)
        old = st[k]
        if self.en is None or self.en.ev(env):
            st[k] = val
        env[self.v] = old


class CallSub:
    def __init__(self, attr, prog, args, outs, r):
        self.attr, self.prog, self.args, self.outs = attr, prog, args, outs

    def emit(self, T):
        return [f'{", ".join(self.outs)} = self.{self.attr}({", ".join(T.resolve(a.src) for a in self.args)})']

    def run(self, env):
        ins = {n: a.ev(env) for (n, _), a in zip(self.prog.inputs, self.args)}
        outs = self.prog.step(env['#state'][self.attr], ins)
        for v, o in zip(self.outs, outs):
            env[v] = o


class If:
    def __init__(self, arms):
        self.arms = arms

    def emit(self, T):
        L = []
        for i, (c, body) in enumerate(self.arms):
            if c is None:
                L.append('else:') if i else L.append('if True:')
            else:
                L.append(f'{"elif" if i else "if"} {T.resolve(c.src)}:')
            for s in body:
                L += ['    ' + l for l in s.emit(T)]
        return L

    def run(self, env):
        for c, body in self.arms:
            if c is None or c.ev(env):
                for s in body:
                    out = s.run(env)
                    if out is not None:
                        return out
                return None

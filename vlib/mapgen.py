"""Tiny random architectures and instructions for the mapper, as peak source, with a table oracle on plain ints.

A design has typed inputs (leaves, products, tuples, sums, tagged unions, some
Const), a body that is a decision tree over the inputs with one expression per
output in each leaf, and optional black boxes called first. Expressions carry
no behaviour of their own: each renders as peak source and as Python int source,
and the int source of a whole design is compiled to one function of its leaves.
Widths are small enough to run every input, so that whether a routing is a
correct rule is decided by exhaustion.
"""
import itertools, re
from vlib.core import Skip

BIT = ('bit',)


def width(t, enums=None):
    if t == BIT:
        return 1
    if t[0] == 'enum':
        return enum_width(t)
    return t[1]


def enum_width(t):
    return max(max(v for _, v in t[2]).bit_length(), 1) if len(t[2]) > 1 or t[2][0][1] else (t[2][0][1]).bit_length()


def values(t):
    if t == BIT:
        return [0, 1]
    if t[0] == 'enum':
        return sorted({v for _, v in t[2]})
    return list(range(1 << t[1]))


class Leaf:
    """A leaf of the inputs: its path in the mapper's terms, type, constness and the choices it needs."""
    def __init__(self, path, src, t, const, choices, var):
        self.path, self.src, self.t, self.const, self.choices, self.var = path, src, t, const, choices, var

    def __repr__(self):
        return f'{self.path}:{self.t}{"c" if self.const else ""}'


class X:
    """Expression node."""
    __slots__ = ('t', 'op', 'kids', 'arg')

    def __init__(self, t, op, kids=(), arg=None):
        self.t, self.op, self.kids, self.arg = t, op, tuple(kids), arg

    def leaves(self):
        if self.op in ('leaf', 'box'):
            return {self.arg}
        return set().union(*(k.leaves() for k in self.kids)) if self.kids else set()


def lit(t, v):
    return X(t, 'lit', (), v)


BIN = {'+': '(({0}+{1})&{m})', '-': '(({0}-{1})&{m})', '&': '({0}&{1})', '|': '({0}|{1})', '^': '({0}^{1})',
       '*': '(({0}*{1})&{m})', '<<': '((({0}<<{1})&{m}) if {1}<{n} else 0)', '>>': '(({0}>>{1}) if {1}<{n} else 0)'}
CMP = {'==': 'int({0}=={1})', '!=': 'int({0}!={1})', '<': 'int({0}<{1})', '<=': 'int({0}<={1})', '>': 'int({0}>{1})', '>=': 'int({0}>={1})'}


def tsrc(t):
    """Source of a leaf type inside a design."""
    if t == BIT:
        return 'Bit'
    if t[0] == 'enum':
        return t[1]
    return f'{"BV" if t[0] == "bv" else "Signed"}[{t[1]}]'


def psrc(x):
    """Peak source."""
    k = [psrc(a) for a in x.kids]
    if x.op == 'leaf':
        return x.arg.src
    if x.op == 'box':
        return x.arg
    if x.op == 'lit':
        if x.t[0] == 'enum':
            return f'{x.t[1]}.{dict((v, m) for m, v in x.t[2])[x.arg]}'
        return f'{tsrc(x.t)}({x.arg})'
    if x.op in CMP and x.kids[0].t[0] == 'enum':
        return f'Bit({k[0]} {x.op} {k[1]})'         # plain enums compare to a bool
    if x.op in BIN or x.op in CMP:
        return f'({k[0]} {x.op} {k[1]})'
    if x.op == '~':
        return f'(~{k[0]})'
    if x.op == 'neg':
        return f'(-{k[0]})'
    if x.op == 'ite':
        return f'{k[0]}.ite({k[1]}, {k[2]})'
    if x.op == 'sel':
        return f'{k[0]}[{x.arg}]'
    if x.op == 'slice':
        return f'{k[0]}[{x.arg}:{x.arg + x.t[1]}]'
    if x.op == 'zext':
        return f'{k[0]}.zext({x.arg})'
    if x.op == 'concat':
        return f'{tsrc(x.t).split("[")[0]}.concat({k[0]}, {k[1]})'
    if x.op == 'cast':
        return f'{tsrc(x.t)}({k[0]})'
    raise AssertionError(x.op)


def isrc(x):
    """Python int source."""
    k = [isrc(a) for a in x.kids]
    if x.op == 'leaf':
        return x.arg.var
    if x.op == 'box':
        return x.arg
    if x.op == 'lit':
        return str(x.arg)
    if x.op in BIN or x.op in CMP:
        n = width(x.kids[0].t)
        if x.kids[0].t[0] == 's' and (x.op in ('<', '<=', '>', '>=') or x.op == '>>'):
            h = 1 << (n - 1)
            sa, sb = f'(({k[0]}^{h})-{h})', f'(({k[1]}^{h})-{h})'
            if x.op == '>>':
                return f'(({sa}>>min({k[1]},{n}))&{(1 << n) - 1})'
            return CMP[x.op].format(sa, sb)
        return (BIN.get(x.op) or CMP.get(x.op)).format(*k, m=(1 << n) - 1, n=n)
    if x.op == '~':
        return f'({k[0]}^{(1 << width(x.t)) - 1})'
    if x.op == 'neg':
        return f'((-{k[0]})&{(1 << width(x.t)) - 1})'
    if x.op == 'ite':
        return f'({k[1]} if {k[0]} else {k[2]})'
    if x.op == 'sel':
        return f'(({k[0]}>>{x.arg})&1)'
    if x.op == 'slice':
        return f'(({k[0]}>>{x.arg})&{(1 << x.t[1]) - 1})'
    if x.op in ('zext', 'cast'):
        return k[0]
    if x.op == 'concat':
        return f'({k[0]}|({k[1]}<<{x.kids[0].t[1]}))'
    raise AssertionError(x.op)


def subst(x, env):
    """Replace leaves by expressions."""
    if x.op in ('leaf', 'box') and x.arg in env:
        return env[x.arg]
    return X(x.t, x.op, [subst(k, env) for k in x.kids], x.arg) if x.kids else x


# decision trees: ('out', [X, ...]) | ('if', X, tree, tree) | ('case', Leaf, [(value, tree)]) | ('match', spath, src, [(alt, access, tree)])

def tree_src(tr, outs, ind, early=False, first=True):
    p = '    ' * ind
    if tr[0] == 'out':
        if early:
            return [p + 'return ' + ', '.join(psrc(x) for x in tr[1])]
        return [p + f'{o} = {psrc(x)}' for o, x in zip(outs, tr[1])]
    L = []
    if tr[0] == 'if':
        L.append(p + f'if {psrc(tr[1])}:')
        L += tree_src(tr[2], outs, ind + 1, early)
        L.append(p + 'else:')
        L += tree_src(tr[3], outs, ind + 1, early)
    elif tr[0] == 'case':
        leaf, arms = tr[1], tr[2]
        for i, (v, sub) in enumerate(arms):
            c = f'{leaf.src} == {psrc(lit(leaf.t, v))}'
            L.append(p + ('else:' if i == len(arms) - 1 and i else (f'if {c}:' if i == 0 else f'elif {c}:')))
            L += tree_src(sub, outs, ind + 1, early)
        if len(arms) == 1:
            L = tree_src(arms[0][1], outs, ind, early)
    else:
        arms = tr[3]
        for i, (alt, acc, sub) in enumerate(arms):
            L.append(p + ('else:' if i == len(arms) - 1 and i else ('if ' if i == 0 else 'elif ') + acc + '.match:'))
            L += tree_src(sub, outs, ind + 1, early)
        if len(arms) == 1:
            L = tree_src(arms[0][2], outs, ind, early)
    return L


def tree_int(tr):
    if tr[0] == 'out':
        return '(' + ''.join(isrc(x) + ',' for x in tr[1]) + ')'
    if tr[0] == 'if':
        return f'({tree_int(tr[2])} if {isrc(tr[1])} else {tree_int(tr[3])})'
    if tr[0] == 'case':
        s = tree_int(tr[2][-1][1])
        for v, sub in reversed(tr[2][:-1]):
            s = f'({tree_int(sub)} if {tr[1].var}=={v} else {s})'
        return s
    s = tree_int(tr[3][-1][2])
    for i, (alt, acc, sub) in reversed(list(enumerate(tr[3]))[:-1]):
        s = f'({tree_int(sub)} if {tr[1]}=={i} else {s})'
    return s


class Types:
    """Module-level type declarations."""
    def __init__(self, pre=''):
        self.lines, self.n, self.pre = [], 0, pre

    def fresh(self, base):
        self.n += 1
        return f'{self.pre}{base}{self.n}'

    def src(self, t):
        k = t[0]
        if k == 'bit':
            return 'HBit'
        if k == 'bv':
            return f'HBV[{t[1]}]'
        if k == 's':
            return f'HS[{t[1]}]'
        if k == 'const':
            return f'Const({self.src(t[1])})'
        return t[1]

    def enum(self, members):
        n = self.fresh('E')
        self.lines += [f'class {n}(Enum):'] + [f'    {m} = {v}' for m, v in members] + ['']
        return ('enum', n, tuple(members))

    def struct(self, kind, fields):
        n = self.fresh({'prod': 'P', 'tup': 'T', 'sum': 'S', 'tu': 'U'}[kind])
        if kind in ('prod', 'tu'):
            self.lines += [f'class {n}({"Product" if kind == "prod" else "TaggedUnion"}):'] + [f'    {f} = {self.src(t)}' for f, t in fields] + ['']
        else:
            self.lines += [f'{n} = {"Tuple" if kind == "tup" else "Sum"}[{", ".join(self.src(t) for _, t in fields)}]', '']
        return (kind, n, tuple(fields))


class Opts:
    def __init__(self, sums=True, enums=True, structs=True, signed=True, boxes=0, maxw=3, consts=True, early=True, outs=3, nested_out=True, kc=False):
        # kc: many constants of a data type, which instructions also take as constants
        self.__dict__.update(locals())


class Design:
    """inputs: [(name, const, type)]; outputs: [type]; a body tree over leaves."""
    def __init__(self, name, T):
        self.name, self.T = name, T
        self.inputs, self.outputs, self.boxes = [], [], []
        self.early = False
        self.named = True
        self.onames = None
        self.ogroups = None

    def finish_inputs(self):
        self.leaves, self.sums = [], []
        for n, const, t in self.inputs:
            self.walk((n,), n, t, const, ())
        by = {}
        for s, alts in self.sums:
            by[s] = alts
        self.forms = []
        self.forms_of()

    def walk(self, path, src, t, const, choices):
        k = t[0]
        if k in ('bit', 'bv', 's', 'enum'):
            self.leaves.append(Leaf(path, src, t, const, choices, f'v{len(self.leaves)}'))
        elif k == 'const':
            self.walk(path, src, t[1], True, choices)
        elif k == 'prod':
            for f, u in t[2]:
                self.walk(path + (f,), f'{src}.{f}', u, const, choices)
        elif k == 'tup':
            for i, (_, u) in enumerate(t[2]):
                self.walk(path + (i,), f'{src}[{i}]', u, const, choices)
        else:
            alts = []
            sid = f's{len(self.sums)}'
            self.sums.append((sid, alts))
            for i, (f, u) in enumerate(t[2]):
                el = f if k == 'tu' else ('type', u)
                acc = f'{src}.{f}' if k == 'tu' else f'{src}[{self.T.src(u)}]'
                alts.append((i, el, acc))
                self.walk(path + (el,), acc + '.value', u, const, choices + ((sid, i),))

    def forms_of(self):
        """Choice combinations, with nested sums only present where reached."""
        counter = itertools.count()

        def expand_at(t):
            k = t[0]
            if k == 'const':
                return expand_at(t[1])
            if k in ('sum', 'tu'):
                sid = f's{next(counter)}'
                res = []
                for i, (_, u) in enumerate(t[2]):
                    res += [((sid, i),) + r for r in expand_at(u)]
                return res
            if k in ('prod', 'tup'):
                res = [()]
                for _, u in t[2]:
                    sub = expand_at(u)
                    res = [a + b for a in res for b in sub]
                return res
            return [()]
        res = [()]
        for _, _, t in self.inputs:
            sub = expand_at(t)
            res = [a + b for a in res for b in sub]
        self.forms = [dict(r) for r in res]

    def form_leaves(self, form):
        return [l for l in self.leaves if all(form.get(s) == i for s, i in l.choices)]

    # ---- rendering
    def source(self):
        T = self.T
        ins = ', '.join(f'{n}: {"Const(" if c else ""}{T.src(t)}{")" if c else ""}' for n, c, t in self.inputs)
        L = ['@family_closure', f'def {self.name}_fc(family):', '    Bit = family.Bit', '    BV = family.BitVector', '    Signed = family.Signed']
        for n in sorted({self.held(a, b) for a, b, _, _ in self.boxes}):
            L.append(f'    {n}_c = {n}_fc(family)')
        L += ['', '    @family.assemble(locals(), globals())', f'    class {self.name}(Peak):']
        if self.boxes:
            L.append('        def __init__(self):')
            for a, b, _, _ in self.boxes:
                n = self.held(a, b)
                L.append(f'            self.{a}: {n}_c = {n}_c()')
            L.append('')
        otop = self.otop()
        if self.named:
            L.append('        @name_outputs(' + ', '.join(f'{n}={T.src(t)}' for n, t, _ in otop) + ')')
            L.append(f'        def __call__(self, {ins}):')
        else:
            o = [T.src(t) for _, t, _ in otop]
            L.append(f'        def __call__(self, {ins}) -> {o[0] if len(o) == 1 else "(" + ", ".join(o) + ")"}:')
        for a, b, args, outs in self.boxes:
            L.append(f'            {", ".join(outs)} = self.{a}({", ".join(psrc(x) for x in args)})')
        ov = [f'r{i}' for i in range(len(self.outputs))]
        L += tree_src(self.tree, ov, 3, self.early)
        if not self.early:
            L.append('            return ' + ', '.join(
                f'family.get_constructor({t[1]})({", ".join(ov[j] for j in js)})' if t[0] in ('prod', 'tup') else ov[js[0]]
                for _, t, js in otop))
        L.append(f'    return {self.name}')
        return '\n'.join(L) + '\n'

    def held(self, attr, b):
        return b.name + ('W' if attr.startswith('w') else '')

    def group_outputs(self, r):
        """Collect some outputs in Products and Tuples."""
        n, i, gs = len(self.outputs), 0, []
        while i < n:
            k = r.randint(1, n - i)
            ts = self.outputs[i:i + k]
            if k > 1 or r.random() < 0.3:
                names = r.sample(['x', 'y', 'out', 'r', 'v0'], k)
                kind = r.choice(['prod', 'prod', 'tup'])
                gs.append((self.T.struct(kind, list(zip(names, ts))), i, k))
            else:
                gs.append((ts[0], i, 1))
            i += k
        self.ogroups, self.early = gs, False

    def otop(self):
        """The declared outputs: [(name, type, outputs it holds)]."""
        gs = self.ogroups or [(t, i, 1) for i, t in enumerate(self.outputs)]
        return [(self.onames[i] if self.named else i, t, range(a, a + k)) for i, (t, a, k) in enumerate(gs)]

    def out_paths(self):
        res = []
        for n, t, js in self.otop():
            if t[0] in ('prod', 'tup'):
                res += [(n, f if t[0] == 'prod' else i) for i, (f, _) in enumerate(t[2])]
            else:
                res.append((n,))
        return res

    def compile(self):
        """f(env, table of box functions) with env: var -> int, sid -> alternative."""
        args = [l.var for l in self.leaves] + [s for s, _ in self.sums] + ['F']
        body = ''
        for a, b, xs, outs in self.boxes:
            body += f'    {"".join(o + "," for o in outs)} = F[{b.name!r}][({"".join(isrc(x) + "," for x in xs)})]\n'
        src = f'def f({", ".join(a + "=None" for a in args)}):\n{body}    return {tree_int(self.tree)}\n'
        ns = {}
        exec(src, ns)
        self.f = ns['f']
        return self.f


class Box:
    """A black box kind: named signature."""
    def __init__(self, name, ins, outs):
        self.name, self.ins, self.outs = name, ins, outs
        self.cname = name           # of the class, which kinds may share

    def source(self):
        ins = ', '.join(f'x{i}: {tsrc(t)}' for i, t in enumerate(self.ins))
        L = ['@family_closure', f'def {self.name}_fc(family):', '    Bit = family.Bit', '    BV = family.BitVector', '    Signed = family.Signed', '',
             '    @family.assemble(locals(), globals())', f'    class {self.cname}(Peak, BlackBox):',
             '        @name_outputs(' + ', '.join(f'y{i}={tsrc(t)}' for i, t in enumerate(self.outs)) + ')',
             f'        def __call__(self, {ins}):',
             '            return ' + ', '.join(psrc(x) for x in self.body),
             f'    return {self.cname}', '']
        # a component that holds the box
        L += ['@family_closure', f'def {self.name}W_fc(family):', '    Bit = family.Bit', '    BV = family.BitVector', f'    {self.name}_c = {self.name}_fc(family)', '',
              '    @family.assemble(locals(), globals())', f'    class {self.cname}W(Peak):',
              '        def __init__(self):', f'            self.held: {self.name}_c = {self.name}_c()', '',
              '        @name_outputs(' + ', '.join(f'y{i}={tsrc(t)}' for i, t in enumerate(self.outs)) + ')',
              f'        def __call__(self, {ins}):',
              f'            {", ".join(f"z{i}" for i in range(len(self.outs)))} = self.held({", ".join(f"x{i}" for i in range(len(self.ins)))})',
              f'            return {", ".join(f"z{i}" for i in range(len(self.outs)))}',
              f'    return {self.cname}W']
        return '\n'.join(L) + '\n'

    def own(self):
        """The function of the box's own body."""
        f = eval(f'lambda {", ".join(f"x{i}" for i in range(len(self.ins)))}: ({"".join(isrc(x) + "," for x in self.body)})')
        return {a: f(*a) for a in self.domain()}

    def domain(self):
        return list(itertools.product(*[values(t) for t in self.ins]))

    def functions(self):
        """Number of possible functions."""
        n = 1
        for t in self.outs:
            n *= 1 << width(t)
        return n ** len(self.domain())

    def random(self, rng):
        return {a: tuple(rng.randrange(1 << width(t)) for t in self.outs) for a in self.domain()}

    def all(self):
        outs = list(itertools.product(*[range(1 << width(t)) for t in self.outs]))
        dom = self.domain()
        for c in itertools.product(outs, repeat=len(dom)):
            yield dict(zip(dom, c))


class Gen:
    """Generator of an architecture and of instructions derived from it."""
    def __init__(self, rng, opts=None):
        self.r, self.o = rng, opts or Opts()
        self.T = Types()
        r = rng
        self.w = r.choice([1, 2, 2, 2, 3]) if self.o.maxw >= 3 else r.randint(1, self.o.maxw)
        self.types = [BIT, ('bv', self.w), ('bv', self.w)]
        if r.random() < 0.3:
            self.types.append(('bv', r.randint(1, 3)))
        if self.o.signed and r.random() < 0.15:
            self.types.append(('s', self.w))
        self.enums = []
        if self.o.enums and r.random() < 0.25:
            n = r.choice([2, 4])
            vs = list(range(n))
            r.shuffle(vs)
            e = self.T.enum([(f'm{i}', v) for i, v in enumerate(vs)])
            self.enums.append(e)
            self.types.append(e)
        self.boxes = []
        for i in range(self.o.boxes):
            while True:
                nb = r.choice([1, 1, 2])
                b = Box(f'Bx{i}', [r.choice([t for t in self.types if t[0] in ('bit', 'bv') and width(t) <= 2] or [BIT]) for _ in range(nb)],
                        [r.choice([t for t in self.types if t[0] in ('bit', 'bv') and width(t) <= 2] or [BIT]) for _ in range(r.choice([1, 1, 1, 2]))])
                if sum(width(t) for t in b.ins) <= 2:
                    break
            if self.boxes and r.random() < 0.5:
                b.ins, b.outs = self.boxes[0].ins, self.boxes[0].outs
            scope = [X(t, 'leaf', (), Leaf((f'x{k}',), f'x{k}', t, False, (), f'x{k}')) for k, t in enumerate(b.ins)]
            b.body = [self.expr(t, scope) for t in b.outs]
            self.boxes.append(b)
        if self.boxes and r.random() < 0.3:
            for b in self.boxes:
                b.cname = 'Unit'
        self.nir = 0
        self.similar = False

    # ---- types of the arch
    def op_enum(self):
        r = self.r
        n = r.choice([2, 2, 3, 3, 4])
        vs = r.sample(range(r.choice([n, 4, 6]) if n <= 4 else n), n) if r.random() < 0.7 else list(range(n))
        return self.T.enum([(f'o{i}', v) for i, v in enumerate(vs)])

    def inst_type(self, d):
        """Type of a configuration input."""
        r = self.r
        k = r.random()
        if d <= 0 or k < (0.05 if self.o.kc else 0.2):
            j = r.random()
            if j < (0.25 if self.o.kc else 0.55):
                return self.op_enum()
            if j < (0.35 if self.o.kc else 0.7):
                return BIT
            return ('bv', self.w)
        if k < (0.3 if self.o.kc and d > 1 else 0.65) or not self.o.sums:
            fs = [self.inst_type(d - 1) for _ in range(r.choice([1, 2, 2, 3]))]
            if r.random() < 0.7:
                return self.T.struct('prod', [(f, t) for f, t in zip(r.sample(['op', 'imm', 'neg', 'x', 'sel'], len(fs)), fs)])
            return self.T.struct('tup', [(None, t) for t in fs])
        fs = [self.inst_type(d - 1) for _ in range(r.choice([2, 2, 3]))]
        if r.random() < 0.5:
            return self.T.struct('tu', [(f, t) for f, t in zip(r.sample(['alu', 'bit', 'br', 'im', 'z'], len(fs)), fs)])
        seen = []
        for t in fs:
            if t not in seen:
                seen.append(t)
        if len(seen) < 2:
            seen.append(self.op_enum())
        return self.T.struct('sum', [(None, t) for t in seen])

    def sum_data(self):
        """A data input choosing between alternatives; those of a Sum share field names."""
        r = self.r
        if r.random() < 0.4:
            return self.T.struct('tu', [('ua', r.choice(self.types)), ('ub', r.choice(self.types))])
        f, g = r.sample('pqrst', 2)
        t, u = r.choice(self.types), r.choice(self.types)
        alts = [[(f, t)], r.choice([[(f, t), (g, u)], [(g, u), (f, t)], [(f, u)], [(g, t)]])]
        if alts[1] == alts[0]:
            alts[1] = [(f, t), (g, u)]
        r.shuffle(alts)
        self.similar = True
        return self.T.struct('sum', [(None, self.T.struct('prod', a)) for a in alts])

    def data_type(self):
        r = self.r
        if self.o.structs and r.random() < 0.12:
            fs = [r.choice(self.types) for _ in range(r.choice([1, 2, 2]))]
            if self.o.consts and r.random() < 0.35:
                # configuration bits carried inside a data input
                fs.append(('const', self.op_enum() if r.random() < 0.5 else r.choice(self.types)))
            if r.random() < 0.6:
                return self.T.struct('prod', [(f, t) for f, t in zip(r.sample('pqrst', len(fs)), fs)])
            return self.T.struct('tup', [(None, t) for t in fs])
        return r.choice(self.types)

    # ---- expressions over scope: list of X
    def atom(self, t, scope):
        r = self.r
        c = [x for x in scope if x.t == t]
        if t[0] == 'enum' and not c:
            raise Skip('no source of an enum value')
        if c and (t[0] == 'enum' or r.random() < 0.9):
            return r.choice(c)
        if t == BIT:
            v = [x for x in scope if x.t[0] == 'bv']
            e = [x for x in scope if x.t[0] == 'enum']
            if e and r.random() < 0.5:
                x = r.choice(e)
                return X(BIT, '==', (x, lit(x.t, r.choice(values(x.t)))))
            if v and r.random() < 0.8:
                x = r.choice(v)
                return X(BIT, 'sel', (x,), r.randrange(x.t[1]))
        elif t[0] == 'bv':
            wide = [x for x in scope if x.t[0] == 'bv' and x.t[1] > t[1]]
            nar = [x for x in scope if x.t[0] == 'bv' and x.t[1] < t[1]]
            if wide and r.random() < 0.6:
                x = r.choice(wide)
                return X(t, 'slice', (x,), r.randint(0, x.t[1] - t[1]))
            if nar:
                x = r.choice(nar)
                return X(t, 'zext', (x,), t[1] - x.t[1])
            s = [x for x in scope if x.t == ('s', t[1])]
            if s:
                return X(t, 'cast', (r.choice(s),))
        elif t[0] == 's':
            s = [x for x in scope if x.t == ('bv', t[1])]
            if s and r.random() < 0.8:
                return X(t, 'cast', (r.choice(s),))
        if c:
            return r.choice(c)
        return lit(t, r.choice(values(t)))

    def expr(self, t, scope, d=None):
        r = self.r
        if d is None:
            d = r.choice([0, 1, 1, 2])
        if d <= 0 or t[0] == 'enum':
            return self.atom(t, scope)
        if r.random() < 0.1:
            c, a, b = self.expr(BIT, scope, d - 1), self.expr(t, scope, d - 1), self.expr(t, scope, d - 1)
            if a.op != 'lit' and c.op != 'lit' and b.op != 'lit':
                return X(t, 'ite', (c, a, b))
        if t == BIT:
            if r.random() < 0.45:
                vs = [u for u in self.types if u[0] in ('bv', 's')]
                u = r.choice(vs)
                a, b = self.expr(u, scope, d - 1), self.expr(u, scope, d - 1)
                if a.op == 'lit':
                    a, b = b, a
                if a.op != 'lit':
                    return X(BIT, r.choice(list(CMP)), (a, b))
            if r.random() < 0.3:
                a = self.expr(BIT, scope, d - 1)
                return X(BIT, '~', (a,)) if a.op != 'lit' else a
            a, b = self.expr(BIT, scope, d - 1), self.expr(BIT, scope, d - 1)
            return X(BIT, r.choice('&|^'), (a, b)) if a.op != 'lit' else b
        op = r.choice(['+', '+', '-', '-', '&', '|', '^', '~', 'neg', '*', '<<', '>>'])
        a = self.expr(t, scope, d - 1)
        if a.op == 'lit':
            return self.atom(t, scope)
        if op in ('~', 'neg'):
            return X(t, op, (a,))
        return X(t, op, (a, self.expr(t, scope, d - 1)))

    # ---- architecture
    def arch(self, name='Arch'):
        r = self.r
        D = Design(name, self.T)
        for attempt in range(200):
            self.T.lines, keep = list(self.T.lines), list(self.T.lines)
            D.inputs = []
            nd = r.choice([1, 2, 2, 3])
            for i in range(nd):
                D.inputs.append((f'd{i}', False, self.data_type()))
            nc = r.choice([1, 1, 1, 2]) if self.o.consts else 0
            for i in range(nc):
                # a Const leaf of a data type can also take an instruction's constant
                t = self.inst_type(r.choice([1, 2, 2, 3] if self.o.kc else [0, 1, 1, 2, 2]) if i == 0 else 0)
                D.inputs.append((['inst', 'cfg'][i], True, t))
            if self.o.sums and r.random() < 0.16:
                D.inputs.append(('u', False, self.sum_data()))
            r.shuffle(D.inputs)
            D.finish_inputs()
            db = sum(width(l.t) for l in D.leaves if not l.const)
            cb = sum(width(l.t) for l in D.leaves if l.const)
            if db <= 7 and cb <= (7 if self.o.kc else 9) and len(D.forms) <= 5 and len(D.leaves) <= (7 if self.o.kc else 8):
                break
            self.T.lines = keep
        else:
            raise Skip('no architecture of the size wanted')
        no = r.choice([1, 1, 2, 2, 3][:self.o.outs + 2])
        plain = {l.t for l in D.leaves if not l.choices and not l.const}
        D.outputs = [r.choice([t for t in self.types if t[0] != 'enum' or t in plain]) for _ in range(no)]
        D.onames = r.sample(['out', 'res', 'o0', 'o1', 'flag'], no)
        D.named = r.random() < 0.7
        scope = [X(l.t, 'leaf', (), l) for l in D.leaves if not l.choices]
        self.call_boxes(D, scope)
        D.early = self.o.early and r.random() < 0.3 and not D.boxes
        if self.o.nested_out and r.random() < 0.25:
            D.group_outputs(r)
        D.tree = self.tree(D, D.inputs, scope)
        D.compile()
        return D

    def call_boxes(self, D, scope):
        r = self.r
        if not self.boxes:
            return
        for i in range(r.choice([1, 1, 2, 2, 3])):
            b = r.choice(self.boxes)
            args = [self.expr(t, scope, r.choice([0, 0, 1])) for t in b.ins]
            outs = [f't{i}_{j}' for j in range(len(b.outs))]
            D.boxes.append((f'{r.choice(["bb", "bb", "w"])}{i}', b, args, outs))
            scope += [X(t, 'box', (), o) for t, o in zip(b.outs, outs)]

    def tree(self, D, inputs, scope):
        """Decisions over the configuration leaves, then over data."""
        r = self.r
        todo = []
        for l in D.leaves:
            if not l.choices and l.t[0] == 'enum' and r.random() < 0.95:
                todo.append(('case', l))
        for sid, alts in D.sums:
            if not self.nested(D, sid):
                todo.append(('match', sid))
        r.shuffle(todo)
        return self.branch(D, todo, scope, 0)

    def nested(self, D, sid):
        """Whether a sum lies below an alternative of another."""
        for l in D.leaves:
            names = [s for s, _ in l.choices]
            if sid in names and names.index(sid) > 0:
                return True
        return False

    def branch(self, D, todo, scope, depth, ctx=()):
        r = self.r
        if not todo:
            if depth < 3 and r.random() < 0.2:
                c = self.expr(BIT, scope, 1)
                if c.op != 'lit':
                    return ('if', c, self.branch(D, [], scope, depth + 2, ctx), self.branch(D, [], scope, depth + 2, ctx))
            return ('out', [self.expr(t, scope) for t in D.outputs])
        k, w = todo[0]
        if k == 'case':
            vs = values(w.t)
            r.shuffle(vs)
            if len(vs) > 2 and r.random() < 0.3:
                vs = vs[:-1]
            rest = todo[1:] if depth < 3 else [t for t in todo[1:] if t[0] == 'match']
            return ('case', w, [(v, self.branch(D, rest, scope, depth + 1, ctx)) for v in vs])
        alts = dict(D.sums)[w]
        arms = []
        for i, el, acc in alts:
            c2 = ctx + ((w, i),)
            new = [l for l in D.leaves if l.choices == c2 or (l.choices[:len(c2)] == c2 and len(l.choices) == len(c2))]
            sub = [('case', l) for l in new if l.t[0] == 'enum' and r.random() < 0.9]
            inner = []
            for l in D.leaves:
                if l.choices[:len(c2)] == c2 and len(l.choices) > len(c2):
                    s2 = l.choices[len(c2)][0]
                    if ('match', s2) not in inner:
                        inner.append(('match', s2))
            arms.append((el, acc, self.branch(D, inner + sub[:1] + todo[1:], scope + [X(l.t, 'leaf', (), l) for l in new], depth + 1, c2)))
        return ('match', w, None, arms)

    # ---- instruction derived from the architecture
    def residual(self, tr, env, form):
        if tr[0] == 'out':
            return ('out', [fold(subst(x, env)) for x in tr[1]])
        if tr[0] == 'if':
            c = fold(subst(tr[1], env))
            if c.op == 'lit':
                return self.residual(tr[2] if c.arg else tr[3], env, form)
            return ('if', c, self.residual(tr[2], env, form), self.residual(tr[3], env, form))
        if tr[0] == 'case':
            x = env.get(tr[1])
            if x is not None and x.op == 'lit':
                for v, sub in tr[2][:-1]:
                    if v == x.arg:
                        return self.residual(sub, env, form)
                return self.residual(tr[2][-1][1], env, form)
            y = x or X(tr[1].t, 'leaf', (), tr[1])
            s = self.residual(tr[2][-1][1], env, form)
            for v, sub in reversed(tr[2][:-1]):
                s = ('if', X(BIT, '==', (y, lit(tr[1].t, v))), self.residual(sub, env, form), s)
            return s
        return self.residual(tr[3][form[tr[1]]][2], env, form)

    def ir(self, A, name, mutate=0.35, max_leaves=4, noconst=False):
        r = self.r
        form = r.choice(A.forms)
        env = {}
        keepc = {}
        pc = r.choice([0.3, 0.6, 0.8] if self.o.kc else [0, 0.1, 0.5])
        for l in A.form_leaves(form):
            if l.const:
                if not noconst and l.t[0] != 'enum' and r.random() < pc:
                    keepc[l] = True
                    continue
                env[l] = lit(l.t, r.choice(values(l.t)))
        tr = self.residual(A.tree, env, form)
        outs = r.sample(range(len(A.outputs)), r.choice([1, 1, 1, 2]) if len(A.outputs) > 1 else 1)
        tr = pick(tr, outs)
        boxes = []
        used = tree_leaves(tr)
        boxenv = {}
        if A.boxes:
            for a, b, args, os in A.boxes:
                boxes.append((a, b, [fold(subst(x, env)) for x in args], os))
            keep = []
            for bx in reversed(boxes):
                if any(o in used for o in bx[3]) or r.random() < 0.15:
                    keep.append(bx)
                    for x in bx[2]:
                        used |= x.leaves()
            boxes = [(r.choice(['bb', 'bb', 'w']) + a.lstrip('bw'), b, xs, os) for a, b, xs, os in keep[::-1]]
        leaves = [l for l in A.form_leaves(form) if l in used]
        extra = [l for l in A.form_leaves(form) if l not in used and not l.const]
        if not leaves or (extra and r.random() < 0.06):
            if not extra:
                return None
            leaves.append(r.choice(extra))
        if len(leaves) > max_leaves:
            return None
        D = Design(name, self.T)
        r.shuffle(leaves)
        names = r.sample(['a', 'b', 'c', 'd', 'x', 'y'], len(leaves))
        # maybe a type the architecture has not, or one input more than it has places
        D.inputs = []
        order = []
        groups = []
        i = 0
        while i < len(leaves):
            if not leaves[i].const and r.random() < 0.12:
                g = [leaves[i]]
                if i + 1 < len(leaves) and not leaves[i + 1].const and r.random() < 0.7:
                    g.append(leaves[i + 1])
                kind = r.choice(['prod', 'tup'])
                st = self.T.struct(kind, [(f'f{j}' if kind == 'prod' else None, l.t) for j, l in enumerate(g)])
                D.inputs.append((names[i], False, st))
                order += g
                i += len(g)
            else:
                D.inputs.append((names[i], leaves[i].const, leaves[i].t))
                order.append(leaves[i])
                i += 1
        D.finish_inputs()
        sub = {old: X(new.t, 'leaf', (), new) for old, new in zip(order, D.leaves)}
        D.tree = map_tree(tr, lambda x: subst(x, sub))
        D.boxes = [(a, b, [subst(x, sub) for x in args], os) for a, b, args, os in boxes]
        D.outputs = [A.outputs[o] for o in outs]
        scope = [X(l.t, 'leaf', (), l) for l in D.leaves] + [X(t, 'box', (), o) for _, b, _, os in D.boxes for t, o in zip(b.outs, os)]
        muts = 0
        while r.random() < (mutate if not muts else 0.2):
            muts += 1
            D.tree = self.mutate_tree(D.tree, scope)
        if D.boxes and r.random() < 0.15:
            # a box of another kind with the same signature
            j = r.randrange(len(D.boxes))
            a, b, args, os = D.boxes[j]
            alt = [c for c in self.boxes if c is not b and c.ins == b.ins and c.outs == b.outs]
            if alt:
                D.boxes[j] = (a, alt[0], args, os)
        if D.boxes and r.random() < 0.15:
            j = r.randrange(len(D.boxes))
            a, b, args, os = D.boxes[j]
            i = r.randrange(len(args))
            args = list(args)
            args[i] = self.atom(args[i].t, [X(l.t, 'leaf', (), l) for l in D.leaves])
            D.boxes[j] = (a, b, args, os)
        D.tree = map_tree(D.tree, lambda x: self.equiv(x))
        D.onames = r.sample(['out', 'o', 'q', 'p0', 'p1'], len(outs))
        D.named = r.random() < 0.7
        D.early = r.random() < 0.3 and not D.boxes
        if self.o.nested_out and r.random() < 0.2:
            D.group_outputs(r)
        D.compile()
        self.nir += 1
        D.mutated = muts
        return D

    def mutate_tree(self, tr, scope):
        r = self.r
        outs = []
        map_tree(tr, lambda x: outs.append(x) or x)
        target = r.randrange(len(outs))
        n = [0]

        def f(x):
            i = n[0]
            n[0] += 1
            return self.mutate(x, scope) if i == target else x
        return map_tree(tr, f)

    def mutate(self, x, scope):
        r = self.r
        if not x.kids or r.random() < 0.25:
            if x.op == 'lit' and x.t[0] != 'enum':
                return lit(x.t, r.choice(values(x.t)))
            return self.expr(x.t, scope, r.choice([0, 1]))
        if r.random() < 0.5:
            i = r.randrange(len(x.kids))
            ks = list(x.kids)
            ks[i] = self.mutate(ks[i], scope)
            if ks[0].op == 'lit' or (x.op == 'ite' and ks[1].op == 'lit'):
                return self.expr(x.t, scope, 1)
            return X(x.t, x.op, ks, x.arg)
        if x.op in BIN:
            return X(x.t, r.choice('&|^' if x.t == BIT else list(BIN)), x.kids)
        if x.op in CMP:
            return X(x.t, r.choice(['==', '!='] if x.kids[0].t[0] == 'enum' or x.kids[0].t == BIT else list(CMP)), x.kids)
        return self.expr(x.t, scope, 1)

    def equiv(self, x):
        """Sometimes another way of writing the same thing."""
        r = self.r
        ks = [self.equiv(k) for k in x.kids]
        x = X(x.t, x.op, ks, x.arg) if ks else x
        if r.random() < 0.12:
            if x.op in ('+', '&', '|', '^', '*') and ks[1].op != 'lit':
                return X(x.t, x.op, (ks[1], ks[0]))
            if x.op == '-':
                return X(x.t, '+', (X(x.t, '+', (ks[0], X(x.t, '~', (ks[1],)))), lit(x.t, 1))) if ks[1].op != 'lit' else x
            if x.op in ('leaf', 'box') and (x.t == BIT or x.t[0] == 'bv'):
                return X(x.t, '~', (X(x.t, '~', (x,)),))
        return x


def fold(x):
    """Constant folding (through the int semantics)."""
    ks = [fold(k) for k in x.kids]
    if x.op == 'ite' and ks[0].op == 'lit':
        return ks[1] if ks[0].arg else ks[2]
    if ks and all(k.op == 'lit' for k in ks):
        y = X(x.t, x.op, ks, x.arg)
        return lit(x.t, eval(isrc(y)))
    if ks and ks[0].op == 'lit':
        # keep receivers symbolic: commute, or expand to something with a literal on the right
        if x.op in ('+', '&', '|', '^', '*', '==', '!='):
            ks = [ks[1], ks[0]]
        elif x.op in ('<', '<=', '>', '>='):
            return X(x.t, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[x.op], [ks[1], ks[0]], x.arg)
        elif x.op == '-':
            return X(x.t, '+', (X(x.t, 'neg', (ks[1],)), ks[0]))
    if x.op == 'ite' and ks[1].op == 'lit':
        if ks[2].op != 'lit':
            return X(x.t, 'ite', (X(BIT, '~', (ks[0],)), ks[2], ks[1]))
        if x.t == BIT:
            return ks[0] if ks[1].arg and not ks[2].arg else X(BIT, '~', (ks[0],)) if ks[2].arg and not ks[1].arg else ks[1]
    return X(x.t, x.op, ks, x.arg) if ks else x


def pick(tr, outs):
    if tr[0] == 'out':
        return ('out', [tr[1][o] for o in outs])
    assert tr[0] == 'if'
    return ('if', tr[1], pick(tr[2], outs), pick(tr[3], outs))


def map_tree(tr, f):
    if tr[0] == 'out':
        return ('out', [f(x) for x in tr[1]])
    return ('if', f(tr[1]), map_tree(tr[2], f), map_tree(tr[3], f))


def tree_leaves(tr):
    if tr[0] == 'out':
        return set().union(*(x.leaves() for x in tr[1]))
    return tr[1].leaves() | tree_leaves(tr[2]) | tree_leaves(tr[3])


HEAD = '''from hwtypes import Bit as HBit, BitVector as HBV, SIntVector as HS
from hwtypes.adt import Enum, Product, Tuple, Sum, TaggedUnion
from peak import Peak, Const, family_closure, name_outputs
from peak.black_box import BlackBox

'''


def same_names(text, r, p=0.2):
    """Give classes of different declarations one name."""
    for kind in ('Product', 'TaggedUnion', 'Enum'):
        found = re.findall(r'^class (\w+)\(%s\):\n((?:    .*\n)+)' % kind, text, re.M)
        bodies = [b for _, b in found]
        if len(set(bodies)) == len(bodies) > 1 and r.random() < p:
            for n, b in found:
                body = ''.join('    ' + l + '\n' for l in b.splitlines())
                text = text.replace(f'class {n}({kind}):\n{b}', f'def mk{n}():\n    class Same{kind}({kind}):\n{body}    return Same{kind}\n{n} = mk{n}()\n')
    return text


def module_source(gen, designs):
    return HEAD + same_names('\n'.join(gen.T.lines) + '\n', gen.r, 0.6 if gen.similar else 0.2) + '\n' + '\n'.join(b.source() for b in gen.boxes) + '\n' + '\n'.join(d.source() for d in designs)


# ---- oracle

class Oracle:
    """Exhaustive judgement of routings between one architecture and one instruction."""
    def __init__(self, A, I, tables=({},)):
        self.A, self.I, self.tables = A, I, list(tables)
        self.ir_leaves = I.leaves
        self.ir_space = list(itertools.product(*[values(l.t) for l in I.leaves]))
        self.ir_out = []
        for F in self.tables:
            self.ir_out.append([I.f(**dict(zip([l.var for l in I.leaves], v)), F=F) for v in self.ir_space])
        self.calls = 0

    def pairs(self, form, place, consts, allowed=None, want=None):
        """The (instruction output, architecture output) pairs equal for every input,
        with place: architecture leaf -> index of an instruction leaf, consts: leaf -> value,
        and the remaining leaves free (over allowed[leaf] if given)."""
        A = self.A
        leaves = A.form_leaves(form)
        free = [l for l in leaves if l not in place and l not in consts]
        dom = [(allowed or {}).get(l) or values(l.t) for l in free]
        alive = want or {(i, j) for i, t in enumerate(self.I.outputs) for j, u in enumerate(A.outputs) if t == u}
        alive = set(alive)
        base = dict(form)
        for l, v in consts.items():
            base[l.var] = v
        f = A.f
        pl = [(l.var, i) for l, i in place.items()]
        fv = [l.var for l in free]
        nin = len(self.I.outputs)
        for F, irout in zip(self.tables, self.ir_out):
            base['F'] = F
            for v, want_out in zip(self.ir_space, irout):
                for var, i in pl:
                    base[var] = v[i]
                for c in itertools.product(*dom):
                    for var, x in zip(fv, c):
                        base[var] = x
                    got = f(**base)
                    self.calls += 1
                    bad = [p for p in alive if want_out[p[0]] != got[p[1]]]
                    if bad:
                        alive.difference_update(bad)
                        if len({p[0] for p in alive}) < (nin if want is None else len(want)):
                            return alive
        return alive

    def placements(self, form, blocked=()):
        leaves = [l for l in self.A.form_leaves(form) if l not in blocked]
        opts = [[l for l in leaves if l.t == i.t and l.const == i.const] for i in self.ir_leaves]

        def rec(k, used):
            if k == len(opts):
                yield {}
                return
            for l in opts[k]:
                if l not in used:
                    for rest in rec(k + 1, used | {l}):
                        yield {l: k, **rest}
        return rec(0, frozenset())

    def matching(self, alive):
        """An injective assignment of all instruction outputs, or None."""
        n = len(self.I.outputs)
        opts = [[j for i2, j in sorted(alive) if i2 == i] for i in range(n)]
        for c in itertools.product(*opts):
            if len(set(c)) == n:
                return c
        return None

    def exists(self, allowed=None, limit=3_000_000):
        """A correct rule (form, placement, constants, outputs), or None when there is none.
        allowed: leaf -> values it may take (of constrained leaves; no instruction input is routed there)."""
        allowed = allowed or {}
        for form in self.A.forms:
            for place in self.placements(form, allowed):
                cl = [l for l in self.A.form_leaves(form) if l.const and l not in place]
                for cv in itertools.product(*[allowed.get(l) or values(l.t) for l in cl]):
                    alive = self.pairs(form, place, dict(zip(cl, cv)), allowed)
                    m = self.matching(alive) if len({p[0] for p in alive}) == len(self.I.outputs) else None
                    if m is not None:
                        return form, place, dict(zip(cl, cv)), m
                    if self.calls > limit:
                        raise Skip('too large to decide by exhaustion')
        return None

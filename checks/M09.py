"""M09: reported multi-instruction mappings executed, and verdicts against exhaustion."""
import contextlib, io, itertools, re
from hwtypes import BitVector
from hwtypes.modifiers import strip_modifiers
from peak.mapper.index_var import Binary, OneHot
from peak.mapper.mapper import LoopException
from peak.mapper.multi import Multi
from peak.assembler.assembler import Assembler
from vlib import mapcheck, mapgen
from vlib.core import Skip
from vlib.mapgen import BIT, X

RULE = ('random small architectures with one configuration input and plain data, and instructions composed from up to three of their operations, rewritten and mutated; mapped with one to three '
        'instructions in both encodings and formula styles; the printed solution is parsed and run on every input by the oracle and on samples by the Python design; verdicts compared with exhaustion '
        'over routings and instruction values; distinct = (mode, solution or verdict, designs)')
N = {'quick': 400, 'thorough': 7000}
BUDGET = {'quick': 200, 'thorough': 1400}
LIMIT = {'quick': 120, 'thorough': 200}
ASSUMPTIONS = ['one configuration input per architecture, none in the instruction, plain data inputs and outputs, no black boxes',
               'every instruction input is used exactly once, and outputs are taken from the last instruction: sequences of another shape are not claimed to be found',
               'solver answers are bounded by a timeout; a case it gives up on is not judged']
setup = mapcheck.setup


def arch(g, plain=False):
    """plain: two data inputs and the output of one type, so that results can be combined freely."""
    r = g.r
    D = mapgen.Design('Arch', g.T)
    for attempt in range(300):
        keep = list(g.T.lines)
        D.inputs = [(f'd{i}', False, r.choice(g.types)) for i in range(r.choice([1, 2, 2, 2, 3]))]
        if plain:
            t = r.choice(g.types)
            D.inputs = [('d0', False, t), ('d1', False, t)]
        D.inputs.append(('inst', True, g.inst_type(r.choice([0, 1, 1, 2]))))
        r.shuffle(D.inputs)
        D.finish_inputs()
        D.configs = configs(D)
        if sum(mapgen.width(l.t) for l in D.leaves if not l.const) <= 4 and len(D.configs) <= 16 and len(D.forms) <= 4:
            break
        g.T.lines = keep
    else:
        raise Skip('no architecture of the size wanted')
    no = r.choice([1, 1, 2])
    D.outputs = [r.choice(g.types) for _ in range(no)]
    if plain:
        no, D.outputs = 1, [t]
    D.onames = r.sample(['out', 'res', 'o0', 'o1', 'flag'], no)
    D.named = r.random() < 0.6
    scope = [X(l.t, 'leaf', (), l) for l in D.leaves if not l.choices]
    D.early = r.random() < 0.3
    D.tree = g.tree(D, D.inputs, scope)
    D.compile()
    return D


def configs(D):
    """Every configuration: (form, leaf -> value)."""
    res = []
    for f in D.forms:
        ls = [l for l in D.form_leaves(f) if l.const]
        n = 1
        for l in ls:
            n *= len(mapgen.values(l.t))
        if n > 64:
            return list(range(1000))
        res += [(f, dict(zip(ls, vs))) for vs in itertools.product(*[mapgen.values(l.t) for l in ls])]
    return res


def flat(tr, k):
    """Output k of a residual tree as one expression."""
    if tr[0] == 'out':
        return tr[1][k]
    return mapgen.fold(X(flat(tr[2], k).t, 'ite', (tr[1], flat(tr[2], k), flat(tr[3], k))))


def size(x):
    return 1 + sum(size(k) for k in x.kids)


def instr(g, A, name, n):
    """An instruction composed of n operations of A."""
    r = g.r
    data = [l for l in A.leaves if not l.const]
    D = mapgen.Design(name, g.T)
    fresh, avail, known = [], [], []
    for i in range(n):
        form, cs = r.choice(A.configs)
        route = []
        known.append((A.configs.index((form, cs)), route))
        env = {l: mapgen.lit(l.t, v) for l, v in cs.items()}
        tr = g.residual(A.tree, env, form)
        sub = {}
        for l in data:
            c = [(m, o) for m, o in avail if o[1].t == l.t]
            k = r.random()
            if c and (k < 0.5 or len(fresh) >= 3 or i == n - 1 and k < 0.8):
                # what no instruction has used yet first
                new = [(m, o) for m, o in c if ('out', m, o[0]) not in [s for _, q in known for s in q]]
                m, o = r.choice(new if new and r.random() < 0.6 else c)
                sub[l] = o[1]
                route.append(('out', m, o[0]))
            elif k < 0.93 and len(fresh) < 3:
                v = mapgen.Leaf((f'x{len(fresh)}',), f'x{len(fresh)}', l.t, False, (), None)
                fresh.append(v)
                sub[l] = X(l.t, 'leaf', (), v)
                route.append(v)
            else:
                route.append(None)
                sub[l] = mapgen.lit(l.t, r.choice(mapgen.values(l.t)))
        last = [mapgen.fold(mapgen.subst(flat(tr, k), sub)) for k in range(len(A.outputs))]
        avail += [(i, o) for o in enumerate(last)]
    outs = r.sample(range(len(last)), r.choice([1, 1, len(last)]))
    xs = [last[k] for k in outs]
    if sum(size(x) for x in xs) > 60:
        return None
    used = set().union(*(x.leaves() for x in xs))
    fresh = [l for l in fresh if l in used or r.random() < 0.1]
    if not fresh or sum(mapgen.width(l.t) for l in fresh) > 6:
        return None
    r.shuffle(fresh)
    D.inputs = [(m, False, l.t) for m, l in zip(r.sample(['a', 'b', 'c', 'x'], len(fresh)), fresh)]
    D.finish_inputs()
    sub = {old: X(new.t, 'leaf', (), new) for old, new in zip(fresh, D.leaves)}
    D.tree = ('out', [mapgen.subst(x, sub) for x in xs])
    scope = [X(l.t, 'leaf', (), l) for l in D.leaves]
    while r.random() < 0.2:
        D.tree = g.mutate_tree(D.tree, scope)
    D.tree = mapgen.map_tree(D.tree, g.equiv)
    D.outputs = [A.outputs[k] for k in outs]
    D.onames = r.sample(['out', 'o', 'q', 'p0'], len(outs))
    D.named = r.random() < 0.6
    D.compile()
    # how it was composed; after mutations this need not be a solution
    D.known = [(c, tuple(('in', fresh.index(s)) if s in fresh else None if isinstance(s, mapgen.Leaf) else s for s in q)) for c, q in known]
    return D


class Judge:
    """Runs sequences of configurations of A with given routings."""
    def __init__(self, A, I):
        self.A, self.I = A, I
        self.data = [l for l in A.leaves if not l.const]
        self.space = list(itertools.product(*[mapgen.values(l.t) for l in self.data]))
        self.tables, self.reps = [], {}
        for form, cs in A.configs:
            base = {**form, **{l.var: v for l, v in cs.items()}}
            t = {d: A.f(**base, **{l.var: v for l, v in zip(self.data, d)}) for d in self.space}
            self.tables.append(t)
        keys = {}
        for i, t in enumerate(self.tables):
            keys.setdefault(tuple(t.values()), i)
        self.distinct = list(keys.values())
        self.iin = list(itertools.product(*[mapgen.values(l.t) for l in I.leaves]))
        self.iout = [I.f(**{l.var: x for l, x in zip(I.leaves, v)}) for v in self.iin]
        self.calls = 0

    def run(self, prog, v):
        """Outputs of the last instruction for instruction inputs v and every value of the free inputs."""
        free = [(j, k) for j, (c, route) in enumerate(prog) for k, s in enumerate(route) if s is None]
        for fv in itertools.product(*[mapgen.values(self.data[k].t) for _, k in free]):
            fm = dict(zip(free, fv))
            outs = []
            for j, (c, route) in enumerate(prog):
                d = tuple(fm[j, k] if s is None else v[s[1]] if s[0] == 'in' else outs[s[1]][s[2]] for k, s in enumerate(route))
                outs.append(self.tables[c][d])
                self.calls += 1
            yield fm, outs

    def pairs(self, prog):
        alive = {(i, j) for i, t in enumerate(self.I.outputs) for j, u in enumerate(self.A.outputs) if t == u}
        for v, want in zip(self.iin, self.iout):
            for _, outs in self.run(prog, v):
                alive = {(i, j) for i, j in alive if want[i] == outs[-1][j]}
                if len({i for i, _ in alive}) < len(want):
                    return alive
        return alive

    def correct(self, prog):
        return len({i for i, _ in self.pairs(prog)}) == len(self.I.outputs)

    def routings(self, n):
        """Every routing of n instructions that uses each instruction input once."""
        def sources(j, l):
            s = [None] + [('in', i) for i, x in enumerate(self.I.leaves) if x.t == l.t]
            return s + [('out', m, o) for m in range(j) for o, t in enumerate(self.A.outputs) if t == l.t]

        slots = [(j, l) for j in range(n) for l in self.data]

        def rec(k, used):
            if len(slots) - k < len(self.I.leaves) - len(used):
                return
            if k == len(slots):
                yield ()
                return
            for s in sources(*slots[k]):
                if s and s[0] == 'in':
                    if s in used:
                        continue
                    for rest in rec(k + 1, used | {s}):
                        yield (s,) + rest
                else:
                    for rest in rec(k + 1, used):
                        yield (s,) + rest
        w = len(self.data)
        for r in rec(0, frozenset()):
            yield [r[j * w:(j + 1) * w] for j in range(n)]

    def exists(self, n, limit=1_500_000):
        for routes in self.routings(n):
            for cs in itertools.product(self.distinct, repeat=n):
                if self.correct(list(zip(cs, routes))):
                    return list(zip(cs, routes))
                if self.calls > limit:
                    raise Skip('too large to decide by exhaustion')
        return None


def parse(text, n):
    """The printed solution: per instruction its routing lines and its values."""
    parts = re.split(r'^\*+\s*$', text, flags=re.M)[1:]
    res = []
    for i, p in enumerate(parts):
        lines = [l.strip() for l in p.strip().splitlines()]
        if not lines or lines[0] != f'Instruction {i}':
            raise mapcheck.BadRule(f'part {i} of the report is {p!r}')
        routes = [tuple(l.split(' <=> ')) for l in lines if ' <=> ' in l]
        vals = [int(x) for x in re.findall(r'\d+', re.sub(r'\w+\[\d+\]', '', lines[-1].replace('True', '1').replace('False', '0')))]
        res.append((routes, vals))
    if len(res) != n:
        raise mapcheck.BadRule(f'{len(res)} instructions are reported')
    return res


def read_leaves(mod, t, x, path=()):
    """Leaf path -> int of a plain value."""
    k = t[0]
    if k in ('bit', 'bv', 's', 'enum'):
        return {path: mapcheck.as_int(x)}
    if k == 'prod':
        return {p: v for f, u in t[2] for p, v in read_leaves(mod, u, getattr(x, f), path + (f,)).items()}
    if k == 'tup':
        return {p: v for i, (_, u) in enumerate(t[2]) for p, v in read_leaves(mod, u, x[i], path + (i,)).items()}
    for i, (f, u) in enumerate(t[2]):
        part = getattr(x, f) if k == 'tu' else x[mapcheck.rtype(mod, u)]
        if part.match:
            return read_leaves(mod, u, part.value, path + (f if k == 'tu' else ('type', u),))
    raise mapcheck.BadRule(f'{x} is no alternative')


def program(W, J, text, n):
    """The reported sequence in the judge's terms, with the Python instruction values."""
    A, I = W.A, J.I
    onames = [p[0] for p in A.out_paths()]
    t = next(u for _, c, u in A.inputs if c)
    T = strip_modifiers(mapcheck.rtype(W.mod, t))
    prog, insts = [], []
    for j, (routes, vals) in enumerate(parse(text, n)):
        if len(vals) != 1:
            raise mapcheck.BadRule(f'instruction {j} has the values {vals}')
        if t[0] in ('bit', 'bv', 's'):
            inst = T(vals[0])
        else:
            asm = Assembler(T)
            if vals[0] >= 1 << asm.width or not bool(asm.is_valid(BitVector[asm.width](vals[0]))):
                raise mapcheck.BadRule(f'instruction {j} has the invalid code {vals[0]}')
            inst = asm.disassemble(BitVector[asm.width](vals[0]))
        got = read_leaves(W.mod, t, inst, ('inst',))
        cs = [i for i, (f, c) in enumerate(A.configs) if {l.path: v for l, v in c.items()} == got]
        if len(cs) != 1:
            raise mapcheck.BadRule(f'instruction {j}: {inst} is no configuration')
        route = {}
        for src, dst in routes:
            m = re.fullmatch(rf'Arch_in\.{j}\.(\w+)', dst)
            if not m or m[1] in route or m[1] not in [l.path[0] for l in J.data]:
                raise mapcheck.BadRule(f'instruction {j} routes to {dst}')
            l = next(l for l in J.data if l.path[0] == m[1])
            if src == 'Unbound':
                route[m[1]] = None
                continue
            p = src.split('.')
            if p[0] == 'IR_in':
                i = [x.path[0] for x in I.leaves].index(p[1])
                ok, route[m[1]] = I.leaves[i].t == l.t, ('in', i)
            elif p[0] == 'Arch_out' and int(p[1]) < j:
                o = [str(x) for x in onames].index(p[2])
                ok, route[m[1]] = A.outputs[o] == l.t, ('out', int(p[1]), o)
            else:
                raise mapcheck.BadRule(f'instruction {j} takes {src}')
            if not ok:
                raise mapcheck.BadRule(f'instruction {j}: {src} routed to {dst} of another type')
        if len(route) != len(J.data):
            raise mapcheck.BadRule(f'instruction {j} has no routing for every input')
        prog.append((cs[0], tuple(route[l.path[0]] for l in J.data)))
        insts.append(inst)
    used = sorted(s[1] for _, r in prog for s in r if s and s[0] == 'in')
    if used != list(range(len(I.leaves))):
        raise mapcheck.BadRule(f'instruction inputs used: {used}')
    return prog, insts


class Work(mapcheck.Work):
    def __init__(self, ctx, rng):
        self.g = mapgen.Gen(rng, mapgen.Opts(enums=False, structs=False, signed=False, maxw=2))
        self.n = rng.choice([1, 2, 2, 2, 3, 3])
        self.A = arch(self.g, plain=self.n == 3 and rng.random() < 0.7)
        self.irs = [x for x in (instr(self.g, self.A, f'IR{k}', rng.choice([self.n, self.n, max(1, self.n - 1)])) for k in range(2)) if x]
        if not self.irs:
            raise Skip('no instruction')
        self.src = mapgen.module_source(self.g, [self.A] + self.irs)
        ctx.note(self.src)
        self.name = f'w_{ctx.pid}_{ctx.index}'
        self.mod = mapcheck.load(self.src, self.name)
        self.RA = mapcheck.Runner(self.A, self.mod)
        self.RIs = [mapcheck.Runner(I, self.mod) for I in self.irs]


def ask(ctx, rng, W, RI, n, mode):
    """Printed solution, or None when none is reported."""
    iv, real = mode
    try:
        s = Multi(W.RA.fc, RI.fc, n, IVar=iv, use_real=real)
    except ValueError as e:
        if 'inding' not in str(e):
            raise
        ctx.event('no_bindings')
        return None
    rr = mapcheck.solved(ctx, lambda: s(maxloops=rng.choice([300, 1000]), solver_name='z3'))
    if rr is None:
        return None
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        rr()
    return buf.getvalue()


def case(ctx, rng):
    W = Work(ctx, rng)
    try:
        W.self_check(ctx, rng)
        for RI in W.RIs:
            J = Judge(W.A, RI.D)
            n = rng.choice([W.n, W.n, W.n, 2] if W.n == 3 else [W.n, W.n, 1, 2])
            nr = sum(1 for _ in itertools.islice(J.routings(n), 5000))
            known = RI.D.known if len(RI.D.known) == n and J.correct(RI.D.known) else None
            used = [s[1] for _, q in known or () for s in q if s and s[0] == 'in']
            if sorted(used) != list(range(len(RI.D.leaves))):
                known = None
            if nr > (4500 if known else 2500):
                ctx.event('too_many_routings')
                continue
            modes = rng.sample([(iv, real) for iv in (Binary, OneHot) for real in (True, False)], 1 if n == 3 else 2)
            ex = known or 0
            ctx.event('known', bool(known))
            for mode in modes:
                what = f'{RI.D.name} as {n} instructions ({mode[0].__name__}, use_real={mode[1]})'
                try:
                    text = ask(ctx, rng, W, RI, n, mode)
                except LoopException:
                    ctx.event('iteration_limit')
                    continue
                ctx.seen(str(mode), n, text, W.src)
                if text is None:
                    if ex == 0:
                        ex = J.exists(n)
                    ctx.ok(ex is None, f'{what}: none is reported', f'there is one: {ex}')
                    ctx.event(f'none_{n}')
                    continue
                ctx.event(f'mapped_{n}')
                try:
                    prog, insts = program(W, J, text, n)
                except mapcheck.BadRule as e:
                    ctx.ok(False, f'{what}: malformed report: {e}', text)
                ctx.ok(J.correct(prog), f'{what}: the sequence is wrong', text)
                execute(ctx, rng, W, J, RI, prog, insts, what)
        ctx.sample(W.src)
    finally:
        W.close()


def execute(ctx, rng, W, J, RI, prog, insts, what):
    """Run the sequence on the Python design."""
    name = next(m for m, c, _ in W.A.inputs if c)
    alive = J.pairs(prog)
    for v in rng.sample(J.iin, min(4, len(J.iin))):
        outs = []
        for j, (c, route) in enumerate(prog):
            args = {name: insts[j]}
            for l, s in zip(J.data, route):
                x = rng.choice(mapgen.values(l.t)) if s is None else v[s[1]] if s[0] == 'in' else outs[s[1]][s[2]]
                args[l.path[0]] = mapcheck.leaf_value(W.mod, l.t, x)
            o = W.RA.obj(**args)
            outs.append(tuple(mapcheck.as_int(x) for x in (o if isinstance(o, tuple) else (o,))))
        want = RI.call(dict(zip(RI.D.leaves, v)))
        ctx.event('sequence_runs')
        for i, w in enumerate(want):
            ctx.ok(any(outs[-1][j] == w for i2, j in alive if i2 == i), f'{what}: run on {v} gives {outs[-1]}, expected {want}')

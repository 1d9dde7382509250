"""Running mapgen designs for real, and reading rewrite rules back into the oracle's terms."""
import importlib.util, itertools, os, sys
from hwtypes import Bit, BitVector, Product, SIntVector, Tuple, AbstractBit, AbstractBitVector
from hwtypes.modifiers import strip_modifiers
from pysmt.exceptions import SolverReturnedUnknownResultError
from peak.mapper import ArchMapper
from peak.mapper.index_var import OneHot, Binary
from peak.mapper.utils import Unbound
from vlib import mapgen
from vlib.core import Skip
from vlib.mapgen import BIT


SOLVER_MS = 15000


def setup(scratch=None):
    """Bounds on the solver: its timeouts surface as 'unknown', which leaves a case undecided."""
    import resource
    import z3
    z3.set_param('timeout', SOLVER_MS)
    z3.set_param('memory_max_size', 2000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def solved(ctx, f):
    """f() run under the solver limits; raises Skip when the solver gave up."""
    try:
        return f()
    except (SolverReturnedUnknownResultError, MemoryError) as e:
        ctx.event('solver_gave_up')
        raise Skip(f'solver gave up: {type(e).__name__}')


def load(src, name):
    path = os.path.join(os.getcwd(), name + '.py')
    with open(path, 'w') as f:
        f.write(src)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def rtype(mod, t):
    """The Python-family type."""
    k = t[0]
    if k == 'const':
        return rtype(mod, t[1])
    return Bit if k == 'bit' else BitVector[t[1]] if k == 'bv' else SIntVector[t[1]] if k == 's' else getattr(mod, t[1])


def rpath(mod, leaf):
    """The mapper's path of a leaf."""
    return tuple(rtype(mod, e[1]) if isinstance(e, tuple) else e for e in leaf.path)


def leaf_value(mod, t, v):
    T = rtype(mod, t)
    if t[0] == 'enum':
        return next(m for m in T.enumerate() if m._value_ == v)
    return T(v)


class Runner:
    """One design in the plain Python family."""
    def __init__(self, D, mod):
        self.D, self.mod = D, mod
        self.fc = getattr(mod, D.name + '_fc')
        self.cls = self.fc.Py
        self.obj = self.cls()
        self.paths = {l: rpath(mod, l) for l in D.leaves}
        self.byleaf = {p: l for l, p in self.paths.items()}

    def value(self, t, env, form, path, src_path):
        k = t[0]
        if k in ('bit', 'bv', 's', 'enum'):
            return leaf_value(self.mod, t, env[path])
        if k == 'const':
            return self.value(t[1], env, form, path, src_path)
        T = strip_modifiers(rtype(self.mod, t))
        if k == 'prod':
            return T(**{f: self.value(u, env, form, path + (f,), None) for f, u in t[2]})
        if k == 'tup':
            return T(*[self.value(u, env, form, path + (i,), None) for i, (_, u) in enumerate(t[2])])
        for i, (f, u) in enumerate(t[2]):
            el = f if k == 'tu' else ('type', u)
            if any(p[:len(path) + 1] == path + (el,) for p in env):
                v = self.value(u, env, form, path + (el,), None)
                return T(**{f: v}) if k == 'tu' else T(v)
        raise AssertionError('no alternative given')

    def args(self, values):
        """values: leaf -> int, for exactly the leaves of one form."""
        env = {l.path: v for l, v in values.items()}
        return {n: self.value(t, env, None, (n,), None) for n, _, t in self.D.inputs}

    def call(self, values):
        out = self.obj(**self.args(values))
        out = out if isinstance(out, tuple) else (out,)
        return tuple(as_int(v) for o in out for v in flat_output(o))


def flat_output(o):
    if isinstance(o, Product):
        return [getattr(o, f) for f in type(o).field_dict]
    if isinstance(o, Tuple):
        return list(o.value)
    return [o]


def as_int(o):
    if isinstance(o, (bool, int)):
        return int(o)
    if isinstance(o, Bit):
        return int(bool(o))
    if isinstance(o, AbstractBitVector):
        return o.as_uint()
    return o._value_          # enum member


class BadRule(Exception):
    pass


class Rule:
    """A rewrite rule in the oracle's terms: form, place, consts, free leaves, output pairs."""
    def __init__(self, rr, RA, RI):
        A, I = RA.D, RI.D
        irpaths = {p: i for i, p in ((i, RI.paths[l]) for i, l in enumerate(I.leaves))}
        self.place, self.consts, self.free = {}, {}, []
        seen = []
        for src, ap in rr.ibinding:
            leaf = RA.byleaf.get(tuple(ap))
            if leaf is None:
                raise BadRule(f'{ap} is not a leaf of the architecture')
            if leaf in seen:
                raise BadRule(f'{ap} is bound twice')
            seen.append(leaf)
            if src is Unbound:
                if leaf.const:
                    raise BadRule(f'constant {ap} has no value')
                self.free.append(leaf)
            elif isinstance(src, tuple):
                if src not in irpaths:
                    raise BadRule(f'{src} is not a leaf of the instruction')
                il = I.leaves[irpaths[src]]
                if il.t != leaf.t or il.const != leaf.const:
                    raise BadRule(f'{src} is bound to {ap} of another type')
                self.place[leaf] = irpaths[src]
            else:
                v = as_int(src)
                if not isinstance(src, (AbstractBit, AbstractBitVector)) or (isinstance(src, AbstractBitVector) and src.size != max(mapgen.width(leaf.t), 0)):
                    raise BadRule(f'{ap} has the value {src!r}')
                if v not in mapgen.values(leaf.t):
                    raise BadRule(f'{ap} has the invalid value {src!r}')
                self.consts[leaf] = v
        if sorted(self.place.values()) != list(range(len(I.leaves))):
            raise BadRule(f'instruction inputs routed: {sorted(self.place.values())} of {len(I.leaves)}')
        forms = [f for f in A.forms if set(A.form_leaves(f)) == set(seen)]
        if len(forms) != 1:
            raise BadRule(f'bound leaves {seen} are not those of one form')
        self.form = forms[0]
        ap = {p: i for i, p in enumerate(A.out_paths())}
        ip = {p: i for i, p in enumerate(I.out_paths())}
        self.outs = []
        for src, dst in rr.obinding:
            if dst not in ap:
                raise BadRule(f'{dst} is not an output of the architecture')
            if src is Unbound:
                continue
            if src not in ip:
                raise BadRule(f'{src} is not an output of the instruction')
            if I.outputs[ip[src]] != A.outputs[ap[dst]]:
                raise BadRule(f'outputs {src} and {dst} differ in type')
            self.outs.append((ip[src], ap[dst]))
        if sorted(i for i, _ in self.outs) != list(range(len(I.outputs))) or len({j for _, j in self.outs}) != len(self.outs):
            raise BadRule(f'outputs connected: {self.outs}')

    def correct(self, orc, allowed=None):
        alive = orc.pairs(self.form, self.place, self.consts, allowed, want=set(self.outs))
        return alive == set(self.outs)

    def samples(self, orc, rng, n):
        """Random inputs: (instruction leaf values, architecture leaf values)."""
        I, A = orc.I, orc.A
        for _ in range(n):
            v = rng.choice(orc.ir_space)
            av = {l: v[i] for l, i in self.place.items()}
            av.update(self.consts)
            for l in A.form_leaves(self.form):
                if l not in av:
                    av[l] = rng.choice(mapgen.values(l.t))
            yield dict(zip(I.leaves, v)), av

    def describe(self):
        return f'form {self.form} place {self.place} consts {self.consts} outs {self.outs}'


def make_binding(rng, orc, RA, RI, form, place, consts, outs):
    """Bindings of a hand-made rule, with constants as Python values."""
    ib = []
    for l in RA.D.form_leaves(form):
        if l in place:
            ib.append((RI.paths[RI.D.leaves[place[l]]], RA.paths[l]))
        elif l in consts:
            ib.append((leaf_value(RA.mod, l.t, consts[l]), RA.paths[l]))
        else:
            ib.append((Unbound, RA.paths[l]))
    ap, ip = RA.D.out_paths(), RI.D.out_paths()
    ob = [(ip[i], ap[j]) for i, j in outs]
    ob += [(Unbound, ap[j]) for j in range(len(ap)) if j not in {b for _, b in outs}]
    ob.sort(key=lambda x: ap.index(x[1]))
    rng.shuffle(ib)
    return ib, ob


class Work:
    """One random architecture with instructions derived from it, loaded."""
    def __init__(self, ctx, rng, nir=3, opts=None, **kw):
        self.g = mapgen.Gen(rng, opts)
        self.A = self.g.arch()
        self.irs = [x for x in (self.g.ir(self.A, f'IR{k}', **kw) for k in range(nir)) if x]
        if not self.irs:
            raise Skip('no instruction')
        self.src = mapgen.module_source(self.g, [self.A] + self.irs)
        ctx.note(self.src)
        self.name = f'w_{ctx.pid}_{ctx.index}'
        self.mod = load(self.src, self.name)
        self.RA = Runner(self.A, self.mod)
        self.RIs = [Runner(I, self.mod) for I in self.irs]

    def close(self):
        sys.modules.pop(self.name, None)

    def self_check(self, ctx, rng, n=4):
        """The oracle's reading of each design against its execution."""
        for R in [self.RA] + self.RIs:
            for _ in range(n):
                form = rng.choice(R.D.forms)
                vals = {l: rng.choice(mapgen.values(l.t)) for l in R.D.form_leaves(form)}
                want = R.D.f(**{l.var: v for l, v in vals.items()}, **form, F={b.name: b.own() for b in self.g.boxes})
                ctx.eq(R.call(vals), want, f'{R.D.name} run on {vals}')
                ctx.event('python_runs')


def modes(rng, A, n, boxes=False, simple=False):
    """n different ways of asking the mapper: (index encoding, simple formula, external loop, initial vectors)."""
    const = any(l.const for l in A.leaves)
    ms = [(iv, sf, ext) for iv in (OneHot, Binary) for sf in (True, False) for ext in (True, False) if sf or (const and not boxes and not simple)]
    return [m + (rng.choice([-1, -1, 0, 3]),) for m in rng.sample(ms, min(n, len(ms)))]


class Mappers:
    """Architecture and instruction mappers shared between the modes that can share them."""
    def __init__(self, fc, **kw):
        self.fc, self.kw, self.am, self.im = fc, kw, {}, {}

    def arch(self, iv):
        if iv not in self.am:
            self.am[iv] = ArchMapper(self.fc, IVar=iv, **self.kw)
        return self.am[iv]

    def instr(self, ir_fc, iv, sf):
        k = (ir_fc, iv, sf)
        if k not in self.im:
            self.im[k] = self.arch(iv).process_ir_instruction(ir_fc, simple_formula=sf)
        return self.im[k]


def mode_name(m):
    return f'{m[0].__name__}{"/simple" if m[1] else "/full"}{"/loop" if m[2] else ""}{f"/init{m[3]}" if m[2] else ""}'


def solve(ctx, im, mode, **kw):
    if mode[2]:
        kw.setdefault('itr_limit', None)
        return solved(ctx, lambda: im.solve('z3', external_loop=True, num_init=mode[3], **kw))
    return solved(ctx, lambda: im.solve('z3', **kw))


def judge_rule(ctx, rng, rr, RA, RI, orc, what, allowed=None, runs=12):
    """A rule against exhaustion of the oracle, and against runs of both designs."""
    try:
        R = Rule(rr, RA, RI)
    except BadRule as e:
        ctx.ok(False, f'{what}: malformed rule: {e}', rr.ibinding, rr.obinding)
    ctx.event('rules')
    if allowed is not None:
        return R
    ctx.ok(R.correct(orc), f'{what}: the rule is wrong', R.describe())
    for iv, av in R.samples(orc, rng, runs):
        gi, ga = RI.call(iv), RA.call(av)
        ctx.event('rule_runs')
        for i, j in R.outs:
            ctx.eq(ga[j], gi[i], f'{what}: output {j} of the architecture on {av}, instruction on {iv}', R.describe())
    return R


def random_rule(rng, orc, form=None, nonconst=True):
    """A well-formed random rule: (form, place, consts, outs); consts may also fix data inputs."""
    A, I = orc.A, orc.I
    forms = list(A.forms)
    rng.shuffle(forms)
    for form in forms:
        places = list(itertools.islice(orc.placements(form), 60))
        if places:
            break
    else:
        return None
    place = rng.choice(places)
    consts = {}
    fix = rng.choice([0, 0, 0.4]) if nonconst else 0
    for l in A.form_leaves(form):
        if l not in place and (l.const or rng.random() < fix):
            consts[l] = rng.choice(mapgen.values(l.t))
    opts = [[j for j, u in enumerate(A.outputs) if u == t] for t in I.outputs]
    combos = [c for c in itertools.product(*opts) if len(set(c)) == len(c)]
    if not combos:
        return None
    outs = list(enumerate(rng.choice(combos)))
    return form, place, consts, outs


def near(rng, orc, rule):
    """A rule changed in one place."""
    form, place, consts, outs = rule
    place, consts, outs = dict(place), dict(consts), list(outs)
    k = rng.random()
    if k < 0.5 and consts:
        l = rng.choice(list(consts))
        consts[l] = rng.choice(mapgen.values(l.t))
    elif k < 0.75:
        ps = list(itertools.islice(orc.placements(form), 60))
        place = rng.choice(ps)
        consts = {l: consts.get(l, rng.choice(mapgen.values(l.t))) for l in orc.A.form_leaves(form) if l not in place and (l.const or l in consts)}
    elif k < 0.9 and len(orc.A.outputs) > 1:
        i = rng.randrange(len(outs))
        js = [j for j, u in enumerate(orc.A.outputs) if u == orc.I.outputs[i] and j not in [b for _, b in outs]]
        if js:
            outs[i] = (i, rng.choice(js))
    elif consts:
        # free a fixed data input
        ls = [l for l in consts if not l.const]
        if ls:
            del consts[rng.choice(ls)]
    return form, place, consts, outs


def some_rules(rng, orc, n):
    """n hand-made rules, correct ones and near misses among them."""
    ex = orc.exists()
    good = None
    if ex:
        form, place, consts, m = ex
        good = (form, place, consts, list(enumerate(m)))
    res = []
    for _ in range(n):
        k = rng.random()
        if good and k < 0.35:
            r = good
        elif good and k < 0.8:
            r = near(rng, orc, good)
        else:
            r = random_rule(rng, orc)
        if r is not None and rng.random() < 0.15 and len(r[3]) > 1:
            r = (*r[:3], r[3][:-1])          # leaves an output unconnected
        if r is not None and rng.random() < 0.2:
            # an output of one side serves several of the other
            more = [(i, j) for i, t in enumerate(orc.I.outputs) for j, u in enumerate(orc.A.outputs) if t == u and (i, j) not in r[3]]
            if more:
                r = (*r[:3], rng.sample(list(r[3]) + [rng.choice(more)], len(r[3]) + 1))
        if r is not None:
            res.append(r)
    return res


def holds(orc, rule):
    form, place, consts, outs = rule
    return orc.pairs(form, place, consts, want=set(outs)) == set(outs)

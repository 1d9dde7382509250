"""B01: enumeration and lookup of black boxes over random object hierarchies, against an own model of the hierarchy."""
from hwtypes import BitVector, Bit
from peak import Peak, family
from peak.black_box import BlackBox, get_black_boxes, get_black_box
from peak.float import float_lib_gen
from checks import boxes

RULE = ('random hierarchies (depth up to 6, siblings, empty and shared components, registers, attribute registers, data attributes, boxes of several classes and of the '
        'float library, a box at the top) built in the three software families, enumerated again after attributes are added, replaced and deleted, and looked up along every '
        'valid path and many invalid ones; the oracle walks its own tree; distinct = the set of paths and kinds')
N = {'quick': 6000, 'thorough': 60000}
BUDGET = {'quick': 120, 'thorough': 900}
ASSUMPTIONS = ['a black box is opaque: boxes it uses itself are not part of the hierarchy', 'components are attributes of their parent object and form no cycle']

NAMES = ['a', 'b', 'c', 'bb', 'BB1', 'sub', 'FPU', 'fpadd', 'value', 'x0', '_hidden', 'add', 'r', 'input_t']
DATA = [None, 0, 1, '', 'text', (), BitVector[8](0), BitVector[8](5), Bit(0), [1], {}]


class Model:
    """A component as built: kind, the object, its child components by attribute name."""
    def __init__(self, kind, obj):
        self.kind, self.obj, self.kids, self.data = kind, obj, {}, set()

    def boxes(self, path=()):
        if self.kind == 'box':
            return {path: self.obj}
        r = {}
        for n, k in self.kids.items():
            r.update(k.boxes(path + (n,)))
        return r

    def all(self, path=()):
        yield path, self
        for n, k in self.kids.items():
            yield from k.all(path + (n,))


def leaf(rng, f):
    F = boxes.FAM[f]()
    k = rng.random()
    if k < 0.5:
        return Model('box', rng.choice(boxes.BOXES)(F)())
    if k < 0.6:
        return Model('box', boxes.sub(F)())
    if k < 0.68 and f == 'py':
        return Model('box', rng.choice([LIB.Add_fc, LIB.Mul_fc, LIB.Lt_fc if hasattr(LIB, 'Lt_fc') else LIB.Add_fc])(F)())
    if k < 0.8:
        return Model('reg', boxes.reg(F)())
    return Model('node', boxes.node(F)())


LIB = float_lib_gen(3, 4)


def grow(rng, f, depth, pool):
    if depth == 0 or rng.random() < 0.25:
        m = leaf(rng, f)
    elif pool and rng.random() < 0.1:
        m = rng.choice(pool)
        return m
    else:
        m = Model('node', boxes.node(boxes.FAM[f]())())
        for n in rng.sample(NAMES, rng.choice([0, 1, 1, 2, 2, 3, 4])):
            edit(rng, f, m, n, depth - 1, pool)
    pool.append(m)
    return m


def edit(rng, f, m, n, depth, pool):
    if n in m.data and rng.random() < 0.3 and n in m.obj.__dict__:
        delattr(m.obj, n)
        m.data.discard(n)
        return
    if n in m.kids and rng.random() < 0.4:
        delattr(m.obj, n)
        del m.kids[n]
        return
    m.data.discard(n)
    m.kids.pop(n, None)
    if rng.random() < 0.3:
        v = rng.choice(DATA)
        if rng.random() < 0.15:
            v = [boxes.one(boxes.FAM[f]())()]
        setattr(m.obj, n, v)
        m.data.add(n)
    else:
        k = grow(rng, f, depth, pool)
        m.kids[n] = k
        setattr(m.obj, n, k.obj)


def judge(ctx, rng, m):
    want = m.boxes()
    got = get_black_boxes(m.obj)
    ctx.ok(isinstance(got, dict) and got.keys() == want.keys(), f'boxes at {sorted(got)}, the hierarchy has {sorted(want)}')
    ctx.ok(all(got[p] is want[p] for p in want), f'another object under some path of {sorted(want)}')
    for p, k in m.all():
        o = get_black_box(m.obj, list(p) if rng.random() < 0.2 else p)
        ctx.ok(o is k.obj, f'looking up {p} gives {o!r}')
        for bad in [p + ('nowhere',)] + [p + (n,) for n in sorted(k.data)] + ([p + ('__call__',)] if rng.random() < 0.2 else []):
            ctx.raises(lambda: get_black_box(m.obj, bad), f'path {bad} leads to no component', exc=ValueError)
    if want:
        p = rng.choice(sorted(want))
        sub = rng.randrange(len(p) + 1)
        # relative to a component on the way
        o = m
        for n in p[:sub]:
            o = o.kids[n]
        rel = get_black_boxes(o.obj)
        ctx.ok(rel.keys() == o.boxes().keys() and rel[p[sub:]] is want[p], f'boxes of the component {p[:sub]}: {sorted(rel)}')
    ctx.event('enumerations')
    ctx.event('boxes', len(want))
    ctx.event('max_depth_%d' % max([len(p) for p in want] or [0]))
    ctx.seen(tuple(sorted((p, type(b).__name__) for p, b in want.items())))


def case(ctx, rng):
    f = rng.choice(['py', 'py', 'pyx', 'smt'])
    if rng.random() < 0.3:
        # one box at the top, or the real designs
        m = leaf(rng, f)
        if rng.random() < 0.5:
            C = boxes.chain(boxes.FAM[f]())()
            m = Model('node', C)
            d = Model('node', C.d)
            d.kids = {'bb': Model('box', C.d.bb)}
            m.kids = {'p': Model('box', C.p), 'q': Model('box', C.q), 'd': d, 'r': Model('box', C.r)}
            ctx.ok(len({id(x) for x in (C.p, C.q, C.r, C.d.bb)}) == 4, 'distinct boxes')
        judge(ctx, rng, m)
        m = Model('node', boxes.node(boxes.FAM[f]())())
        top = m
    else:
        pool = []
        m = grow(rng, f, rng.randint(1, 6), pool)
    judge(ctx, rng, m)
    if m.kind == 'node':
        for _ in range(rng.randint(0, 5)):
            n = rng.choice([k for _, k in m.all() if k.kind == 'node'])
            edit(rng, f, n, rng.choice(NAMES), rng.randint(0, 2), [])
            judge(ctx, rng, m)
    for x in (None, 3, 'a', [m.obj], type(m.obj), BitVector[8](1)):
        ctx.raises(lambda: get_black_boxes(x), f'boxes of {x!r}', exc=ValueError)

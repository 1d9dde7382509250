"""L01: words produced by peak.bitfield, against an own model of the layout."""
import json, os, subprocess, sys
from hwtypes import BitVector, Bit
from hwtypes.adt import Product, Sum, Tuple, Enum
from peak import bitfield
from vlib import bits, core

RULE = ('random types of products, sums, enums (gaps and aliases), bits and signed and unsigned vectors up to depth 4, with user tags and offsets on random parts; both directions; every value of small '
        'types, samples of others; words, sizes, tag widths and keys against an own model, pairwise difference, words of other processes; bad tags refused; distinct = (type, value, direction)')
N = {'quick': 3000, 'thorough': 60000}
BUDGET = {'quick': 120, 'thorough': 1200}
ASSUMPTIONS = ['enum codes are non-negative integers and user tags are distinct and non-negative',
               'fit and difference are judged for types without offsets on inner parts (such offsets deliberately move parts over others)']


class Gen:
    def __init__(self, rng, tag):
        # hwtypes shares equally named and declared types: names must not repeat, or offsets would be shared
        self.r, self.n, self.pre = rng, 0, tag
        self.big = rng.random() < 0.06
        self.many = 2 if self.big else 0

    def name(self, b):
        self.n += 1
        return f'{b}{self.pre}_{self.n}'

    def off(self, p):
        return self.r.randint(1, 9) if self.r.random() < p else 0

    def leaf(self, po):
        r = self.r
        k = r.random()
        if k < 0.2:
            return ['bit']
        if k < 0.4:
            return ['bv', r.choice([16, 31, 32, 33, 64, 100]) if self.big and r.random() < 0.3 else r.randint(1, 9)]
        if k < 0.55:
            return [r.choice('su'), r.randint(1, 6)]
        if k < 0.7:
            return ['new', self.name('N'), r.randint(1, 6), self.off(po)]
        n = r.choice([1, 2, 2, 3, 4, 5, 8])
        vs = list(range(n)) if r.random() < 0.5 else r.sample(range(r.choice([n, 2 * n, 20])), n)
        if self.big and r.random() < 0.3:
            vs = [v + (1 << r.randint(5, 40)) if r.random() < 0.4 else v for v in vs]
        ms = [[f'm{i}', v] for i, v in enumerate(vs)]
        if r.random() < 0.15:
            ms.append(['alias', r.choice(vs)])
        return ['enum', self.name('E'), ms, self.off(po)]

    def spec(self, d, po):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.leaf(po)
        if r.random() < 0.55:
            fs = r.sample(['op', 'a', 'b', 'imm', 'x', 'rd', 'z'], r.choice([1, 2, 2, 3, 4]))
            if self.many and r.random() < 0.3:
                self.many -= 1
                fs += [f'k{i}' for i in range(r.randint(4, 14))]
                d = min(d, 2)
            return ['prod', self.name('P'), [[f, self.spec(d - 1, po)] for f in fs], self.off(po)]
        ts = []
        many = self.many and r.random() < 0.4
        if many:
            self.many -= 1
            d = min(d, 2)
        for _ in range(r.choice([8, 9, 11, 16, 17]) if many else r.choice([1, 2, 2, 3, 4, 5])):
            t = self.spec(d - 1, po)
            if t not in ts:
                ts.append(t)
        tags = None
        if r.random() < 0.5:
            tags = r.sample(range(r.choice([len(ts), 2 * len(ts), 20 if len(ts) <= 20 else 40, 1 << 20 if self.big else 20])), len(ts))
        # offsets and tags are kept by the class: only a class of its own may have some
        off = self.off(po)
        return ['sum', self.name('S') if tags or off or r.random() < 0.3 else None, ts, off, tags]


def case(ctx, rng):
    g = Gen(rng, ctx.index)
    if ctx.index % 100 == 7:
        return processes(ctx, rng, g)
    s = g.spec(rng.randint(0, 4), rng.choice([0, 0, 0.15]))
    if s[0] != 'enum' and rng.random() < 0.15 and s[0] in ('prod', 'sum'):
        s[3] = rng.randint(1, 9)
        s[1] = s[1] or g.name('S')
    b = bits.Builder((bitfield.bitfield, bitfield.tag))
    T = b(s)
    ctx.note(f'type {s}')
    for t in bits.walk(s):
        ctx.eq(bitfield.size(b(t)), bits.width(t), f'size of {t}')
        if t[0] == 'sum':
            ctx.eq(bitfield.sumsize(b(t)), bits.tagwidth(t), f'tag size of {t}')
    learned = {}

    def tags(t, i):
        if t[4]:
            return t[4][i]
        key = json.dumps(t)
        if key not in learned:
            # the order of default tags is the library's choice; what matters is that they are all different and fixed
            ks = [bitfield.instkey(b.inst(t, [j, bits.rand_value(u, rng)])) for j, u in enumerate(t[2])]
            ctx.eq(sorted(ks), list(range(len(ks))), f'default tags of {t}')
            learned[key] = ks
        return learned[key][i]

    for t in bits.walk(s):
        if t[0] == 'sum':
            for j, u in enumerate(t[2]):
                ctx.eq(bitfield.instkey(b.inst(t, [j, bits.rand_value(u, rng)])), tags(t, j), f'tag of alternative {j} of {t}')
                ctx.event('tags_user' if t[4] else 'tags_default')
    vals = list(bits.values(s)) if bits.count(s) <= 40 else [bits.rand_value(s, rng) for _ in range(12)]
    clean = not bits.has_inner_offset(s)
    for rev in (False, True):
        words = {}
        for v in vals:
            x = b.inst(s, v)
            w = bitfield.encode(x, reverse=rev)
            ctx.eq(w, bits.encode(s, v, rev, tags), f'word of {x!r}, reverse={rev}')
            ctx.event('words')
            if not rev:
                ctx.eq(bitfield.encode(x), w, f'word of {x!r} by default')
            if clean:
                ctx.ok(0 <= w < 1 << (bits.width(s) + bits.offset(s)), f'word {w:#x} of {x!r} does not fit in {bits.width(s)} bits')
                k = w
                c = canon(s, v)
                ctx.ok(words.setdefault(k, c) == c, f'{x!r} and another value encode to {w:#x}', words[k], c)
            ctx.seen(json.dumps(s), str(v), rev)
        if clean and len(vals) > 1:
            ctx.event('injective_types')
    refused(ctx, rng, b, s)
    ctx.sample(f'{s} {vals[0]}')


def canon(s, v):
    """Values up to aliases of enum members."""
    if s[0] == 'enum':
        return dict(s[2])[v]
    if s[0] == 'sum':
        return v[0], canon(s[2][v[0]], v[1])
    if s[0] == 'prod':
        return tuple(canon(t, x) for (_, t), x in zip(s[2], v))
    return v


def refused(ctx, rng, b, s):
    sums = [t for t in bits.walk(s) if t[0] == 'sum']
    if sums:
        t = rng.choice(sums)
        S = type(Sum)('Bad', (b(t),), {})
        ks = [b(u) for u in t[2]]
        good = {k: i for i, k in enumerate(ks)}
        short = dict(list(good.items())[1:])
        ctx.raises(lambda: bitfield.tag(short)(S), f'tags {short} for {t}')
        more = {**good, type('Other', (), {}): 9}
        ctx.raises(lambda: bitfield.tag(more)(S), f'tags for more than the alternatives of {t}')
        ctx.raises(lambda: bitfield.tag({**good, ks[0]: 'x'})(S), f'a tag that is no number for {t}')
    if s[0] == 'prod':
        ctx.raises(lambda: bitfield.tag({})(b(s)), f'tags on {s}')
    if rng.random() < 0.2:
        x = b.inst(s, bits.rand_value(s, rng))
        ctx.raises(lambda: bitfield.encode(Tuple[b(s)](x)), 'encoding of a tuple')


def processes(ctx, rng, g):
    """The same declarations encoded in other processes."""
    data = []
    while len(data) < 60:
        s = g.spec(rng.randint(1, 3), 0.05)
        if any(t[0] == 'sum' for t in bits.walk(s)):
            data.append([s, [bits.rand_value(s, rng) for _ in range(8)]])
    inp = os.path.join(ctx.scratch, f'in{ctx.index}.json')
    json.dump(data, open(inp, 'w'))
    res = []
    for run in range(3):
        out = os.path.join(ctx.scratch, f'out{ctx.index}-{run}.json')
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 2**31)), PYTHONPATH=os.environ.get('PYTHONPATH', core.ROOT))
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vlib.bits', inp, out, str(rng.getrandbits(30))], cwd=ctx.scratch, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ctx.ok(p.returncode == 0, f'encoding failed in process {run}', p.stdout[-3000:])
        res.append(json.load(open(out)))
        os.unlink(out)
        ctx.event('processes')
    for i, (s, vals) in enumerate(data):
        for run in (1, 2):
            ctx.ok(res[run][str(i)] == res[0][str(i)], f'the words of one declaration differ between processes', s, vals, res[0][str(i)], res[run][str(i)])
        ctx.event('types_across_processes')

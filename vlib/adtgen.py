"""Random instruction types and values, described independently of hwtypes and peak.

A spec is plain data (JSON-able):
  ['bit'] ['bv',n] ['s',n] ['u',n]
  ['enum', name, [[member, int | None (Auto)], ...]]
  ['prod', name, [[field, spec], ...]]      ['tuple', [spec, ...]]
  ['sum', [spec, ...]]                       ['tu', name, [[field, spec], ...]]
A value is plain data too: int for bits and vectors, the member name for an
enum, a list for products and tuples, [index, value] for sums and unions.
"""
import itertools, json
from hwtypes import Bit, BitVector, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
from hwtypes.adt_meta import EnumMeta

NAMES = ['a', 'b', 'c', 'op', 'imm', 'x', 'y', 'rd', 'mode', 'f0', 'f1', 'data', 'z9', 'B', 'Inst']
MORE_NAMES = NAMES + ['k%d' % i for i in range(12)]
WIDE = [10, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128]
TNAMES = ['A', 'B', 'C', 'Inst', 'ALU', 'Mem', 'Op', 'P', 'Foo', 'Zed']


def canon(s):
    """Equal for specs that make one and the same type: a Sum has no order."""
    if s[0] == 'sum':
        return ('sum', frozenset(canon(t) for t in s[1]))
    if s[0] in ('prod', 'tu'):
        return (s[0], s[1], tuple((f, canon(t)) for f, t in s[2]))
    if s[0] == 'tuple':
        return ('tuple', tuple(canon(t) for t in s[1]))
    return json.dumps(s)


def family_of(s):
    """Equal for types one of which may subclass the other: signed vectors of vectors, products of tuples, unions of sums."""
    if s[0] in ('bv', 's', 'u'):
        return ('vec', s[1])
    if s[0] in ('prod', 'tuple'):
        return ('tuple', tuple(canon(t) for _, t in subs(s)))
    if s[0] in ('sum', 'tu'):
        return ('sum', frozenset(canon(t) for _, t in subs(s)))
    return canon(s)


class Gen:
    """Random specs. zero: allow zero-width parts (single-member enums, one-way sums)."""
    def __init__(self, rng, zero=True, signed=True, autos=True, bvmax=9, partial=True, enums=True, same_names=True, big=0.0):
        self.r = rng
        # a share of the types gets a few wide vectors, enums with large codes, and many fields or alternatives
        self.big = rng.random() < big
        self.many = 1 if self.big else 0
        self.zero, self.signed, self.autos, self.bvmax = zero, signed, autos, bvmax
        self.partial, self.enums, self.same_names = partial, enums, same_names
        self.n = 0
        self.pool = []

    def name(self):
        self.n += 1
        if self.same_names and self.r.random() < 0.25:
            return self.r.choice(TNAMES)
        return self.r.choice(TNAMES) + str(self.n)

    def leaf(self):
        k = self.r.random()
        if k < 0.3:
            return ['bit']
        n = self.r.choice([1, 2, 3, 4, 5, 8, self.r.randint(1, self.bvmax)])
        n = min(n, self.bvmax)
        if self.big and self.r.random() < 0.3:
            n = self.r.choice(WIDE)
        if self.signed and k > 0.8:
            return [self.r.choice('su'), n]
        return ['bv', n]

    def enum(self):
        r = self.r
        kind = r.choice(['dense', 'dense', 'offset', 'upper', 'sparse', 'onehot', 'ranges', 'ranges', 'auto', 'mixed', 'single', 'two', 'holes'])
        if not self.partial:
            kind = 'full'
        w = r.randint(1, 5)
        if kind == 'full':
            vals = list(range(1 << r.randint(1, 2)))
        elif kind == 'dense':
            vals = list(range(r.randint(2, 10)))
        elif kind == 'offset':
            lo = r.randint(1, 9)
            vals = list(range(lo, lo + r.randint(1, 9)))
        elif kind == 'upper':
            hi = 1 << r.randint(2, 4)
            vals = list(range(r.randint(1, hi - 1), hi))
        elif kind == 'sparse':
            vals = r.sample(range(1 << r.randint(3, 9)), r.randint(2, 7))
        elif kind == 'onehot':
            k = r.randint(2, 6)
            vals = [1 << i for i in range(k) if r.random() < 0.85] or [1]
            if r.random() < 0.5:
                vals.append(0)
        elif kind == 'ranges':
            vals, c = [], r.randint(0, 3)
            for _ in range(r.randint(2, 4)):
                k = r.randint(1, 6)
                vals += range(c, c + k)
                c += k + r.randint(1, 4)
        elif kind == 'holes':
            m = 1 << r.randint(2, 5)
            vals = [v for v in range(m) if r.random() < 0.8] or [0]
        elif kind == 'auto':
            vals = [None] * r.randint(2, 6)
        elif kind == 'mixed':
            vals = r.sample(range(8), r.randint(1, 4)) + [None] * r.randint(1, 4)
        elif kind == 'single':
            vals = [r.choice([0, 0, 1, 2, 5, 7, None])]
        else:
            vals = r.sample(range(1 << w), 2)
        if self.big and r.random() < 0.3:
            k = r.choice(['far', 'far', 'many', 'pows'])
            if k == 'far':
                vals = r.sample(range(20), r.randint(1, 5)) + [r.choice([1 << r.randint(8, 40), (1 << r.randint(8, 40)) - 1, r.getrandbits(33)]) + 32 * r.randint(1, 3)]
            elif k == 'many':
                vals = r.sample(range(r.choice([64, 65, 100, 300])), r.randint(17, 48))
            else:
                vals = [1 << i for i in r.sample(range(40), r.randint(2, 8))] + [0]
        if not self.autos:
            used = {v for v in vals if v is not None}
            free = (i for i in itertools.count() if i not in used)
            vals = [next(free) if v is None else v for v in vals]
        if not self.zero and vals in ([0], [None]):
            vals = [0, 1]
        r.shuffle(vals)
        names = r.sample(['add', 'sub', 'mul', 'div', 'xor', 'nop', 'ld', 'st', 'jmp', 'm%d' % r.randint(0, 99)], min(len(vals), 9)) \
            + ['e%d' % i for i in range(60)]
        return ['enum', self.name(), [[n, v] for n, v in zip(names, vals)]]

    def spec(self, depth, top=False):
        r = self.r
        if not top and self.pool and r.random() < 0.15:
            return r.choice(self.pool)
        if depth <= 0 or (not top and r.random() < 0.3):
            s = self.enum() if self.enums and r.random() < 0.45 else self.leaf()
        else:
            k = r.choice(['prod', 'prod', 'tuple', 'sum', 'sum', 'tu', 'tu'] + (['enum'] if self.enums else []))
            many = 0
            if k != 'enum' and self.many and r.random() < 0.5:
                self.many -= 1
                many = r.choice([6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20])
                depth = min(depth, 2)
            if k == 'enum':
                s = self.enum()
            elif k == 'prod':
                names = r.sample(MORE_NAMES, many) if many else r.sample(NAMES, r.randint(1, 4))
                s = ['prod', self.name(), [[n, self.spec(depth - 1)] for n in names]]
            elif k == 'tuple':
                s = ['tuple', [self.spec(depth - 1) for _ in range(many or r.randint(1, 4))]]
            elif k == 'tu':
                names = r.sample(MORE_NAMES, many) if many else r.sample(NAMES, r.choice([1, 2, 2, 3, 3, 4, 5]) if self.zero else r.choice([2, 2, 3, 4, 5]))
                s = ['tu', self.name(), [[n, self.spec(depth - 1)] for n in names]]
            else:
                alts = []
                want = many or (r.choice([1, 2, 2, 3, 3, 4, 5]) if self.zero else r.choice([2, 2, 3, 4, 5]))
                for _ in range(want * 3 + 8 if many else want + 8):
                    a = self.spec(depth - 1)
                    # hwtypes itself cannot tell a type from its subclass in a Sum
                    if all(family_of(a) != family_of(o) for o in alts) and len(alts) < want:
                        alts.append(a)
                if len(alts) < 2 and not self.zero:
                    alts = [['bit'], ['bv', 2]]
                s = ['sum', alts]
        if s[0] not in ('bit', 'bv', 's', 'u'):
            self.pool.append(s)
        return s


def vary(s, rng):
    """Another type than s whose name (and the names of whose named parts) are those of s."""
    k = s[0]
    if k == 'bit':
        return ('bv', 1)
    if k in ('bv', 's', 'u'):
        return (k, s[1] + 1)
    if k == 'enum':
        used = {v for _, v in s[2] if v is not None}
        return ('enum', s[1], tuple(s[2]) + ((f'zz{len(s[2])}', rng.choice([v for v in range(len(used) + 1) if v not in used])),))
    named = lambda t: t[0] not in ('bit', 'bv', 's', 'u')
    if k in ('tuple', 'sum'):
        parts = list(s[1])
        c = [i for i, t in enumerate(parts) if named(t)] or list(range(len(parts)))
        i = rng.choice(c)
        t = vary(parts[i], rng)
        while k == 'sum' and family_of(t) in map(family_of, parts):
            t = vary(t, rng)
        parts[i] = t
        return (k, tuple(parts))
    parts = list(s[2])
    i = rng.randrange(len(parts))
    parts[i] = (parts[i][0], vary(parts[i][1], rng))
    return (k, s[1], tuple(parts))


def twins(s, rng, p=0.1):
    """s, and sometimes other types of the same names: nothing may be remembered by name."""
    res = [s]
    while rng.random() < p and len(res) < 4:
        res.append(json.loads(json.dumps(vary(res[-1], rng))))
        p = 0.5
    return res


class Builder:
    """Makes hwtypes types from specs; equal specs give the same type within one builder."""
    def __init__(self, how='mixed', rng=None):
        self.memo = {}
        self.rng = rng
        self.how = how

    def __call__(self, spec):
        key = json.dumps(spec)
        if key not in self.memo:
            self.memo[key] = self._make(spec)
        return self.memo[key]

    def _make(self, s):
        k = s[0]
        if k == 'bit':
            return Bit
        if k == 'bv':
            return BitVector[s[1]]
        if k == 's':
            return SIntVector[s[1]]
        if k == 'u':
            return UIntVector[s[1]]
        if k == 'enum':
            return EnumMeta(s[1], (Enum,), {m: EnumMeta.Auto() if v is None else v for m, v in s[2]})
        by_class = self.how == 'class' or (self.how == 'mixed' and self.rng is not None and self.rng.random() < 0.5)
        if k == 'prod':
            d = {f: self(t) for f, t in s[2]}
            return type(Product)(s[1], (Product,), d) if by_class else Product.from_fields(s[1], d)
        if k == 'tu':
            d = {f: self(t) for f, t in s[2]}
            return type(TaggedUnion)(s[1], (TaggedUnion,), d) if by_class else TaggedUnion.from_fields(s[1], d)
        if k == 'tuple':
            return Tuple[tuple(self(t) for t in s[1])]
        if k == 'sum':
            ts = [self(t) for t in s[1]]
            if self.rng is not None:
                self.rng.shuffle(ts)
            return Sum[tuple(ts)]
        raise AssertionError(s)

    def inst(self, s, v):
        k = s[0]
        T = self(s)
        if k in ('bit', 'bv', 's', 'u'):
            return T(v)
        if k == 'enum':
            return getattr(T, v)
        if k == 'prod':
            args = [self.inst(t, x) for (_, t), x in zip(s[2], v)]
            if self.rng is not None and self.rng.random() < 0.3:
                return T(**{f: a for (f, _), a in zip(s[2], args)})
            return T(*args)
        if k == 'tuple':
            return T(*[self.inst(t, x) for t, x in zip(s[1], v)])
        if k == 'sum':
            return T(self.inst(s[1][v[0]], v[1]))
        if k == 'tu':
            f, t = s[2][v[0]]
            return T(**{f: self.inst(t, v[1])})

    def read(self, s, inst):
        """The value of a plain instruction, read through its fields; type-checked on the way."""
        T = self(s)
        if type(inst) is not T and not isinstance(inst, T):
            raise TypeError(f'{inst!r} is a {type(inst)!r}, not a {T!r}')
        k = s[0]
        if k == 'bit':
            return int(bool(inst))
        if k in ('bv', 's', 'u'):
            return inst.as_uint()
        if k == 'enum':
            for m, _ in s[2]:
                if inst is getattr(T, m):
                    return m
            for m, _ in s[2]:
                if inst == getattr(T, m):
                    return m
            raise ValueError(inst)
        if k == 'prod':
            return [self.read(t, getattr(inst, f)) for f, t in s[2]]
        if k == 'tuple':
            return [self.read(t, inst[i]) for i, t in enumerate(s[1])]
        if k == 'sum':
            hits = [i for i, t in enumerate(s[1]) if inst[self(t)].match]
            if len(hits) != 1:
                raise ValueError(f'{len(hits)} alternatives match in {inst!r}')
            return [hits[0], self.read(s[1][hits[0]], inst[self(s[1][hits[0]])].value)]
        if k == 'tu':
            hits = [i for i, (f, t) in enumerate(s[2]) if getattr(inst, f).match]
            if len(hits) != 1:
                raise ValueError(f'{len(hits)} alternatives match in {inst!r}')
            f, t = s[2][hits[0]]
            return [hits[0], self.read(t, getattr(inst, f).value)]


def subs(s):
    """(key, subspec) of the direct parts of a spec; key as used to index an instruction."""
    if s[0] in ('prod', 'tu'):
        return [(f, t) for f, t in s[2]]
    if s[0] == 'tuple':
        return list(enumerate(s[1]))
    if s[0] == 'sum':
        return list(enumerate(s[1]))
    return []


def is_sum(s):
    return s[0] in ('sum', 'tu')


def walk(s):
    yield s
    for _, t in subs(s):
        yield from walk(t)


def shape(s):
    """Structure without names: what makes two types differ in kind."""
    k = s[0]
    if k in ('bit', 'bv', 's', 'u'):
        return tuple(s)
    if k == 'enum':
        return ('enum', tuple(v for _, v in s[2]))
    return (k, tuple(shape(t) for _, t in subs(s)))


def count(s, cap=10**9):
    k = s[0]
    if k == 'bit':
        return 2
    if k in ('bv', 's', 'u'):
        return min(cap, 1 << s[1])
    if k == 'enum':
        return len(s[2])
    if is_sum(s):
        return min(cap, sum(count(t, cap) for _, t in subs(s)))
    n = 1
    for _, t in subs(s):
        n = min(cap, n * count(t, cap))
    return n


def values(s):
    k = s[0]
    if k == 'bit':
        yield from (0, 1)
    elif k in ('bv', 's', 'u'):
        yield from range(1 << s[1])
    elif k == 'enum':
        yield from (m for m, _ in s[2])
    elif is_sum(s):
        for i, (_, t) in enumerate(subs(s)):
            for v in values(t):
                yield [i, v]
    else:
        for vs in itertools.product(*(list(values(t)) for _, t in subs(s))):
            yield list(vs)


def rand_value(s, r):
    k = s[0]
    if k == 'bit':
        return r.randint(0, 1)
    if k in ('bv', 's', 'u'):
        m = (1 << s[1]) - 1
        return r.choice([0, m, 1, m >> 1, r.randint(0, m), r.randint(0, m), r.randint(0, m)]) & m
    if k == 'enum':
        return r.choice(s[2])[0]
    if is_sum(s):
        i = r.randrange(len(subs(s)))
        return [i, rand_value(subs(s)[i][1], r)]
    return [rand_value(t, r) for _, t in subs(s)]


def some_values(s, r, n):
    """All values when there are at most n, else n random ones."""
    if count(s) <= n:
        return list(values(s))
    return [rand_value(s, r) for _ in range(n)]


def enum_codes(spec):
    """Declared integer codes {member: int}; Auto members are absent."""
    return {m: v for m, v in spec[2] if v is not None}


class NamedBuilder(Builder):
    """Types a generated module declares (proggen.TypeNames), found by name."""
    def __init__(self, mod, types):
        super().__init__()
        self.mod, self.types = mod, types

    def _make(self, s):
        name = self.types.names.get(repr(s))
        return getattr(self.mod, name) if name else super()._make(s)

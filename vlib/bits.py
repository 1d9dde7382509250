"""Instruction types of peak.bitfield's style, built from JSON specs, with an own model of their encoding.

['bit'] ['bv',n] ['s',n] ['u',n] ['new',name,n,offset] ['enum',name,[[m,code]..],offset]
['prod',name,[[f,spec]..],offset] ['sum',name|None,[spec..],offset,tags|None]
"""
import json, random, sys
from hwtypes import Bit, BitVector, SIntVector, UIntVector, new
from hwtypes.adt import Enum, Product, Sum
from hwtypes.adt_meta import EnumMeta


def clog2(n):
    return (n - 1).bit_length() if n > 1 else 0


def width(s):
    k = s[0]
    if k == 'bit':
        return 1
    if k in ('bv', 's', 'u'):
        return s[1]
    if k == 'new':
        return s[2]
    if k == 'enum':
        return clog2(max(max(v for _, v in s[2]) + 1, len(s[2])))       # an alias may cost a bit
    if k == 'prod':
        return sum(width(t) for _, t in s[2])
    return max(width(t) for t in s[2]) + tagwidth(s)


def tagwidth(s):
    return clog2(max(s[4]) + 1) if s[4] else clog2(len(s[2]))


def offset(s):
    return {'new': 3, 'enum': 3, 'prod': 3, 'sum': 3}.get(s[0]) and s[3] or 0


def kids(s):
    return [t for _, t in s[2]] if s[0] == 'prod' else s[2] if s[0] == 'sum' else []


def walk(s):
    yield s
    for t in kids(s):
        yield from walk(t)


def has_inner_offset(s):
    return any(offset(t) for t in walk(s) if t is not s)


def encode(s, v, rev, tags):
    """The word; tags(spec, i) gives the tag of alternative i."""
    k = s[0]
    if k == 'enum':
        w = dict(s[2])[v]
    elif k == 'prod':
        w, pos = 0, (width(s) if rev else 0)
        for (_, t), x in zip(s[2], v):
            if rev:
                pos -= width(t)
            w |= encode(t, x, rev, tags) << pos
            if not rev:
                pos += width(t)
    elif k == 'sum':
        i, x = v
        body, tag = encode(s[2][i], x, rev, tags), tags(s, i)
        w = body | tag << (width(s) - tagwidth(s)) if rev else body << tagwidth(s) | tag
    else:
        w = v
    return w << offset(s)


class Builder:
    def __init__(self, deco):
        self.memo, self.deco = {}, deco

    def __call__(self, s):
        key = json.dumps(s)
        if key not in self.memo:
            self.memo[key] = self.make(s)
        return self.memo[key]

    def make(self, s):
        bitfield, tag = self.deco
        k = s[0]
        if k == 'bit':
            return Bit
        if k in ('bv', 's', 'u'):
            return {'bv': BitVector, 's': SIntVector, 'u': UIntVector}[k][s[1]]
        if k == 'new':
            T = new(BitVector, s[2], name=s[1])
        elif k == 'enum':
            T = EnumMeta(s[1], (Enum,), {m: v for m, v in s[2]})
        elif k == 'prod':
            T = type(Product)(s[1], (Product,), {f: self(t) for f, t in s[2]})
        else:
            T = Sum[tuple(self(t) for t in s[2])]
            if s[1]:
                T = type(Sum)(s[1], (T,), {})
            if s[4]:
                tag({self(t): x for t, x in zip(s[2], s[4])})(T)
        if offset(s):
            T = bitfield(offset(s))(T)
        return T

    def inst(self, s, v):
        T = self(s)
        if s[0] == 'enum':
            return getattr(T, v)
        if s[0] == 'prod':
            return T(*[self.inst(t, x) for (_, t), x in zip(s[2], v)])
        if s[0] == 'sum':
            return T(self.inst(s[2][v[0]], v[1]))
        return T(v)


def count(s):
    n = 1
    if s[0] == 'enum':
        return len({v for _, v in s[2]})
    if s[0] == 'sum':
        return sum(count(t) for t in s[2])
    if s[0] == 'prod':
        for t in kids(s):
            n *= count(t)
        return n
    return 1 << width(s)


def values(s):
    import itertools
    k = s[0]
    if k == 'enum':
        seen = set()
        for m, v in s[2]:
            if v not in seen:
                seen.add(v)
                yield m
    elif k == 'sum':
        for i, t in enumerate(s[2]):
            for x in values(t):
                yield [i, x]
    elif k == 'prod':
        for xs in itertools.product(*[list(values(t)) for t in kids(s)]):
            yield list(xs)
    else:
        yield from range(1 << width(s))


def rand_value(s, r):
    k = s[0]
    if k == 'enum':
        return r.choice(s[2])[0]
    if k == 'sum':
        i = r.randrange(len(s[2]))
        return [i, rand_value(s[2][i], r)]
    if k == 'prod':
        return [rand_value(t, r) for t in kids(s)]
    m = (1 << width(s)) - 1
    return r.choice([0, m, 1, m >> 1, r.randint(0, m), r.randint(0, m)]) & m


def main(inp, outp, seed):
    r = random.Random(seed)
    junk = [type('J%d' % i, (), {}) for i in range(r.randrange(400))]
    from peak import bitfield
    data = json.load(open(inp))
    idx = list(range(len(data)))
    r.shuffle(idx)
    b = Builder((bitfield.bitfield, bitfield.tag))
    res = {}
    for i in idx:
        junk.append(type('K', (), {}))
        s, vals = data[i]
        res[i] = [[bitfield.encode(b.inst(s, v), reverse=rev) for rev in (False, True)] for v in vals]
    json.dump(res, open(outp, 'w'))


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]))

"""Subprocess of A03: encode the given specs and values and print everything published about them."""
import json, random, sys


def describe(builder, spec, vals):
    from vlib import asmview
    out = {}
    for ver in (1, 2):
        v = asmview.View(ver, builder, spec)
        out[f'v{ver}'] = dict(width=v.width, layout=layout(v), codes=[v.asm.assemble(builder.inst(spec, x)).as_uint() for x in vals])
    return out


def layout(v):
    if v.kind == 'enum':
        return dict(v.codes)
    if not v.subs:
        return v.width
    d = dict(pos=[list(p) for p in v.pos], sub=[layout(s) for s in v.sub])
    if v.kind in ('sum', 'tu') and v.ver == 1:
        d['tags'] = v.tags
        d['tag_pos'] = list(v.tag_pos)
    return d


def main(inp, outp, order):
    r = random.Random(order)
    junk = [type('J%d' % i, (), {}) for i in range(r.randrange(400))]
    junk += [bytearray(r.randrange(4000)) for _ in range(r.randrange(3000))]
    from vlib import adtgen
    import peak
    data = json.load(open(inp))
    idx = list(range(len(data)))
    r.shuffle(idx)
    res = {}
    b = adtgen.Builder(rng=r)
    if r.random() < 0.7:
        # declare every type before encoding any
        for i in idx:
            b(data[i][0])
        r.shuffle(idx)
    for i in idx:
        if r.random() < 0.3:
            junk.append(type('K', (), {}))
        spec, vals = data[i]
        first = describe(b, spec, vals)
        again = describe(adtgen.Builder(rng=r), spec, vals)
        res[i] = dict(first=first, again=again)
    json.dump(res, open(outp, 'w'))


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]))

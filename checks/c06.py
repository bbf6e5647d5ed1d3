"""Neighbour search: which pairs are close, and where the second particle is seen from the first."""
from .solve import *

ell, CUT = sym('box', pos=True), sym('cutoff', pos=True)
BOXES = [(None, F(0)), ((1, 1, 1), F(0)), ((1, 1, 1), F(1, 8)), ((2, 3, 4), F(-1, 5)), ((2, 3, 4), F(5, 3))]


def build(n, dims, g):
    it = Interp(ROOTS, facts=Facts([cmp_gt(ell - P(3))]))
    it.split_guarded, it.bind_norms = 64, 1
    f = find(it, 'close_particles', ['functions.shared'])
    low = [ZERO] * 3 if dims is None else [-P(d) * ell / 2 for d in dims]
    high = [ZERO] * 3 if dims is None else [P(d) * ell / 2 for d in dims]
    h = P(g) / 2
    v = it.call_func(f, [it.box(base_arr('x', (n, 3))), it.box(base_arr('a', (n,), pos=True)), CUT,
                         it.box(const_arr(low)), it.box(const_arr(high)), it.box(const_arr([ZERO, h, ZERO])),
                         it.box(const_arr([[ZERO, ZERO, h], [ZERO] * 3, [h, ZERO, ZERO]]))], {})
    return it, f, [it.unbox(x) for x in it.unpack(v, 4)]


def lattice(dims, g):
    lean = g * dims[2] % dims[0]
    return [[F(dims[0]), F(0), F(0)], [F(0), F(dims[1]), F(0)], [lean, F(0), F(dims[2])]]


def displacement(p, q, dims, g):
    """From p to q, or to the image of q whose cell coordinates relative to p lie within half a cell."""
    d = [elem('x', (q, k)) - elem('x', (p, k)) for k in range(3)]
    if dims is None or p == q:
        return d if p != q else [ZERO] * 3
    B = lattice(dims, g)
    # coordinates along the cell vectors: only the z one leans, along x
    uz = d[2] / (P(B[2][2]) * ell)
    uy = d[1] / (P(B[1][1]) * ell)
    ux = (d[0] - uz * P(B[2][0]) * ell) / (P(B[0][0]) * ell)
    w = [u - pl.floordiv(u + F(1, 2), ONE) for u in (ux, uy, uz)]
    return [pl.addn([w[r] * P(B[r][k]) * ell for r in range(3)]) for k in range(3)]


def sampler(n, dims):
    def make(seed):
        span = 8.0

        def el(name, idx):
            if name == 'a':
                big = 3.0 if seed % 3 == 2 else 1.0
                return big * (0.3 + rnd('a', idx[0], seed))
            if name == 'x':
                w = span * (dims[idx[1]] if dims else 1.0)
                if seed % 2:
                    return w * (rnd('x', idx, seed) - 0.5)
                # clustered around a face of the box
                return 0.5 * w * (idx[1] == seed // 2 % 3) + 4.0 * (rnd('y', idx, seed) - 0.5)
            return None
        v = Val(elem=el, seed=seed)
        v.env['box'], v.env['cutoff'] = span, 1.0 + rnd('c', seed)
        return v
    return make


def run():
    ck = Check('C06', 'The lists returned by the neighbour search are derived entry by entry with the condition under which each '
               'entry is present, for symbolic positions, radii, cutoff and box, and compared with the definition of a close pair.')
    ck.points = 24
    for dims, g in BOXES:
        for n in (1, 2, 3):
            one(ck, n, dims, g)
    return ck.finish(minimum=200)


def one(ck, n, dims, g):
    it, f, res = build(n, dims, g)
    ck.interp(it)
    w = site(f)
    tag = '%d particles, %s' % (n, 'open domain' if dims is None else 'box %s sheared by %s' % (dims, g))
    smp = sampler(n, dims)
    seqs = [it.gseq(a) if isinstance(a, Arr) else None for a in res]
    names = ('pairs', 'displacements', 'distances', 'size ratios')
    if any(s is None for s in seqs):
        for nm, s in zip(names, seqs):
            if s is None:
                ck.unsure('%s: %s' % (tag, nm), 'not a list of individually guarded entries')
        return
    L = [len(s) for s in seqs]
    if len(set(L)) != 1:
        ck.unsure(tag, 'lists of %s candidates' % L)
        return
    found = {}
    for (g0, _, pq), *rest in zip(*seqs):
        pair = []
        for k in range(2):
            pair.append(it.unpack(pq, 2)[k] if isinstance(pq, tuple) else cell(it, pq, k))
        pq = tuple(num(x).as_int() for x in pair)
        if None in pq:
            ck.unsure(tag, 'a listed pair is not identified')
            return
        found.setdefault(pq, []).append((g0, [(a, v) for a, _, v in rest]))
    one_if = lambda c: ite(c, ONE, ZERO)
    for p in range(n):
        for q in range(n):
            key = '%s: pair %d,%d' % (tag, p, q)
            ent = found.pop((p, q), [])
            d = displacement(p, q, dims, g)
            mean = (elem('a', (p,)) + elem('a', (q,))) / 2
            if p == q:
                want, dist = ONE, ZERO
            else:
                dist = vl.let_scalar(pl.power(vl.let_scalar(pl.addn([vl.let_scalar(x) ** 2 for x in d])), F(1, 2))) / mean
                want = one_if(cmp_gt(2 * CUT - dist)) if p < q else ZERO
            ck.same(key + ' listed', pl.addn([one_if(e[0]) for e in ent]), want, None, smp, w)
            for g0, rest in ent:
                vals = [('displacement %d' % k, rest[0], lambda v, k=k: cell(it, v, k), d[k] / mean) for k in range(3)]
                vals += [('distance', rest[1], lambda v: num(v), dist),
                         ('size ratio', rest[2], lambda v: num(v), elem('a', (q,)) / elem('a', (p,)))]
                for nm, (g1, v), get, ref in vals:
                    ck.same('%s: %s' % (key, nm), one_if(g0) * get(v), one_if(g0) * ref, None, smp, w)
                for k, (g1, _) in enumerate(rest):
                    ck.same('%s: %s aligned' % (key, names[k + 1]), one_if(g1), one_if(g0), None, smp, w)
    for pq, ent in found.items():
        ck.same('%s: pair %s is no pair' % (tag, pq), pl.addn([one_if(e[0]) for e in ent]), ZERO, None, smp, w)

"""Far-field pair mobilities between distinct spheres, unbounded fluid."""
from .common import *


def build(dumb=False):
    facts = base_facts(dumbbells=dumb, n=2)
    it = Interp(ROOTS, facts=facts)
    f = find(it, 'generate_Minfinity', ['functions.generate_Minfinity'])
    v = it.call_func(f, [posdata(it, dumbbells=dumb)], {'mu': mu})
    M = it.unbox(it.unpack(v, 2)[0])
    if not isinstance(M, Arr):
        raise AnalysisError('generate_Minfinity does not return an array: %r' % (M,))
    return it, f, M


def regimes(base, u, v, upper):
    """(name, facts, leaf map, R, s, a1, a2)"""
    R = [sym('R0'), sym('R1'), sym('R2')]
    s = pl.power(R[0] ** 2 + R[1] ** 2 + R[2] ** 2, F(1, 2))
    Yv = [sym('Y0'), sym('Y1'), sym('Y2')]
    a1, a2 = sym('a1', pos=True), sym('a2', pos=True)
    order = cmp_gt(v - u) if upper else cmp_gt(u - v)
    dom = [cmp_ge(u), cmp_ge(v), cmp_gt(Ns - u), cmp_gt(Ns - v), order]
    pos = {}
    for k in range(3):
        pos['sx', u, k] = Yv[k] + R[k]
        pos['sx', v, k] = Yv[k]
    lim = P(F(2001, 2000))
    far = [cmp_gt(s - lim * (a1 + a2)), cmp_gt(s - P(F(1, 10 ** 8)))]
    near = [cmp_gt(lim * (a1 + a2) - s), cmp_gt(s - P(F(1, 10 ** 8)))]
    far_eq = [cmp_gt(s - 2 * lim * a1), cmp_gt(s - P(F(1, 10 ** 8)))]
    out = []
    m = dict(pos)
    m['sa', u], m['sa', v] = a1, a2
    out.append(('separated, different radii', base.extend(*(dom + far + [c_not(cmp_eq(a1 - a2))])), m, R, s, a1, a2))
    out.append(('overlapping, different radii', base.extend(*(dom + near + [c_not(cmp_eq(a1 - a2))])), m,
                [x * lim * (a1 + a2) / s for x in R], lim * (a1 + a2), a1, a2))
    m2 = dict(pos)
    m2['sa', u], m2['sa', v] = a1, a1
    out.append(('separated, equal radii', base.extend(*(dom + far_eq)), m2, R, s, a1, a1))
    return out


def sampler_for(env0, near=False):
    def make(seed):
        env = dict(env0)
        a1, a2 = 0.5 + rnd('a1', seed), 0.5 + rnd('a2', seed)
        env['a1'], env['a2'] = a1, a2
        d = [rnd('R', k, seed) - 0.5 for k in range(3)]
        n = sum(x * x for x in d) ** 0.5
        L = (a1 + max(a1, a2)) * (0.3 + 0.6 * rnd('L', seed) if near else 1.1 + 2 * rnd('L', seed))
        for k in range(3):
            env['R%d' % k] = d[k] / n * L
        return Val(env, seed=seed)
    return make


def run():
    ck = Check('C01', 'The mobility matrix is derived as a term for every cell of every block coupling two distinct '
               'spheres p, q (p<q and p>q, symbolic counts, positions, radii, viscosity) and compared with the '
               'multipole mobility tensors obtained by differentiating the Oseen tensor.')
    it, f, M = build()
    ck.interp(it)
    c = 1 / (8 * PI * mu)
    u, v = sym('u', isint=True), sym('v', isint=True)
    base = it.facts
    cells = 0
    for upper in (True, False):
        for name, facts, mp, R, s, a1, a2 in regimes(base, u, v, upper):
            ref = far_field(a1, a2, c)
            back = far_field(a2, a1, c)
            leaf = elem_leaf(mp)
            smp = sampler_for({'Ns': 4.0, 'Nd': 0.0, 'u': 1.0 if upper else 2.0, 'v': 2.0 if upper else 1.0},
                              'overlap' in name)
            for k1 in 'UOE':
                for k2 in 'UOE':
                    fk = {'U': 'F', 'O': 'T', 'E': 'S'}[k2]
                    for i in range(width(k1)):
                        for j in range(width(k2)):
                            if k1 == 'E' and k2 == 'O':
                                # by reciprocity with the rotation of 2 due to a stresslet on 1
                                want = at(back['OS', j, i], [-x for x in R], s)
                            else:
                                want = at(ref[k1 + fk, i, j], R, s)
                            key = 'pair block %s%s[%d,%d] %s %s' % (k1, fk, i, j, 'p<q' if upper else 'p>q', name)
                            vl.HITS.clear()
                            it.facts = facts
                            got = M.get((row(k1, u, i), row(k2, v, j)))
                            ck.same(key, got, want, facts, smp, site(f), leaf)
                            cells += 1
    ck.extra['cells'] = cells
    return ck.finish(minimum=200)

"""Far-field mobility in a periodic box: lattice sums split between real and reciprocal space."""
from .solve import *

SPI = pl.power(PI, F(1, 2))
ell, lam = sym('box', pos=True), sym('@lam', pos=True)
_E, _G, _I = sym('@erfc', pos=True), sym('@gauss', pos=True), sym('@i')
_KV = [sym('@k%d' % k) for k in range(3)]
SLACK = F(14142, 10000)


# -- the split tensors, from r erfc(lam r), its Fourier transform, and the series of r erf(lam r) at 0 ----------------

def d_real(p, k):
    ids = {pl.atom_of(x).id: n for n, x in ((0, Tensor.R[k]), (1, Tensor.S), (2, _E), (3, _G))}
    out = []
    for m, c in p.t.items():
        for n, (a, e) in enumerate(m):
            w = ids.get(a)
            if w is None:
                continue
            t = Poly({m[:n] + m[n + 1:]: c * F(e)}) * pl.power(pl.from_atom(pl.atom_by_id(a)), F(e) - 1)
            if w == 1:
                t = t * Tensor.R[k] / Tensor.S
            elif w == 2:
                t = t * (-2 * lam / SPI) * _G * Tensor.R[k] / Tensor.S
            elif w == 3:
                t = t * (-2 * lam ** 2) * Tensor.R[k] * _G
            out.append(t)
    return reduceS(pl.addn(out))


def d_wave(p, k):
    q = p * _I * _KV[k]
    i = pl.atom_of(_I).id
    out = []
    for m, c in q.t.items():
        d = dict(m)
        if d.get(i) == 2:
            del d[i]
            out.append(Poly({tuple(sorted(d.items())): -c}))
        else:
            out.append(Poly({m: c}))
    return pl.addn(out)


def d_series(p, k):
    a = pl.atom_of(Tensor.R[k]).id
    out = []
    for m, c in p.t.items():
        for n, (b, e) in enumerate(m):
            if b == a:
                out.append(Poly({m[:n] + m[n + 1:]: c * F(e)}) * pl.power(Tensor.R[k], F(e) - 1))
    return pl.addn(out)


class Split:
    """Pair mobilities built from a scalar T with stokeslet (delta lap - grad grad) T."""

    def __init__(self, T, d):
        memo = {}

        def D(p, k):
            r = memo.get((p, k))
            if r is None:
                r = memo[p, k] = d(p, k)
            return r
        self.D = D
        lp = self.lap
        DD = [[D(D(T, i), j) for j in range(3)] for i in range(3)]
        tr = DD[0][0] + DD[1][1] + DD[2][2]
        self.J = [[delta(i, j) * tr - DD[i][j] for j in range(3)] for i in range(3)]
        J = self.J
        self.K = {(i, j, k): (D(J[i][j], k) + D(J[i][k], j)) / 2 for i in range(3) for j in range(3) for k in range(3)}
        self.Rt = {(i, j): -pl.addn([P(eps(j, k, l)) * D(J[i][l], k) for k in range(3) for l in range(3) if eps(j, k, l)]) / 2
                   for i in range(3) for j in range(3)}

    def lap(self, p):
        return pl.addn([self.D(self.D(p, k), k) for k in range(3)])

    def blocks(self, a1, a2, c):
        D, lp, J, K, Rt = self.D, self.lap, self.J, self.K, self.Rt
        out = {}
        for i in range(3):
            for j in range(3):
                out['UF', i, j] = c * (J[i][j] + (a1 ** 2 + a2 ** 2) / 6 * lp(J[i][j]))
                out['UT', i, j] = c * (Rt[i, j] + a1 ** 2 / 6 * lp(Rt[i, j]))
                out['OT', i, j] = c / 2 * pl.addn([P(eps(i, k, l)) * D(Rt[l, j], k) for k in range(3) for l in range(3)
                                                  if eps(i, k, l)])
        ix = [(j, k) for j in range(3) for k in range(3)]
        US, OS, ES = {}, {}, {}
        for i in range(3):
            for j, k in ix:
                US[i, j, k] = -c * (K[i, j, k] + (a1 ** 2 / 6 + a2 ** 2 / 10) * lp(K[i, j, k]))
                OS[i, j, k] = -c / 2 * pl.addn([P(eps(i, l, m)) * (D(K[m, j, k], l) + a2 ** 2 / 6 * D(lp(K[m, j, k]), l))
                                                for l in range(3) for m in range(3) if eps(i, l, m)])
        for i in range(3):
            for j in range(i, 3):
                for k in range(3):
                    for l in range(k, 3):
                        v = -c / 2 * (D(K[i, k, l], j) + D(K[j, k, l], i) + (a1 ** 2 + a2 ** 2) / 10 * (
                            D(lp(K[i, k, l]), j) + D(lp(K[j, k, l]), i)))
                        for p, q in {(i, j), (j, i)}:
                            for m, n in {(k, l), (l, k)}:
                                ES[p, q, m, n] = v
        for a in range(5):
            B = BASIS[a]
            for i in range(3):
                out['US', i, a] = pl.addn([US[i, j, k] * B[j][k] for j, k in ix])
                out['OS', i, a] = pl.addn([OS[i, j, k] * B[j][k] for j, k in ix])
            for b in range(5):
                out['ES', a, b] = pl.addn([ES[i, j, k, l] * B[i][j] * BASIS[b][k][l] for i, j in ix for k, l in ix])
        return out


REAL, WAVE, SERIES = {}, {}, {}
A1, A2, C = sym('@a1', pos=True), sym('@a2', pos=True), sym('@c', pos=True)


def prepare():
    if REAL:
        return
    R, S = Tensor.R, Tensor.S
    REAL.update(Split(S * _E, d_real).blocks(A1, A2, C))
    # the transform of r erf(lam r) is a function of |k| only: kept as a factor
    WAVE.update(Split(ONE, d_wave).blocks(A1, A2, C))
    r2 = R[0] ** 2 + R[1] ** 2 + R[2] ** 2
    T = 2 / SPI * (lam * r2 - lam ** 3 * r2 ** 2 / 3 + lam ** 5 * r2 ** 3 / 10)
    for k, v in Split(T, d_series).blocks(A1, A2, C).items():
        SERIES[k] = pl.subst(v, {x: ZERO for x in R})


def fn(name, x):
    return pl.apply_fn(name, (x,))


def real_at(block, a1, a2, c, r, lamb):
    r = [vl.let_scalar(x) for x in r]
    s = vl.let_scalar(pl.power(vl.let_scalar(r[0] ** 2 + r[1] ** 2 + r[2] ** 2), F(1, 2)))
    return pl.subst(REAL[block], {A1: a1, A2: a2, C: c, lam: lamb, Tensor.R[0]: r[0], Tensor.R[1]: r[1], Tensor.R[2]: r[2],
                                  Tensor.S: s, _E: vl.let_scalar(fn('erfc', lamb * s)),
                                  _G: vl.let_scalar(fn('exp', -(lamb * s) ** 2))})


def wave_at(block, a1, a2, c, k, r, lamb, odd):
    """Real part of (transform at k) exp(i k.r)."""
    k2 = k[0] ** 2 + k[1] ** 2 + k[2] ** 2
    x = k2 / (4 * lamb ** 2)
    weight = vl.let_scalar(-8 * PI / k2 ** 2 * (1 + x + 2 * x ** 2) * fn('exp', -x))
    p = pl.subst(WAVE[block], {A1: a1, A2: a2, C: c, _KV[0]: k[0], _KV[1]: k[1], _KV[2]: k[2], _I: ONE})
    ph = vl.let_scalar(pl.addn([u * v for u, v in zip(k, r)])) if r is not None else ZERO
    return p * weight * (-fn('sin', ph) if odd else fn('cos', ph))


class Box:
    """A box of given proportions and accumulated shear (du_x = g dz), with its truncated lattices."""

    def __init__(self, dims, g, far):
        import itertools
        self.dims, self.g = [P(d) * ell for d in dims], g
        vol = F(1)
        for d in dims:
            vol *= d
        side = round(float(vol) ** (1 / 3))
        assert F(side) ** 3 == vol
        self.L = side * ell
        self.vol = vol * ell ** 3
        # cell vectors: the z one leans over by the shear, folded back into the box width
        lean = g * dims[2] % dims[0]
        B = [[F(dims[0]), F(0), F(0)], [F(0), F(dims[1]), F(0)], [lean, F(0), F(dims[2])]]
        cr = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        Kb = [cr(B[1], B[2]), cr(B[2], B[0]), cr(B[0], B[1])]
        self.X, self.K = [], []
        for n in itertools.product(range(-far, far + 1), repeat=3):
            x = [sum(n[q] * B[q][k] for q in range(3)) for k in range(3)]
            if sum(v * v for v in x) <= (SLACK * far * side) ** 2:
                self.X.append([P(v) * ell for v in x])
        # which wave vectors are kept: as many cells, in the order the reciprocal vectors are paired with the cells
        for n in itertools.product(range(-far, far + 1), repeat=3):
            x = [sum(n[q] * B[q][k] for q in range(3)) for k in range(3)]
            if 0 < sum(v * v for v in x) <= (SLACK * far * side) ** 2:
                m = (n[1], n[0], n[2])
                k = [sum(m[q] * Kb[q][j] * (-1 if q == 0 else 1) * (-1 if q == 1 else 1) for q in range(3))
                     / vol for j in range(3)]
                self.K.append([2 * PI * P(v) / ell for v in k])
        self.lamb = SPI / self.L


CASES = [
    # spheres, dumbbells, radii, box, shear, spacing, are beads of different dumbbells coupled
    (2, 0, 'different', (1, 1, 1), F(0), 'apart', True), (2, 0, 'equal', (4, 6, 9), F(1, 5), 'apart', True),
    (2, 0, 'different', (1, 1, 1), F(0), 'overlapping', True),
    (1, 1, 'different', (1, 1, 1), F(1, 4), 'apart', True), (0, 2, 'different', (4, 6, 9), F(0), 'apart', True),
    (0, 2, 'different', (1, 1, 1), F(0), 'apart', False),
]


def build(ns, nd, box, far, bb):
    it = Interp(ROOTS, facts=Facts([cmp_gt(ell - P(3))]), overrides={
        'settings.how_far_to_reproduce_gridpoints': P(far), 'settings.bead_bead_interactions': bb})
    it.bind_mul, it.bind_norms = 4, 1
    f = find(it, 'generate_Minfinity_periodic', ['functions.generate_Minfinity_periodic'])
    pos = it.box((base_arr('sa', (ns,), pos=True), base_arr('sx', (ns, 3)), base_arr('srot', (ns, 2, 3)),
                  base_arr('da', (nd,), pos=True), base_arr('dx', (nd, 3)), base_arr('dd', (nd, 3))))
    h = P(box.g) / 2
    v = it.call_func(f, [pos, it.box(const_arr([ZERO] * 3)), it.box(const_arr(list(box.dims)))], {
        'mu': mu, 'Ot_infinity': it.box(const_arr([ZERO, h, ZERO])),
        'Et_infinity': it.box(const_arr([[ZERO, ZERO, h], [ZERO] * 3, [h, ZERO, ZERO]]))})
    M = it.unbox(it.unpack(v, 2)[0])
    if not isinstance(M, Arr):
        raise AnalysisError('the periodic mobility is not an array: %r' % (M,))
    return it, f, M


def run():
    ck = Check('C04', 'The periodic mobility matrix is derived as terms for symbolic positions, radii, viscosity and box size '
               'and compared, cell by cell, with the lattice sum of screened pair mobilities plus the reciprocal sum plus '
               'the self term, all obtained by differentiating r erfc(lambda r), its transform and its series.')
    ck.reduce = False
    prepare()
    for case in CASES:
        one(ck, case)
    return ck.finish(minimum=150)


def sampler_for(ns, nd, radii, dims, spacing):
    cache = {}

    def make(seed):
        if seed in cache:
            return cache[seed]
        n = ns + nd
        rad = [0.4 + 0.5 * rnd('a', p, seed) for p in range(n)]
        if radii == 'equal':
            rad = [rad[0]] * n
        B = 6.0
        at = []
        for p in range(n):
            if spacing == 'overlapping' and p:
                at.append([at[0][k] + 0.5 * (rnd('o', k, p, seed) + 0.2) for k in range(3)])
                continue
            # one particle per slab along z keeps them apart
            z = (p + 0.3 + 0.3 * rnd('z', p, seed)) / n - 0.5
            at.append([B * float(dims[0]) * (rnd('x', p, seed) - 0.5), B * float(dims[1]) * (rnd('y', p, seed) - 0.5),
                       B * float(dims[2]) * z])

        def el(name, idx):
            if name == 'sa':
                return rad[idx[0]]
            if name == 'da':
                return rad[ns + idx[0]]
            if name == 'sx':
                return at[idx[0]][idx[1]]
            if name == 'dx':
                return at[ns + idx[0]][idx[1]]
            if name == 'dd':
                return (2.2, 0.3 * rnd('d', idx, seed), 0.2 * rnd('d', idx, seed))[idx[1]]
            return None
        cache[seed] = v = Val(elem=el, seed=seed)
        v.env['box'], v.env['mu'] = B, 0.7 + rnd('mu', seed)
        return v
    return make


def one(ck, case, far=1):
    ns, nd, radii, dims, g, spacing, bb = case
    box = Box([F(d) for d in dims], g, far)
    it, f, M = build(ns, nd, box, far, bb)
    ck.interp(it)
    w = site(f)
    c = 1 / (8 * PI * mu)
    smp = sampler_for(ns, nd, radii, dims, spacing)
    tag = '%d spheres, %d dumbbells, %s radii, %s, box %s, shear %s%s' % (
        ns, nd, radii, spacing, dims, g, '' if bb else ', dumbbells uncoupled')
    side = 11 * ns + 6 * nd
    for k in range(2):
        ck.same('%s: size %d' % (tag, k), M.shape[k], P(side), None, None, w)
    e = lambda n, *i: elem(n, i)
    beads = [([e('sx', p, k) for k in range(3)], elem('sa', (p,))) for p in range(ns)]
    for sg in (-1, 1):
        beads += [([e('dx', p, k) + F(sg, 2) * e('dd', p, k) for k in range(3)], elem('da', (p,))) for p in range(nd)]
    memo = {}

    def pair(p, q, block, i, j):
        """Motion of bead p from a load on bead q."""
        key = (p, q, block, i, j)
        if key in memo:
            return memo[key]
        (x, a1), (y, a2) = beads[p], beads[q]
        odd = block in ('UT', 'US')
        if p == q:
            out = ZERO
            if not odd:
                out = {'UF': delta(i, j) / (6 * PI * mu * a1), 'OT': delta(i, j) / (8 * PI * mu * a1 ** 3), 'OS': ZERO,
                       'ES': delta(i, j) * 3 / (20 * PI * mu * a1 ** 3)}[block]
                terms = [real_at((block, i, j), a1, a1, c, X, box.lamb) for X in box.X if any(v.t for v in X)]
                terms += [wave_at((block, i, j), a1, a1, c, K, None, box.lamb, False) / box.vol for K in box.K]
                out = out + pl.addn(terms) - pl.subst(SERIES[block, i, j], {A1: a1, A2: a1, C: c, lam: box.lamb})
        else:
            r = [u - v for u, v in zip(x, y)]
            if spacing == 'overlapping':
                # kept just out of contact, as in the open domain
                far_s = F(2001, 2000) * (a1 + a2) / pl.power(vl.let_scalar(r[0] ** 2 + r[1] ** 2 + r[2] ** 2), F(1, 2))
                r = [vl.let_scalar(u) * far_s for u in r]
            terms = [real_at((block, i, j), a1, a2, c, [u + v for u, v in zip(r, X)], box.lamb) for X in box.X]
            terms += [wave_at((block, i, j), a1, a2, c, K, r, box.lamb, odd) / box.vol for K in box.K]
            out = pl.addn(terms)
        memo[key] = out
        return out

    rows = []
    for kind, wd in (('U', 3), ('O', 3), ('E', 5)):
        rows += [(kind, p, i) for p in range(ns) for i in range(wd)]
    rows += [('B', p, i) for p in range(nd) for i in range(3)] + [('H', p, i) for p in range(nd) for i in range(3)]

    def parts(kind, p):
        """Beads of a generalised coordinate with their weights."""
        if kind in 'UOE':
            return [(p, F(1))]
        sg = -1 if kind == 'H' else 1
        return [(ns + p, F(sg, 2)), (ns + nd + p, F(1, 2))]
    for a, (k1, p, i) in enumerate(rows):
        for b, (k2, q, j) in enumerate(rows):
            m1, m2 = ('U' if k1 in 'BH' else k1), {'U': 'F', 'B': 'F', 'H': 'F', 'O': 'T', 'E': 'S'}[k2]
            tot = []
            for x, wx in parts(k1, p):
                for y, wy in parts(k2, q):
                    if not bb and x != y and min(x, y) >= ns and (x - ns) % nd != (y - ns) % nd:
                        continue
                    if (m1 + m2) in ('UF', 'UT', 'US', 'OT', 'OS', 'ES'):
                        v = pair(x, y, m1 + m2, i, j)
                    else:
                        # by reciprocity
                        v = pair(y, x, {'F': 'U', 'T': 'O', 'S': 'E'}[m2] + {'U': 'F', 'O': 'T', 'E': 'S'}[m1], j, i)
                    tot.append(wx * wy * v)
            ck.same('%s: cell %s%d.%d, %s%d.%d' % (tag, k1, p, i, k2, q, j), cell(it, M, a, b), pl.addn(tot), None, smp, w)

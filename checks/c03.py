"""Grand mobility matrix: dumbbell rows and columns, symmetry, size."""
from .common import *


def build(bb=True):
    facts = base_facts(n=2)
    it = Interp(ROOTS, facts=facts, overrides={'settings.bead_bead_interactions': bb})
    f = find(it, 'generate_Minfinity', ['functions.generate_Minfinity'])
    v = it.call_func(f, [posdata(it)], {'mu': mu})
    M = it.unbox(it.unpack(v, 2)[0])
    if not isinstance(M, Arr):
        raise AnalysisError('generate_Minfinity does not return an array: %r' % (M,))
    return it, f, M


LIM = P(F(2001, 2000))
EPS = P(F(1, 10 ** 8))


def dist(R):
    return pl.power(R[0] * R[0] + R[1] * R[1] + R[2] * R[2], F(1, 2))


def gap(R, asum, near):
    s = dist(R)
    return [cmp_gt(s - EPS), cmp_gt(LIM * asum - s) if near else cmp_gt(s - LIM * asum)]


def clamp(R, asum, near):
    """Displacement and distance used for a pair."""
    if not near:
        return R, dist(R)
    s = dist(R)
    return [x * LIM * asum / s for x in R], LIM * asum


def combine(k1, k2, cell):
    """Mean / half-difference combination of per-bead couplings cell(b1, b2) where
    b is 0 (not a bead), 1 or 2."""
    w1 = {0: ONE} if k1 in 'UOE' else {1: P(F(1, 2)) if k1 == 'B' else P(F(-1, 2)), 2: P(F(1, 2))}
    w2 = {0: ONE} if k2 in 'UOE' else {1: P(F(1, 2)) if k2 == 'B' else P(F(-1, 2)), 2: P(F(1, 2))}
    return pl.addn([x * y * cell(b1, b2) for b1, x in w1.items() for b2, y in w2.items()])


def run():
    ck = Check('C03', 'Cells of the far-field mobility matrix involving dumbbells are derived as terms for a symbolic '
               'number of spheres and dumbbells and compared with the bead mobilities combined into mean and '
               'half-difference motions; both triangles are compared, so symmetry of every block is covered; the '
               'derived shape must be 11 Ns + 6 Nd.')
    c = 1 / (8 * PI * mu)
    u, w, w2 = sym('u', isint=True), sym('w', isint=True), sym('w2', isint=True)
    R, Q = [sym('R%d' % k) for k in range(3)], [sym('Q%d' % k) for k in range(3)]
    T = [sym('T%d' % k) for k in range(3)]
    Yv = [sym('Y%d' % k) for k in range(3)]
    a1, a2 = sym('a1', pos=True), sym('a2', pos=True)
    it, f, M = build()
    ck.interp(it)
    base = it.facts
    it.facts = base
    for k, n in enumerate(M.shape):
        ck.same('matrix side %d' % k, n, SIDE, base, where=site(f))

    def vec(tag, seed, L):
        d = [rnd(tag, k, seed) - 0.5 for k in range(3)]
        n = sum(x * x for x in d) ** 0.5
        return [x / n * L for x in d]

    # sphere - dumbbell
    for tag, near1, near2 in (('both beads separated', False, False), ('first bead overlapping', True, False),
                              ('second bead overlapping', False, True)):
        facts = base.extend(cmp_ge(u), cmp_gt(Ns - u), cmp_ge(w), cmp_gt(Nd - w),
                            *(gap(R, a1 + a2, near1) + gap(Q, a1 + a2, near2)))
        mp = {('sa', u): a1, ('da', w): a2}
        for k in range(3):
            mp['sx', u, k] = Yv[k]
            mp['dx', w, k] = Yv[k] - (R[k] + Q[k]) / 2
            mp['dd', w, k] = R[k] - Q[k]
        leaf = elem_leaf(mp)

        def smp(seed, near1=near1, near2=near2):
            env = {'Ns': 3.0, 'Nd': 3.0, 'u': 1.0, 'w': 1.0, 'a1': 0.5 + rnd('a', seed), 'a2': 0.5 + rnd('b', seed)}
            for t, nr in (('R', near1), ('Q', near2)):
                L = (env['a1'] + env['a2']) * (0.3 + 0.5 * rnd('L' + t, seed) if nr else 1.1 + rnd('L' + t, seed))
                for k, x in enumerate(vec(t, seed, L)):
                    env['%s%d' % (t, k)] = x
            return Val(env, seed=seed)
        ref = far_field(a1, a2, c)          # sphere first
        disp = {1: clamp(R, a1 + a2, near1), 2: clamp(Q, a1 + a2, near2)}
        for k1 in 'UOE':
            for k2 in 'BH':
                for i in range(width(k1)):
                    for j in range(3):
                        want = combine(k1, k2, lambda b1, b2: at(ref[k1 + 'F', i, j], *disp[b2]))
                        for trans in (False, True):
                            it.facts = facts
                            vl.HITS.clear()
                            ri, ci = row(k1, u, i), row(k2, w, j)
                            got = M.get((ci, ri) if trans else (ri, ci))
                            ck.same('sphere-dumbbell %s%s[%d,%d]%s %s' % (k1, k2, i, j, ' transposed' if trans else '',
                                                                         tag), got, want, facts, smp, site(f), leaf)
    # dumbbell - dumbbell, different dumbbells, and the two beads of one dumbbell
    for bb in (True, False):
        if not bb:
            it, f, M = build(False)
            ck.interp(it)
            base = it.facts
        word = 'bead-bead on' if bb else 'bead-bead off'
        for upper in (True, False):
            d = {}
            # x_b(w) - x_c(w2): choose bead1-bead1 = R, with half lengths Q (w) and T (w2)
            for b in (1, 2):
                for b2 in (1, 2):
                    d[b, b2] = [R[k] + (Q[k] if b == 2 else 0) - (T[k] if b2 == 2 else 0) for k in range(3)]
            conds = [cmp_ge(w), cmp_gt(Nd - w), cmp_ge(w2), cmp_gt(Nd - w2),
                     cmp_gt(w2 - w) if upper else cmp_gt(w - w2), c_not(cmp_eq(a1 - a2))]
            for x in d.values():
                conds += gap(x, a1 + a2, False)
            facts = base.extend(*conds)
            mp = {('da', w): a1, ('da', w2): a2}
            for k in range(3):
                mp['dd', w, k] = Q[k]
                mp['dd', w2, k] = T[k]
                mp['dx', w, k] = Yv[k] + R[k] + Q[k] / 2
                mp['dx', w2, k] = Yv[k] + T[k] / 2
            leaf = elem_leaf(mp)
            ref = far_field(a1, a2, c)

            def smp2(seed, upper=upper):
                env = {'Ns': 2.0, 'Nd': 3.0, 'w': 1.0 if upper else 2.0, 'w2': 2.0 if upper else 1.0,
                       'a1': 0.5 + rnd('a', seed), 'a2': 0.5 + rnd('b', seed)}
                for t, L in (('R', 7.0), ('Q', 1.0), ('T', 1.5)):
                    for k, x in enumerate(vec(t, seed, L)):
                        env['%s%d' % (t, k)] = x
                return Val(env, seed=seed)
            for k1 in 'BH':
                for k2 in 'BH':
                    for i in range(3):
                        for j in range(3):
                            want = combine(k1, k2, lambda b1, b2: at(ref['UF', i, j], d[b1, b2])) if bb else ZERO
                            it.facts = facts
                            vl.HITS.clear()
                            got = M.get((row(k1, w, i), row(k2, w2, j)))
                            ck.same('dumbbell-dumbbell %s%s[%d,%d] %s %s' % (k1, k2, i, j, 'p<q' if upper else 'p>q',
                                                                             word), got, want, facts, smp2, site(f), leaf)
        for near in (False, True):
            facts = base.extend(cmp_ge(w), cmp_gt(Nd - w), *gap(Q, 2 * a1, near))
            mp = {('da', w): a1}
            for k in range(3):
                mp['dd', w, k] = Q[k]
            leaf = elem_leaf(mp)
            ref = far_field(a1, a1, c)

            def smp3(seed, near=near):
                env = {'Ns': 2.0, 'Nd': 3.0, 'w': 1.0, 'a1': 0.5 + rnd('a', seed)}
                L = 2 * env['a1'] * (0.3 + 0.5 * rnd('L', seed) if near else 1.1 + rnd('L', seed))
                for k, x in enumerate(vec('Q', seed, L)):
                    env['Q%d' % k] = x
                return Val(env, seed=seed)
            for k1 in 'BH':
                for k2 in 'BH':
                    for i in range(3):
                        for j in range(3):
                            def cell(b1, b2):
                                if b1 == b2:
                                    return delta(i, j) / (6 * PI * mu * a1)
                                return at(ref['UF', i, j], *clamp(Q, 2 * a1, near)) if bb else ZERO
                            want = combine(k1, k2, cell)
                            it.facts = facts
                            vl.HITS.clear()
                            got = M.get((row(k1, w, i), row(k2, w, j)))
                            ck.same('dumbbell self %s%s[%d,%d] %s %s' % (k1, k2, i, j, 'overlapping' if near else
                                                                        'separated', word), got, want, facts, smp3,
                                    site(f), leaf)
    return ck.finish(minimum=150)

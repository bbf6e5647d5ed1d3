"""Near-field pair resistances."""
from .lub import *
from .c03 import dist


def build(bb=True, spheres=True, dumb=True):
    facts = base_facts(n=2, dumbbells=dumb).extend(cmp_ge(NL - 1), cmp_ge(NSD - 2))
    ov = dict(TABLES)
    ov['settings.bead_bead_interactions'] = bb
    it = Interp(ROOTS, facts=facts, overrides=ov)
    f = find(it, 'generate_R2Bexact', ['functions.generate_R2Bexact'])
    v = it.call_func(f, [posdata(it, dumbbells=dumb)], {'mu': mu, 'cutoff_factor': cf})
    M = it.unbox(it.unpack(v, 2)[0])
    if not isinstance(M, Arr):
        raise AnalysisError('generate_R2Bexact does not return an array: %r' % (M,))
    return it, f, M


def vec(tag, seed, L):
    d = [rnd(tag, k, seed) - 0.5 for k in range(3)]
    n = sum(x * x for x in d) ** 0.5
    return [x / n * L for x in d]


def weights(k):
    if k in 'UOE':
        return {0: ONE}
    return {1: ONE if k == 'B' else -ONE, 2: ONE}


def run():
    ck = Check('C05', 'Cells of the near-field resistance matrix coupling two different particles are derived as terms '
               'for symbolic positions, radii, tables and cutoff, and compared with the two-sphere resistance tensors '
               '(both orders, both triangles, spheres and dumbbell beads); cells coupling a particle to itself are '
               'compared with the sum over its close neighbours.')
    u, v = sym('u', isint=True), sym('v', isint=True)
    R = [sym('R%d' % k) for k in range(3)]
    Q = [sym('Q%d' % k) for k in range(3)]
    T = [sym('T%d' % k) for k in range(3)]
    Yv = [sym('Y%d' % k) for k in range(3)]
    a1, a2 = sym('a1', pos=True), sym('a2', pos=True)
    it, f, M = build()
    ck.interp(it)
    base = it.facts
    for k, n in enumerate(M.shape):
        ck.same('matrix side %d' % k, n, SIDE, base, where=site(f))

    def smp(upper, near, same):
        def make(seed):
            env = dict(TENV)
            env.update({'Ns': 3.0, 'Nd': 2.0, 'u': 1.0 if upper else 2.0, 'v': 2.0 if upper else 1.0})
            env['a1'] = 0.5 + rnd('a', seed)
            env['a2'] = env['a1'] * (1 if same else (0.25, 0.5, 2.0, 4.0)[int(4 * rnd('l', seed))])
            env['cf'] = 1.5 + 0.5 * rnd('cf', seed)
            m = (env['a1'] + env['a2'])
            L = m * (1.05 + (env['cf'] - 1.1) * rnd('L', seed) if near else env['cf'] * (1.05 + rnd('L', seed)))
            for k, x in enumerate(vec('R', seed, L)):
                env['R%d' % k] = x
            return Val(env, elem=table_elem(seed), seed=seed)
        return make
    s = dist(R)
    # sphere - sphere
    for upper in (True, False):
        for near in (True, False):
            for same in ((False, True) if near else (False,)):
                b = a1 if same else a2
                conds = [cmp_ge(u), cmp_ge(v), cmp_gt(Ns - u), cmp_gt(Ns - v), cmp_gt(v - u) if upper else cmp_gt(u - v),
                         cmp_gt(cf * (a1 + b) - s) if near else cmp_gt(s - cf * (a1 + b)), cmp_gt(s)]
                if not same:
                    conds.append(c_not(cmp_eq(a1 - a2)))
                facts = base.extend(*conds)
                mp = {('sa', u): a1, ('sa', v): b}
                for k in range(3):
                    mp['sx', u, k] = Yv[k]
                    mp['sx', v, k] = Yv[k] + R[k]
                leaf = elem_leaf(mp)
                pr = Pair(R, a1, b, upper)
                for k1 in 'UOE':
                    for k2 in 'UOE':
                        for i in range(width(k1)):
                            for j in range(width(k2)):
                                if (same or not near) and (i + 2 * j) % 3:
                                    continue
                                want = mu * pair_cell(pr, k1, k2, i, j) if near else ZERO
                                it.facts = facts
                                vl.HITS.clear()
                                got = M.get((row(k1, u, i), row(k2, v, j)))
                                ck.same('sphere pair %s%s[%d,%d] %s %s %s' % (
                                    k1, k2, i, j, 'p<q' if upper else 'p>q', 'within cutoff' if near else 'beyond cutoff',
                                    'equal radii' if same else 'different radii'), got, want, facts,
                                    smp(upper, near, same), site(f), leaf)
    # sphere - dumbbell: bead 1 at R, bead 2 at Q from the sphere
    sq = dist(Q)
    for n1, n2 in ((True, True), (True, False), (False, True)):
        conds = [cmp_ge(u), cmp_gt(Ns - u), cmp_ge(v), cmp_gt(Nd - v), cmp_gt(s), cmp_gt(sq),
                 cmp_gt(cf * (a1 + a2) - s) if n1 else cmp_gt(s - cf * (a1 + a2)),
                 cmp_gt(cf * (a1 + a2) - sq) if n2 else cmp_gt(sq - cf * (a1 + a2))]
        facts = base.extend(*conds)
        mp = {('sa', u): a1, ('da', v): a2}
        for k in range(3):
            mp['sx', u, k] = Yv[k]
            mp['dx', v, k] = Yv[k] + (R[k] + Q[k]) / 2
            mp['dd', v, k] = Q[k] - R[k]
        leaf = elem_leaf(mp)
        prs = {1: Pair(R, a1, a2) if n1 else None, 2: Pair(Q, a1, a2) if n2 else None}

        def smp2(seed, n1=n1, n2=n2):
            env = dict(TENV)
            env.update({'Ns': 3.0, 'Nd': 2.0, 'u': 1.0, 'v': 1.0})
            env['a1'] = 0.5 + rnd('a', seed)
            env['a2'] = env['a1'] * (0.25, 0.5, 1.0, 2.0, 4.0)[int(5 * rnd('l', seed))]
            env['cf'] = 1.5 + 0.5 * rnd('cf', seed)
            m = env['a1'] + env['a2']
            for t, near in (('R', n1), ('Q', n2)):
                L = m * (1.05 + (env['cf'] - 1.1) * rnd('L' + t, seed) if near else env['cf'] * (1.05 + rnd('L' + t, seed)))
                for k, x in enumerate(vec(t, seed, L)):
                    env['%s%d' % (t, k)] = x
            return Val(env, elem=table_elem(seed), seed=seed)
        for k1 in 'UOE':
            for k2 in 'BH':
                for i in range(width(k1)):
                    for j in range(3):
                        want = mu * pl.addn([w * pair_cell(prs[b], k1, k2, i, j)
                                             for b, w in weights(k2).items() if prs[b] is not None])
                        for trans in (False, True):
                            it.facts = facts
                            vl.HITS.clear()
                            ri, ci = row(k1, u, i), row(k2, v, j)
                            got = M.get((ci, ri) if trans else (ri, ci))
                            ck.same('sphere-dumbbell %s%s[%d,%d]%s bead1 %s bead2 %s' % (
                                k1, k2, i, j, ' transposed' if trans else '', 'close' if n1 else 'far',
                                'close' if n2 else 'far'), got, want, facts, smp2, site(f), leaf)
    # dumbbell - dumbbell: bead-bead displacements
    for bb in (True, False):
        if not bb:
            it, f, M = build(False)
            ck.interp(it)
            base = it.facts
        for upper in (True, False):
            d = {}
            for b in (1, 2):
                for b2 in (1, 2):
                    d[b, b2] = [R[k] + (T[k] if b2 == 2 else 0) - (Q[k] if b == 2 else 0) for k in range(3)]
            conds = [cmp_ge(u), cmp_gt(Nd - u), cmp_ge(v), cmp_gt(Nd - v), cmp_gt(v - u) if upper else cmp_gt(u - v),
                     c_not(cmp_eq(a1 - a2))]
            for x in d.values():
                conds += [cmp_gt(dist(x)), cmp_gt(cf * (a1 + a2) - dist(x))]
            facts = base.extend(*conds)
            mp = {('da', u): a1, ('da', v): a2}
            for k in range(3):
                mp['dd', u, k] = Q[k]
                mp['dd', v, k] = T[k]
                mp['dx', u, k] = Yv[k] + Q[k] / 2
                mp['dx', v, k] = Yv[k] + R[k] + T[k] / 2
            leaf = elem_leaf(mp)

            def smp3(seed, upper=upper):
                env = dict(TENV)
                env.update({'Ns': 2.0, 'Nd': 3.0, 'u': 1.0 if upper else 2.0, 'v': 2.0 if upper else 1.0, 'cf': 2.0})
                env['a1'] = 0.5 + rnd('a', seed)
                env['a2'] = env['a1'] * (0.25, 0.5, 2.0, 4.0)[int(4 * rnd('l', seed))]
                m = env['a1'] + env['a2']
                for t, L in (('R', 1.45 * m), ('Q', .15 * m), ('T', .2 * m)):
                    for k, x in enumerate(vec(t, seed, L)):
                        env['%s%d' % (t, k)] = x
                return Val(env, elem=table_elem(seed), seed=seed)
            for k1 in 'BH':
                for k2 in 'BH':
                    for i in range(3):
                        for j in range(3):
                            if (k1 + k2 != 'BB' or not bb) and (i - j) % 3 == (1 if upper else 2):
                                continue
                            want = ZERO
                            if bb:
                                for b, w1 in weights(k1).items():
                                    for b2, w2 in weights(k2).items():
                                        first = b < b2 or b == b2 and upper
                                        want = want + w1 * w2 * pair_cell(Pair(d[b, b2], a1, a2, first), k1, k2, i, j)
                            it.facts = facts
                            vl.HITS.clear()
                            got = M.get((row(k1, u, i), row(k2, v, j)))
                            ck.same('dumbbell pair %s%s[%d,%d] %s bead-bead %s' % (
                                k1, k2, i, j, 'p<q' if upper else 'p>q', 'on' if bb else 'off'), got, mu * want, facts,
                                smp3, site(f), leaf)
    selfs(ck)
    return ck.finish(minimum=100)


def selfs(ck):
    """Blocks coupling a particle to itself: sum over close neighbours."""
    it, f, M = build()
    base = it.facts
    u = sym('u', isint=True)
    n = pl.fresh('q', isint=True)
    NB = Ns + 2 * Nd

    def bx(p, k):
        return ite(cmp_gt(Ns - p), elem('sx', (p, P(k))),
                   ite(cmp_gt(Ns + Nd - p), elem('dx', (p - Ns, P(k))) - elem('dd', (p - Ns, P(k))) / 2,
                       elem('dx', (p - Ns - Nd, P(k))) + elem('dd', (p - Ns - Nd, P(k))) / 2))

    def ba(p):
        return ite(cmp_gt(Ns - p), elem('sa', (p,)), ite(cmp_gt(Ns + Nd - p), elem('da', (p - Ns,)),
                                                         elem('da', (p - Ns - Nd,))))

    def neighbours(p):
        Rv = [bx(n, k) - bx(p, k) for k in range(3)]
        s = dist(Rv)
        a, b = ba(p), ba(n)
        t = res_tensors(0, [x / s for x in Rv], 2 * s / (a + b), b / a, a)
        g = c_and(c_not(cmp_eq(n - p)), cmp_gt(cf * (a + b) - s))
        return t, g

    def smp(seed):
        env = dict(TENV)
        env.update({'Ns': 2.0, 'Nd': 2.0, 'u': float(seed % 2), 'cf': 2.0})

        def el(name, idx):
            r = table_elem(seed)(name, idx)
            if r is not None:
                return r
            if name in ('sa', 'da'):
                return (0.5, 1.0)[int(2 * rnd(name, idx, seed))]
            if name in ('sx', 'dx', 'dd'):
                return 3.2 * (rnd(name, idx, seed) - 0.5)
            return None
        return Val(env, elem=el, seed=seed)
    it.facts = base.extend(cmp_ge(u), cmp_gt(Ns - u))
    t, g = neighbours(u)
    for k1 in 'UOE':
        for k2 in 'UOE':
            for i in range(width(k1)):
                for j in range(width(k2)):
                    kk = {'U': 'F', 'O': 'T', 'E': 'S'}[k1] + k2
                    x = t[kk, i, j] if kk in ('FU', 'TO', 'SE', 'TU', 'SU', 'SO') else \
                        t[{'FO': 'TU', 'FE': 'SU', 'TE': 'SO'}[kk], j, i]
                    want = mu * pl.mk_sum([(n, ZERO, NB)], g, x)
                    it.facts = base.extend(cmp_ge(u), cmp_gt(Ns - u))
                    vl.HITS.clear()
                    got = M.get((row(k1, u, i), row(k2, u, j)))
                    ck.same('sphere self %s%s[%d,%d]' % (k1, k2, i, j), got, want, it.facts, smp, site(f))
    facts = base.extend(cmp_ge(u), cmp_gt(Nd - u))
    b1, b2 = Ns + u, Ns + Nd + u
    t1, g1 = neighbours(b1)
    t2, g2 = neighbours(b2)
    Rv = [bx(b2, k) - bx(b1, k) for k in range(3)]
    pr = Pair(Rv, ba(b1), ba(b2))
    close = cmp_gt(cf * (ba(b1) + ba(b2)) - dist(Rv))
    for k1 in 'BH':
        for k2 in 'BH':
            for i in range(3):
                for j in range(3):
                    s1 = pl.mk_sum([(n, ZERO, NB)], g1, t1['FU', i, j])
                    s2 = pl.mk_sum([(n, ZERO, NB)], g2, t2['FU', i, j])
                    x = ite(close, pr.pq['FU', i, j], ZERO)
                    y = ite(close, pr.pq['FU', j, i], ZERO)
                    w1, w2 = weights(k1), weights(k2)
                    want = mu * (w1[1] * w2[1] * s1 + w1[2] * w2[2] * s2 + w1[1] * w2[2] * x + w1[2] * w2[1] * y)
                    it.facts = facts
                    vl.HITS.clear()
                    got = M.get((row(k1, u, i), row(k2, u, j)))
                    ck.same('dumbbell self %s%s[%d,%d]' % (k1, k2, i, j), got, want, facts, smp, site(f))

"""Isolated-particle mobilities (self blocks) and the drag-only approximation."""
from .common import *
from .c01 import build


def sphere_self(k1, k2, i, j, a):
    """Single-sphere mobility."""
    if k1 != k2 or i != j:
        return ZERO
    return {'U': 1 / (6 * PI * mu * a), 'O': 1 / (8 * PI * mu * a ** 3), 'E': 3 / (20 * PI * mu * a ** 3)}[k1]


def run():
    ck = Check('C02', 'Every cell of the block coupling a sphere to itself in the far-field mobility matrix, and every '
               'class of cell of the drag-only resistance matrices (bounded and periodic), is derived as a term over '
               'symbolic radii and viscosity and compared with the single-particle Stokes results.')
    a = sym('a1', pos=True)
    u, v = sym('u', isint=True), sym('v', isint=True)
    smp = lambda seed: Val({'Ns': 4.0, 'Nd': 3.0, 'u': 1.0, 'v': 2.0, 'a1': 0.4 + rnd('a', seed)}, seed=seed)
    it, f, M = build(dumb=False)
    ck.interp(it)
    base = it.facts
    facts = base.extend(cmp_ge(u), cmp_gt(Ns - u))
    leaf = elem_leaf({('sa', u): a})
    for k1 in 'UOE':
        for k2 in 'UOE':
            for i in range(width(k1)):
                for j in range(width(k2)):
                    it.facts = facts
                    vl.HITS.clear()
                    got = M.get((row(k1, u, i), row(k2, u, j)))
                    ck.same('self block %s%s[%d,%d]' % (k1, k2, i, j), got, sphere_self(k1, k2, i, j, a), facts, smp,
                            site(f), leaf)
    # drag-only approximation
    for fname in ('generate_grand_resistance_matrix', 'generate_grand_resistance_matrix_periodic'):
        b = base_facts(n=2)
        it = Interp(ROOTS, facts=b)
        ck.interp(it)
        f = find(it, fname, ['functions.generate_grand_resistance_matrix'])
        args = {'posdata': posdata(it), 'last_generated_Minfinity_inverse': it.box(base_arr('last', (SIDE, SIDE))),
                'use_drag_Minfinity': True, 'use_Minfinity_only': True, 'mu': mu, 'regenerate_Minfinity': True}
        if 'periodic' in fname:
            args['box_bottom_left'] = it.box(base_arr('bbl', (3,)))
            args['box_top_right'] = it.box(base_arr('btr', (3,)))
        res = it.unpack(it.call_func(f, [], args), 4)
        for nm, which in (('total', 0), ('far-field part', 2)):
            R = it.unbox(res[which])
            if not isinstance(R, Arr):
                ck.unsure('%s %s' % (fname, nm), 'not an array: %r' % (R,))
                continue
            for k1 in 'UOEBH':
                n1 = Ns if k1 in 'UOE' else Nd
                for k2 in 'UOEBH':
                    n2 = Ns if k2 in 'UOE' else Nd
                    for i in range(width(k1)):
                        for j in range(width(k2)):
                            for p, q, tag in ((u, u, 'same particle'), (u, v, 'different particles')):
                                if tag[0] == 's' and k1 in 'UOE' and k2 in 'BH' or k1 in 'BH' and k2 in 'UOE':
                                    if tag[0] == 's':
                                        continue
                                fx = b.extend(cmp_ge(p), cmp_ge(q), cmp_gt(n1 - p), cmp_gt(n2 - q))
                                if tag[0] == 'd' and (k1 in 'UOE') == (k2 in 'UOE'):
                                    fx = fx.extend(cmp_gt(q - p))
                                it.facts = fx
                                same = tag[0] == 's' and k1 == k2 and i == j
                                want = ZERO
                                if same:
                                    want = {'U': 6 * a, 'O': 8 * a ** 3, 'E': F(20, 3) * a ** 3,
                                            'B': 12 * a, 'H': 12 * a}[k1] * PI * mu
                                vl.HITS.clear()
                                got = R.get((row(k1, p, i), row(k2, q, j)))
                                ck.same('%s drag-only %s %s%s[%d,%d] %s' % (fname, nm, k1, k2, i, j, tag), got, want,
                                        fx, smp, site(f), elem_leaf({('sa', u): a, ('da', u): a}))
    return ck.finish(minimum=100)

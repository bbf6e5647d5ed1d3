"""Periodic wrapping: particles return to the sheared cell by whole lattice vectors."""
from .frame import *


def floor(x):
    return pl.apply_fn('floor', (x,))


def lattice(L, ot, et):
    """Sheared cell vectors (rows)."""
    rows = []
    for i in range(3):
        b = [L[i] if k == i else ZERO for k in range(3)]
        add_on = add(cross(ot, b), [pl.addn([et[r][c] * b[c] for c in range(3)]) for r in range(3)])
        rows.append([b[k] + add_on[k] - L[k] * floor(add_on[k] / L[k]) for k in range(3)])
    return rows


def adjugate_inverse(B):
    c = lambda i, j: B[i][j]
    co = [[c((i + 1) % 3, (j + 1) % 3) * c((i + 2) % 3, (j + 2) % 3) - c((i + 1) % 3, (j + 2) % 3) * c((i + 2) % 3, (j + 1) % 3)
           for j in range(3)] for i in range(3)]
    det = pl.addn([B[0][j] * co[0][j] for j in range(3)])
    return [[co[j][i] / det for j in range(3)] for i in range(3)]


def named(vals):
    """Short names for long terms."""
    return [[vl.let_scalar(x) for x in r] for r in vals]


def wrapped(x, B, inv):
    x = [vl.let_scalar(v) for v in x]
    fr = [pl.addn([x[a] * inv[a][b] for a in range(3)]) for b in range(3)]
    fr = [f - floor(f + P(1) / 2) for f in fr]
    return [pl.addn([fr[b] * B[b][c] for b in range(3)]) for c in range(3)]


def sampler(shear):
    def smp(seed):
        def el(name, idx):
            if name in ('boxL', 'boxA', 'boxB'):
                return (3.1, 3.9, 4.6)[idx[0]] + (0.0 if name == 'boxL' else -1.2 if name == 'boxA' else 0.3) \
                    + 0.2 * rnd('b', name, idx, seed) - (6.0 if name == 'boxA' else 0)
            n = name.rstrip('0123456789')
            if n in ('Ot', 'Et', 'Otinf', 'Etinf'):
                if not shear:
                    return 0.0
                if n.startswith('Et') and idx[0] == idx[1]:
                    return 0.0
                return 1.1 * (rnd('bx', name, idx, seed) - 0.5)
            if name in ('sx', 'dx'):
                return 14 * (rnd('px', name, idx, seed) - 0.5)
            if n in ('Ea', 'Oi', 'Oa'):
                return 0.4 * (rnd('px', name, idx, seed) - 0.5)
            return None
        v = Val(elem=el, seed=seed)
        v.env['dt'] = 0.2 + 0.5 * rnd('dt', seed)
        return v
    return smp


def vec(name):
    return [elem(name, (P(k),)) for k in range(3)]


def mat(name):
    return [[elem(name, (P(i), P(j))) for j in range(3)] for i in range(3)]


def run():
    ck = Check('C13', 'In a periodic box every new sphere and dumbbell position, and every stage position, equals the '
               'unwrapped one moved by whole vectors of the sheared cell into the cell centred on the origin; extensions '
               'are left alone; the wrapping function is analysed for any number of particles.')
    direct(ck)
    for scheme in ('euler', 'ab2', 'rk4'):
        for ns, nd in ((2, 1), (0, 1)):
            one(ck, scheme, ns, nd)
    return ck.finish(minimum=30)


def direct(ck):
    it = ck.interp(Interp(ROOTS, facts=Facts([cmp_ge(Ns - 1)])))
    f = find_opt(it, 'wrap_around', ['functions.timestepping'])
    if f is None:
        ck.unsure('wrapping function', 'not present')
        return
    b = lambda nm, *sh: it.box(base_arr(nm, sh))
    q = sym('p', isint=True)
    r = it.call_func(f, [b('sx', Ns, 3), b('boxA', 3), b('boxB', 3), b('Ot1', 3), b('Et1', 3, 3)], {})
    L = [x - y for x, y in zip(vec('boxB'), vec('boxA'))]
    B = named(lattice(L, vec('Ot1'), mat('Et1')))
    want = wrapped([elem('sx', (P(0), P(k))) for k in range(3)], B, named(adjugate_inverse(B)))
    for shear in (False, True):
        for k in range(3):
            ck.same('wrapping of any particle, %s cell [%d]' % ('sheared' if shear else 'straight', k), cell(it, r, 0, k),
                    want[k], None, sampler(shear), site(f))


def one(ck, scheme, ns, nd):
    fr = Frame(ns, nd, scheme, 3, 0, periodic=True, bind=1)
    it = ck.interp(fr.it)
    tag = '%s, %d spheres, %d dumbbells' % (scheme, ns, nd)
    new = it.unpack(fr.g['posdata'], 6)
    U, O, Bv, H, stages = scheme_velocities(scheme, False, ns, nd)
    w = site(fr.f)
    lat = {}
    for k in range(1, len(stages) + 1):
        B = named(lattice(vec('boxL'), vec('Ot%d' % k), mat('Et%d' % k)))
        lat[k] = (B, named(adjugate_inverse(B)))
    for shear in (False, True):
        t2 = tag + (', sheared' if shear else '')
        smp = sampler(shear)
        if new is None:
            ck.unsure(t2, 'final particle data not resolved')
            continue
        shaped(ck, it, t2, new, w)
        for what, slot, n, x0, vel in (('sphere', 1, ns, 'sx', U), ('dumbbell', 4, nd, 'dx', Bv)):
            for p in range(n):
                want = wrapped(add(V(x0, p), sc(dt, vel[p])), *lat[1])
                for k in range(3):
                    ck.same('%s: %s %d in the cell [%d]' % (t2, what, p, k), cell(it, new[slot], p, k), want[k], None, smp, w)
        for p in range(nd):
            want = add(V('dd', p), sc(dt, H[p]))
            for k in range(3):
                ck.same('%s: extension of dumbbell %d kept [%d]' % (t2, p, k), cell(it, new[5], p, k), want[k], None, smp, w)
        for s in range(2, len(stages) + 1):
            X, D, Lx = stages[s - 1]
            pd = fr.calls[s - 1][1].get('posdata') if s <= len(fr.calls) else None
            if not (isinstance(pd, tuple) and len(pd) == 6):
                ck.unsure('%s: stage %d' % (t2, s), 'particle data not resolved')
                continue
            shaped(ck, it, '%s: stage %d' % (t2, s), pd, w)
            for what, slot, xs in (('sphere', 1, X), ('dumbbell', 4, D)):
                for p in range(len(xs)):
                    want = wrapped(xs[p], *lat[s - 1])
                    for k in range(3):
                        ck.same('%s: stage %d %s %d in the cell [%d]' % (t2, s, what, p, k), cell(it, pd[slot], p, k),
                                want[k], None, smp, fr.calls[s - 1][2])

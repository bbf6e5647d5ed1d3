"""Forces between particles: pairwise repulsion, dumbbell springs, and how they map onto the inputs."""
from .solve import *

K, TAU = sym('strength', pos=True), sym('decay', pos=True)
H = F(1, 2)


def beads(ns, nd):
    """(position, radius) of every bead: spheres, first beads, second beads."""
    e = lambda n, *i: elem(n, i)
    out = [([e('sx', p, k) for k in range(3)], elem('sa', (p,))) for p in range(ns)]
    for s in (-1, 1):
        out += [([e('dx', p, k) + s * H * e('dd', p, k) for k in range(3)], elem('da', (p,)))
                for p in range(nd)]
    return out


def repulsion(ns, nd, k, tau):
    """Force on every bead: away from each neighbour nearer than 2.2 mean radii."""
    b = beads(ns, nd)
    f = [[ZERO] * 3 for _ in b]
    for i in range(len(b)):
        for j in range(i + 1, len(b)):
            (x, a), (y, c) = b[i], b[j]
            d = [p - q for p, q in zip(x, y)]
            r = vl.let_scalar(pl.power(vl.let_scalar(pl.addn([q * q for q in d])), H))
            s = r / (a + c) * 2
            h = s - 2
            mag = k * 2 * a * c / (a + c) * ite(cmp_ge(h), pl.apply_fn('exp', (-tau * h,)), ONE)
            mag = ite(c_and(cmp_gt(s), cmp_gt(F(11, 5) - s)), mag, ZERO)
            for q in range(3):
                f[i][q] = f[i][q] + mag * d[q] / r
                f[j][q] = f[j][q] - mag * d[q] / r
    return f


def particles(ns, nd, f):
    """Bead forces -> sphere forces, dumbbell total and dumbbell difference (second minus first)."""
    Fa = f[:ns]
    b1, b2 = f[ns:ns + nd], f[ns + nd:]
    return (Fa, [[p + q for p, q in zip(u, v)] for u, v in zip(b1, b2)],
            [[q - p for p, q in zip(u, v)] for u, v in zip(b1, b2)])


def layout(ns, nd, near, seed):
    """Bead coordinates with the given pairs at a given scaled distance and all other beads far apart."""
    n = ns + 2 * nd
    rad = [0.5 + rnd('rad', p, seed) for p in range(ns)]
    rad += 2 * [0.4 + 0.5 * rnd('rad', 'd', p, seed) for p in range(nd)]
    if near is None:
        # everything crowded together
        x = [[2.2 * (rnd('x', i, k, seed) - 0.5) for k in range(3)] for i in range(n)]
    else:
        x = [[30.0 * i + rnd('x', i, k, seed) for k in range(3)] for i in range(n)]
        i, j, s = near
        d = [rnd('d', k, seed) - 0.5 for k in range(3)]
        m = sum(q * q for q in d) ** 0.5
        x[j] = [p + q / m * s * (rad[i] + rad[j]) / 2 for p, q in zip(x[i], d)]
    return rad, x


def sampler(ns, nd, near):
    def smp(seed):
        rad, x = layout(ns, nd, near, seed)

        def el(name, idx):
            if name == 'sa':
                return rad[idx[0]]
            if name == 'da':
                return rad[ns + idx[0]]
            if name == 'sx':
                return x[idx[0]][idx[1]]
            if name == 'dx':
                return (x[ns + idx[0]][idx[1]] + x[ns + nd + idx[0]][idx[1]]) / 2
            if name == 'dd':
                return x[ns + nd + idx[0]][idx[1]] - x[ns + idx[0]][idx[1]]
            return None
        v = Val(elem=el, seed=seed)
        v.env['strength'], v.env['decay'] = 1.5 + rnd('k', seed), 3 + rnd('tau', seed)
        return v
    return smp


def regimes(ns, nd):
    yield 'crowded', None
    n = ns + 2 * nd
    for i in range(n):
        for j in range(i + 1, n):
            for name, s in (('overlapping', 1.6), ('just apart', 2.13), ('beyond range', 2.27)):
                yield 'beads %d,%d %s' % (i, j, name), (i, j, s)


def posdata_of(it, ns, nd):
    return it.box((base_arr('sa', (ns,), pos=True), base_arr('sx', (ns, 3)), base_arr('srot', (ns, 2, 3)),
                   base_arr('da', (nd,), pos=True), base_arr('dx', (nd, 3)), base_arr('dd', (nd, 3))))


def compare(ck, it, tag, got, want, ns, nd, w, near=None, only=None):
    for name, g, v in zip(('sphere force', 'dumbbell total force', 'dumbbell force difference'), got, want):
        for p in range(len(v)):
            for k in range(3):
                ck.same('%s: %s %d[%d]' % (tag, name, p, k), cell(it, g, p, k), P(v[p][k]), None,
                        sampler(ns, nd, near), w)


def direct(ck, ns, nd):
    it = ck.interp(Interp(ROOTS, facts=Facts([])))
    it.split_guarded, it.bind_norms = 64, 1
    f = find_opt(it, 'repulsion_forces', ['setups.functions_inputs'])
    if f is None:
        ck.unsure('repulsion', 'function not present')
        return
    b = lambda nm, *sh: it.box(base_arr(nm, sh, pos=nm in ('sa', 'da')))
    F0, B0, D0 = vectors('F', ns), vectors('B', nd), vectors('D', nd)
    v = it.call_func(f, [], dict(
        strength=K, tau=TAU, num_spheres=P(ns), num_dumbbells=P(nd), sphere_positions=b('sx', ns, 3),
        dumbbell_positions=b('dx', nd, 3), dumbbell_deltax=b('dd', nd, 3), sphere_sizes=b('sa', ns),
        dumbbell_sizes=b('da', nd), num_sphere_in_each_lid=P(0), Fa_in=lst(it, F0), Fb_in=lst(it, B0),
        DFb_in=lst(it, D0)))
    r = it.unpack(v, 3)
    tag = '%d spheres, %d dumbbells' % (ns, nd)
    if r is None:
        ck.unsure(tag, 'result not resolved')
        return
    plus = lambda u, v: [[p + q for p, q in zip(a, c)] for a, c in zip(u, v)]
    want = [plus(a, c) for a, c in zip((F0, B0, D0), particles(ns, nd, repulsion(ns, nd, K, TAU)))]
    for name, near in regimes(ns, nd):
        compare(ck, it, tag + ', ' + name, r, want, ns, nd, site(f), near)


def catalogue(ck, number, ns, nd, regs, want, tag):
    it = ck.interp(Interp(ROOTS, facts=Facts([])))
    it.split_guarded, it.bind_norms = 64, 1
    f = find(it, 'input_ftsuoe', ['setups.inputs'])
    v = it.call_func(f, [], {'n': P(number), 'posdata': posdata_of(it, ns, nd), 'frameno': sym('frame', isint=True),
                             'timestep': sym('dt', pos=True), 'last_velocities': lst(it, [[], [], [], []]),
                             'input_form': 'fte'})
    r = it.unpack(v, 21)
    if r is None:
        ck.unsure(tag, 'result not resolved')
        return
    for name, near in regs:
        compare(ck, it, '%s, %d spheres, %d dumbbells, %s' % (tag, ns, nd, name), (r[0], r[4], r[5]), want, ns, nd,
                site(f), near)
        for p in range(ns):
            for k in range(3):
                ck.same('%s: torque %d[%d]' % (tag, p, k), cell(it, r[1], p, k), ZERO, None, sampler(ns, nd, near),
                        site(f))


def spring(nd):
    out = []
    for p in range(nd):
        d = [elem('dd', (p, k)) for k in range(3)]
        r = vl.let_scalar(pl.power(vl.let_scalar(pl.addn([q * q for q in d])), H))
        out.append([2 * q / r - q for q in d])
    return out


def run():
    ck = Check('C15', 'The interaction-force inputs are interpreted for symbolic positions and radii; every derived sphere '
               'force, dumbbell total force and dumbbell force difference is compared with the sum of equal and opposite '
               'central pair forces (and springs), with each pair of beads in turn overlapping, just apart and beyond range.')
    for ns, nd in ((2, 0), (3, 0), (1, 1), (2, 1), (0, 2)):
        direct(ck, ns, nd)
    for ns, nd in ((3, 0), (1, 1)):
        catalogue(ck, 4, ns, nd, list(regimes(ns, nd)), particles(ns, nd, repulsion(ns, nd, P(50), P(20))),
                  'repulsion input')
    z = lambda n: [[ZERO] * 3 for _ in range(n)]
    for ns, nd in ((1, 1), (0, 2)):
        catalogue(ck, 3, ns, nd, [('crowded', None)], (z(ns), z(nd), spring(nd)), 'spring input')
    for number in (1, 2):
        catalogue(ck, number, 2, 1, [('crowded', None)], ([[ZERO, ZERO, P(-1)]] * 2, z(1), z(1)), 'gravity input %d' % number)
    return ck.finish(minimum=100)

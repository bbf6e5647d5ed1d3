"""Particles placed at random stay in their box and touch nothing."""
import itertools
from .solve import *

COUNT = 20            # counting loops longer than this are summarised by their last pass
POINTS, PERIODIC_POINTS = 300, 120     # valuations of a term that does not reduce


def run():
    ck = Check('C20', 'The placement functions are interpreted with unknown box, radii, earlier particles and random draws. '
               'A loop that repeats until a proposal is accepted is summarised by its last pass, and what that pass '
               'requires is known afterwards; under it no placed bead may overlap another particle, leave the box, or '
               'belong to a dumbbell of the wrong length. The supplied arrangements are compared pair by pair.')
    ck.points = ck.tries = POINTS
    ck.assumptions = ['random draws lie between 0 and 1', 'dumbbells are shorter than a quarter of the periodic box']
    for n in (1, 2, 3, 4, 6, 7):
        supplied(ck, n)
    for k, n in ((0, 2), (1, 1), (2, 2), (0, 3), (1, 2)):
        spheres(ck, k, n)
    for k, n in ((0, 1), (1, 1), (0, 2), (2, 2), (1, 2)):
        for fixed in (False, True):
            dumbbells(ck, k, n, fixed)
    for k, n in ((0, 1), (1, 1), (0, 2)):
        quadrilateral(ck, k, n)
    ck.points = ck.tries = PERIODIC_POINTS
    for k, n in ((1, 1), (0, 2)):
        dumbbells(ck, k, n, False, True)
    return ck.finish(minimum=30)


def machine(ck):
    draws = itertools.count()

    def unit(it, shape):
        if not shape:
            return sym('draw%d' % next(draws), pos=True)
        return it.box(base_arr('draw%d' % next(draws), tuple(shape), pos=True))

    def dims(args):
        if len(args) == 1 and isinstance(args[0], tuple):
            args = args[0]
        return [num(a) for a in args]

    def rand(it, args, kw, e):
        return unit(it, dims(list(args) + list(kw.values())))

    def uniform(it, args, kw, e):
        b = dict(zip(('low', 'high', 'size'), args), **kw)
        lo, hi = it.arr(b.get('low', ZERO)), it.arr(b.get('high', ONE))
        if 'size' in b and b['size'] is not None:
            s = it.unbox(b['size'])
            shape = dims(s if isinstance(s, tuple) else [s])
        else:
            shape = list((lo if lo.ndim else hi).shape)
        if not shape:
            return lo.get(()) + sym('draw%d' % next(draws), pos=True) * (hi.get(()) - lo.get(()))
        u = base_arr('draw%d' % next(draws), tuple(shape), pos=True)
        at = lambda a, i: a.get(i[len(i) - a.ndim:])
        return it.box(Arr(tuple(shape), lambda i: at(lo, i) + u.get(i) * (at(hi, i) - at(lo, i))))
    hooks = {'extern:numpy.random.' + n: rand for n in ('rand', 'random', 'random_sample', 'ranf', 'sample')}
    hooks['extern:numpy.random.uniform'] = uniform
    it = ck.interp(Interp(ROOTS, hooks=hooks))
    it.retry, it.assumed, it.carried = COUNT, [], []
    return it


def sampler(it, box, periodic=False):
    names = [n for c in it.carried for m in c.t for n in [pl.atom_by_id(m[0][0]).args[0]]]

    def make(seed):
        def el(name, idx):
            h = rnd('place', name, idx, seed)
            if periodic and (name == 'x' or name.startswith('draw')) and rnd('edge', seed) < 0.7:
                h = 0.25 * h if h < 0.5 else 1 - 0.25 * (1 - h)      # near the faces, where images matter
            if name == 'lo':
                return -0.9 - 0.2 * h
            if name == 'hi':
                return box + 0.3 * h
            if name.startswith('draw'):
                return h
            if name in ('a', 'b'):
                return 0.25 + 0.5 * h
            if name == 'x':
                return -0.9 + (box + 0.9) * h
            return None
        v = Val(elem=el, seed=seed)
        for n in names:
            v.env[n] = int(rnd('carried', n, seed) * 1.4)
        v.env['L'] = 0.4 + 0.3 * rnd('L', seed)
        for k in range(200):
            v.env['draw%d' % k] = rnd('unit', k, seed)
        return v
    return make


def split(c, out):
    """Conjuncts of a condition; a sum of terms that are not negative vanishes term by term."""
    from sa.interp import never_negative
    if c.kind == 'and':
        for x in c.args:
            split(x, out)
        return
    if c.kind == 'eq':
        p = c.args[0]
        gates = []
        for s in (ONE, -ONE):
            q = p * s
            if never_negative(q) and q.t:
                for m, k in q.t.items():
                    if len(m) == 1 and pl.atom_by_id(m[0][0]).kind == 'ite':
                        gates.append(pl.atom_by_id(m[0][0]).args)
                    else:
                        gates.append(None)
                if all(g is not None for g in gates):
                    for g, a, b in gates:
                        x = [] if a != ZERO and b != ZERO else [c_not(g)] if a != ZERO else [g]
                        split(c_and(*x), out)
                    return
                for g in gates:
                    if g is not None and g[2] == ZERO and g[1].const() is not None:
                        split(c_not(g[0]), out)
                out.append(c)
                return
        k0 = p.t.get((), 0)
        rest = p - P(k0)
        if len(rest.t) == 1:
            (m, k), = rest.t.items()
            at = pl.atom_by_id(m[0][0])
            if len(m) == 1 and m[0][1] == 1 and at.kind == 'ite':
                g, a, b = at.args
                if a.const() is not None and b.const() is not None:
                    ya, yb = (P(k0) + k * a) == ZERO, (P(k0) + k * b) == ZERO
                    if ya != yb:
                        split(g if ya else c_not(g), out)
                        return
    if c.kind == 'not' and c.args[0].kind == 'or':
        for x in c.args[0].args:
            split(c_not(x), out)
        return
    out.append(c)


def known(it):
    out = []
    for g in it.assumed:
        split(g, out)
    return c_and(*out), c_and(*it.assumed)


def never(ck, key, kn, bad, smp, where):
    """Obligation: bad cannot hold when everything known does."""
    strong, plain = kn
    if plain.bad or bad.bad:
        ck.unsure(key, plain.bad or bad.bad)
        return
    if c_and(strong, bad) is FALSE or Facts([strong]).decide(bad) is False:
        ck.ok(key, 'excluded by the acceptance condition')
        return
    ck.same(key, ite(c_and(plain, bad), ONE, ZERO), ZERO, None, smp, where)


def dist2(p, q):
    return pl.addn([(a - b) ** 2 for a, b in zip(p, q)])


def apart(p, q, r):
    """The condition that centres p and q are closer than r."""
    return cmp_gt(r - pl.power(dist2(p, q), F(1, 2)))


def triples(it, v, n, *pre):
    out = [[cell(it, v, *(pre + (i, k))) for k in range(3)] for i in range(n)]
    return out if all(isinstance(x, Poly) for r in out for x in r) else None


def vec(name):
    return base_arr(name, (P(3),))


def earlier(k):
    return base_arr('b', (P(k),), pos=True), base_arr('x', (P(k), P(3)))


def placed(k):
    return [([elem('x', (i, c)) for c in range(3)], elem('b', (i,)), 'earlier sphere %d' % i) for i in range(k)]


def inside(ck, tag, kn, p, smp, w, axes=(0, 1, 2)):
    for c in axes:
        lo, hi = elem('lo', (c,)), elem('hi', (c,))
        never(ck, '%s below the box, axis %d' % (tag, c), kn, cmp_gt(lo - p[c]), smp, w)
        never(ck, '%s above the box, axis %d' % (tag, c), kn, cmp_gt(p[c] - hi), smp, w)


def spheres(ck, k, n):
    it = machine(ck)
    f = find(it, 'randomise_spheres', ('setups.functions_positions',))
    v = it.call_func(f, [it.box(vec('lo')), it.box(vec('hi')), it.box(base_arr('a', (P(n),), pos=True))]
                     + [it.box(x) for x in earlier(k)], {})
    tag, w = '%d spheres with %d already there' % (n, k), site(f)
    shape(ck, it, tag, v, n, w)
    got = triples(it, v, n)
    if got is None:
        ck.unsure(tag, 'positions not resolved')
        return
    anywhere(ck, tag, got[0], w)
    smp, kn = sampler(it, 1.2), known(it)
    every = placed(k) + [(p, elem('a', (i,)), 'sphere %d' % i) for i, p in enumerate(got)]
    for i, p in enumerate(got):
        inside(ck, '%s: sphere %d' % (tag, i), kn, p, smp, w)
    for (p, a, s), (q, b, t) in itertools.combinations(every, 2):
        if 'earlier' in s and 'earlier' in t:
            continue
        never(ck, '%s: %s overlaps %s' % (tag, t, s), kn, apart(p, q, a + b), smp, w)


def anywhere(ck, tag, p, w):
    """The three coordinates must not all follow fewer than three draws."""
    used = set()
    for x in p:
        used |= {a for a in pl.all_atoms(x).values() if a.args and str(a.args[0]).startswith('draw')}
    if len(used) >= 3:
        ck.ok(tag + ': drawn from the whole box', 'coordinates drawn separately')
    elif used:
        ck.fail(tag + ': drawn from the whole box', 'the three coordinates follow %d random number(s)' % len(used), w)


def shape(ck, it, tag, v, n, w):
    v = it.unbox(v)
    if isinstance(v, Arr):
        ck.same(tag + ': number placed', num(v.shape[0]), P(n), None, None, w)


def beads(it, v, n):
    """Bead centres of the returned dumbbells."""
    c, d = it.unpack(v, 2)
    c, d = triples(it, c, n), triples(it, d, n)
    if c is None or d is None:
        return None
    half = P(F(1, 2))
    return [([x - half * y for x, y in zip(p, q)], [x + half * y for x, y in zip(p, q)], q) for p, q in zip(c, d)]


def dumbbells(ck, k, n, fixed, periodic=False):
    it = machine(ck)
    f = find(it, 'randomise_dumbbells_periodic' if periodic else 'randomise_dumbbells', ('setups.functions_positions',))
    kw = {'dx': sym('L', pos=True)}
    if fixed:
        kw['phi'] = ZERO
    v = it.call_func(f, [it.box(vec('lo')), it.box(vec('hi')), it.box(base_arr('a', (P(n),), pos=True))],
                     dict(kw, current_sphere_sizes=it.box(earlier(k)[0]), current_sphere_positions=it.box(earlier(k)[1])))
    tag, w = '%d %sdumbbells%s with %d spheres there' % (n, 'periodic ' if periodic else '', ' in a plane' if fixed else '', k), site(f)
    ends = beads(it, v, n)
    if ends is None:
        ck.unsure(tag, 'positions not resolved')
        return
    smp, kn = sampler(it, 2.1 if periodic else 1.2, periodic), known(it)
    every = []
    for i, (p, q, d) in enumerate(ends):
        key = '%s: dumbbell %d' % (tag, i)
        ck.same(key + ' length', dist2(d, [ZERO] * 3), sym('L') ** 2, None, smp, w)
        if fixed:
            ck.same(key + ' lies in the plane', d[1], ZERO, None, smp, w)
        if periodic:
            mid = [(x + y) / 2 for x, y in zip(p, q)]
            inside(ck, key + ' centre', kn, mid, smp, w, (0, 2))
        else:
            inside(ck, key + ' first bead', kn, p, smp, w)
            inside(ck, key + ' second bead', kn, q, smp, w)
        every += [(p, elem('a', (i,)), i), (q, elem('a', (i,)), i)]
    side = [elem('hi', (c,)) - elem('lo', (c,)) for c in range(3)]
    images = [(m, 0, l) for m in (-1, 0, 1) for l in (-1, 0, 1)] if periodic else [(0, 0, 0)]
    for s, (p, a, i) in enumerate(every):
        rest = [(q, b, t) for q, b, t in placed(k)] + [(q, b, 'bead %d' % t) for t, (q, b, j) in enumerate(every[:s]) if j != i]
        for q, b, t in rest:
            for m in images:
                r = [x + y * z for x, y, z in zip(q, m, side)]
                name = '%s: bead %d overlaps %s%s' % (tag, s, t, ' image %d,%d' % (m[0], m[2]) if periodic else '')
                never(ck, name, kn, apart(p, r, a + b), smp, w)


def quadrilateral(ck, k, n):
    it = machine(ck)
    f = find(it, 'randomise_beads_inside_quadrilateral', ('setups.functions_positions',))
    corners = [(-1, -1), (1, F(-6, 5)), (1, 1), (F(-4, 5), F(9, 10))]
    quad = Arr((P(4), P(2)), lambda i: P(corners[i[0].as_int()][i[1].as_int()])
               if None not in (i[0].as_int(), i[1].as_int()) else pl.fresh('corner'))
    v = it.call_func(f, [it.box(quad), it.box(base_arr('a', (P(n),), pos=True)), it.box(earlier(k)[1]), sym('L', pos=True)], {})
    tag, w = '%d dumbbells in a quadrilateral with %d spheres there' % (n, k), site(f)
    ends = beads(it, v, n)
    if ends is None:
        ck.unsure(tag, 'positions not resolved')
        return
    smp, kn = sampler(it, 1.0), known(it)
    every = [(p, i) for i, e in enumerate(ends) for p in e[:2]]
    for s, (p, i) in enumerate(every):
        for j in range(4):
            (ax, az), (bx, bz) = corners[j], corners[(j + 1) % 4]
            side = (p[2] - P(az)) * (bx - ax) - (p[0] - P(ax)) * (bz - az)
            never(ck, '%s: bead %d outside edge %d' % (tag, s, j), kn, cmp_gt(-side), smp, w)
        for q, b, t in placed(k):
            never(ck, '%s: bead %d overlaps %s' % (tag, s, t), kn, apart(p, q, elem('a', (i,)) + sym('L')), smp, w)
        for t, (q, j) in enumerate(every[:s]):
            never(ck, '%s: bead %d overlaps bead %d' % (tag, s, t), kn, apart(p, q, elem('a', (i,)) + elem('a', (j,))), smp, w)


def supplied(ck, n):
    """The fixed arrangements: radii and centres are numbers."""
    it = machine(ck)
    f = find(it, 'pos_setup', ('setups.positions',))
    call = {}

    def scattered(i, bound, node):
        call.update(bound)
        m = num(it.arr(bound['dumbbell_sizes']).shape[0]).as_int()
        if m is None:
            return NotImplemented
        return (i.box(base_arr('scattered', (P(m), P(3)))), i.box(base_arr('lean', (P(m), P(3)))))
    it.hooks['randomise_dumbbells'] = scattered
    v = it.call_func(f, [P(n)], {})
    tag, w = 'supplied arrangement %d' % n, site(f)
    try:
        pos = it.unpack(it.unpack(v, 2)[0], 6)
    except Exception as ex:
        ck.unsure(tag, ex)
        return
    ns = num(it.arr(pos[0]).shape[0]).as_int()
    nd = num(it.arr(pos[3]).shape[0]).as_int()
    if ns is None or nd is None or call and n != 6:
        ck.unsure(tag, 'numbers of particles not resolved')
        return
    balls = [([cell(it, pos[1], i, c) for c in range(3)], cell(it, pos[0], i), 'sphere %d' % i) for i in range(ns)]
    if not call:
        for i in range(nd):
            for s, t in ((-1, 'first'), (1, 'second')):
                balls.append(([cell(it, pos[4], i, c) + P(F(s, 2)) * cell(it, pos[5], i, c) for c in range(3)],
                              cell(it, pos[3], i), '%s bead of %d' % (t, i)))
    worst = None
    for (p, a, s), (q, b, t) in itertools.combinations(balls, 2):
        gap = dist2(p, q) - (a + b) ** 2
        x = Val().poly(gap) if not gap.bad else None
        if x is None:
            ck.unsure(tag, 'not a number')
            return
        if worst is None or x < worst[0]:
            worst = (x, s, t)
    if worst is None:
        ck.unsure(tag, 'nothing to compare')
    elif worst[0] < -1e-9:
        ck.fail(tag + ': particles apart', '%s overlaps %s' % worst[1:], w)
    else:
        ck.ok(tag + ': particles apart', 'closest pair %s, %s' % worst[1:])
    if call:
        between(ck, it, tag, call, balls, w)


def between(ck, it, tag, call, balls, w):
    """Dumbbells scattered later must avoid the spheres: by the box they are given, or because they are told of them."""
    m = num(it.arr(call['current_sphere_sizes']).shape[0]).as_int()
    if m == len(balls):
        ck.ok(tag + ': spheres are avoided')
        return
    lo = [cell(it, call['random_box_bottom_left'], c) for c in range(3)]
    hi = [cell(it, call['random_box_top_right'], c) for c in range(3)]
    a = cell(it, call['dumbbell_sizes'], 0)
    if not all(isinstance(x, Poly) and not x.bad for x in lo + hi + [a]):
        ck.unsure(tag, 'box not resolved')
        return
    f = lambda x: Val().poly(x)
    for p, r, s in balls:
        d2 = sum(max(f(l) - f(x), 0, f(x) - f(h)) ** 2 for x, l, h in zip(p, lo, hi))
        if d2 < (f(r) + f(a)) ** 2 - 1e-9:
            ck.fail(tag + ': spheres are avoided', 'a dumbbell may be put on %s' % s, w)
            return
    ck.ok(tag + ': spheres are avoided', 'the box keeps clear of them')

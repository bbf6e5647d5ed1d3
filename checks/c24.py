"""The supplied set-ups place the particles they describe, and a copied set-up is the chosen saved state."""
from .solve import *
from fractions import Fraction as Fr

SEP = Fr(200001, 100000)


def described():
    """Set-up number -> (radii and centres of spheres, radii, centres and extensions of dumbbells)."""
    row = lambda z: [(SEP * (i - 22), 0, z) for i in range(45)]
    h = Fr(9, 2)
    cube = [(i, j, k) for i in (-2, 2) for j in (-2, 2) for k in (-2, 2)]
    return {
        1: ([(1, (4 * i, 0, 0)) for i in range(15)], []),
        2: ([(1, (x, 0, 0)) for x in (-5, 0, 7)], []),
        3: ([(1, c) for c in cube], []),
        4: ([(1, (0, 0, 0)), (1, (h, 0, h))], [(Fr(1, 10), (h, 0, 0)), (Fr(1, 10), (0, 0, h))]),
        5: ([(1, None)] * 41, []),
        6: ([(1, c) for c in row(0) + row(11)], [(Fr(1, 10), None)] * 200),
        7: ([(1, c) for c in row(-5) + row(5) + [(i, 0, j * Fr(5, 2)) for i in (-4, 0, 4) for j in (-1, 0, 1)]], []),
    }


def run():
    ck = Check('C24', 'Every supplied set-up is interpreted and each radius, centre, extension and orientation vector it '
               'returns is compared with the described arrangement; the random ones up to the draw. Copying a set-up '
               'from an archive is interpreted with a symbolic archive, frame and radii; attaching orientations with '
               'symbolic centres and radii.')
    for n, (spheres, dumbs) in described().items():
        supplied(ck, n, spheres, dumbs)
    for ns, nd in ((2, 1), (3, 0), (0, 2), (1, 2)):
        for frame in (0, 2, -1):
            copied(ck, ns, nd, frame)
    attached(ck)
    cube(ck)
    return ck.finish(minimum=200)


def count(ck, it, name, v, n, w):
    got = it.b_len([v], {}, None)
    if not isinstance(got, Poly) or got.const() is None:
        ck.unsure(name, 'count not resolved')
        return False
    if got.const() != n:
        ck.fail(name, '%s instead of %d' % (got.const(), n), w)
        return False
    ck.ok(name, str(n))
    return True


def vec(ck, it, name, v, ix, want, w):
    for k in range(3):
        ck.same('%s, component %d' % (name, k), cell(it, v, *(ix + (k,))), want[k], None, None, w)


def orientations(ck, it, tag, rots, centre, radius, i, w):
    for a, axis in ((0, 0), (1, 2)):
        vec(ck, it, '%s: orientation vector %d of sphere %d' % (tag, a, i), rots, (i, a),
            [centre[k] + (radius if k == axis else ZERO) for k in range(3)], w)


def supplied(ck, n, spheres, dumbs):
    it = ck.interp(Interp(ROOTS, facts=Facts([])))
    calls = []

    def spheres_(it, b, e):
        calls.append(('spheres', b, it.where(e)))
        return it.box(base_arr('drawn', (len(spheres), 3)))

    def dumbs_(it, b, e):
        calls.append(('dumbbells', b, it.where(e)))
        return (it.box(base_arr('drawn', (len(dumbs), 3))), it.box(base_arr('drawnd', (len(dumbs), 3))))
    it.hooks['randomise_spheres'] = spheres_
    it.hooks['randomise_dumbbells'] = dumbs_
    it.hooks['extern:glob.glob'] = lambda it, a, k, e: lst(it, [])
    f = find_opt(it, 'pos_setup', ['setups.positions'])
    w, tag = site(f) if f else 'setups/positions.py', 'set-up %d' % n
    it.overrides['settings.setup_number'] = P(n)
    try:
        pos = it.unpack(it.run_module('setups.positions')['posdata'], 6)
    except Exception as ex:
        ck.unsure(tag, ex)
        return
    ok = [count(ck, it, '%s: number of %s' % (tag, what), v, k, w) for what, v, k in (
        ('sphere radii', pos[0], len(spheres)), ('sphere centres', pos[1], len(spheres)), ('orientations', pos[2], len(spheres)),
        ('bead radii', pos[3], len(dumbs)), ('dumbbell centres', pos[4], len(dumbs)), ('extensions', pos[5], len(dumbs)))]
    if not all(ok):
        return
    for i, (a, c) in enumerate(spheres):
        ck.same('%s: radius of sphere %d' % (tag, i), cell(it, pos[0], i), P(a), None, None, w)
        at = [cell(it, pos[1], i, k) for k in range(3)]
        if c is not None:
            vec(ck, it, '%s: centre of sphere %d' % (tag, i), pos[1], (i,), [P(x) for x in c], w)
        elif all(isinstance(x, Poly) for x in at):
            vec(ck, it, '%s: centre of sphere %d' % (tag, i), pos[1], (i,), base_row('drawn', i), w)
        if all(isinstance(x, Poly) and not x.bad for x in at):
            orientations(ck, it, tag, pos[2], at, P(a), i, w)
    for i, (a, c) in enumerate(dumbs):
        ck.same('%s: bead radius of dumbbell %d' % (tag, i), cell(it, pos[3], i), P(a), None, None, w)
        if c is not None:
            vec(ck, it, '%s: centre of dumbbell %d' % (tag, i), pos[4], (i,), [P(x) for x in c], w)
            d = [cell(it, pos[5], i, k) for k in range(3)]
            ck.same('%s: extension of dumbbell %d along y' % (tag, i), d[1], ZERO, None, None, w)
            if all(isinstance(x, Poly) for x in d):
                ck.same('%s: squared length of dumbbell %d' % (tag, i), d[0] * d[0] + d[2] * d[2], P(4), None, None, w)
                ck.same('%s: dumbbell %d lies along the diagonal' % (tag, i), d[0] - d[2], ZERO, None, None, w)
        else:
            vec(ck, it, '%s: centre of dumbbell %d' % (tag, i), pos[4], (i,), base_row('drawn', i), w)
            vec(ck, it, '%s: extension of dumbbell %d' % (tag, i), pos[5], (i,), base_row('drawnd', i), w)
    for kind, b, where in calls:
        region(ck, it, n, tag, kind, b, where)


def base_row(name, i):
    a = base_arr(name, (1000, 3))
    return [a.get((P(i), P(k))) for k in range(3)]


def region(ck, it, n, tag, kind, b, w):
    """Particles drawn from the region handed over fit between the walls or into the square."""
    vals = list(b.values()) if isinstance(b, dict) else list(b)
    lo, hi = ([cell(it, v, k) for k in range(3)] for v in vals[:2])
    for k, (x, y) in enumerate(zip(lo, hi)):
        if not all(isinstance(v, Poly) and v.const() is not None for v in (x, y)):
            ck.unsure('%s: region, component %d' % (tag, k), 'not resolved')
            continue
        x, y = x.const(), y.const()
        name = '%s: region of the %s, component %d' % (tag, kind, k)
        if k == 1:
            good = x == y == 0
        elif kind == 'spheres':
            good = -x == y and abs(y - Fr(71, 10)) < Fr(1, 10 ** 9)
        elif k == 2:
            good = 1 < x < y < 10
        else:
            good = -x == y == 17
        if good:
            ck.ok(name, '%s to %s' % (x, y))
        else:
            ck.fail(name, 'from %s to %s' % (x, y), w)


def copied(ck, ns, nd, frame):
    it = ck.interp(Interp(ROOTS, facts=Facts([])))
    C, D = base_arr('centres', (4, ns + nd, 3)), base_arr('deltax', (4, nd, 3))
    files = []

    def load(it, a, k, e):
        files.append(a[0])
        r = Ref('dict')
        it.st.heap[r.id] = {'centres': it.box(C), 'deltax': it.box(D), 'sphere_rotations': it.box(base_arr('rots', (4, ns, 2, 3)))}
        return r
    it.hooks['extern:numpy.load'] = load
    f = find_opt(it, 'same_setup_as', ['functions.shared'])
    if f is None:
        ck.unsure('same_setup_as', 'not found')
        return
    w, tag = site(f), 'copied set-up, %d spheres, %d dumbbells, frame %d' % (ns, nd, frame)
    a, b = sym('a', pos=True), sym('b', pos=True)
    try:
        pos = it.unpack(it.call_func(f, ['run'], {'frameno': P(frame), 'sphere_size': a, 'dumbbell_size': b}), 6)
    except Exception as ex:
        ck.unsure(tag, ex)
        return
    at = frame % 4
    if files and all(isinstance(x, str) for x in files):
        if all(x.split('/')[-1] == 'run.npz' for x in files):
            ck.ok('%s: archive read' % tag, ', '.join(files))
        else:
            ck.fail('%s: archive read' % tag, 'reads %s' % ', '.join(files), w)
    else:
        ck.unsure('%s: archive read' % tag, repr(files))
    for i in range(ns):
        c = [C.get((P(at), P(i), P(k))) for k in range(3)]
        ck.same('%s: radius of sphere %d' % (tag, i), cell(it, pos[0], i), a, None, None, w)
        vec(ck, it, '%s: centre of sphere %d' % (tag, i), pos[1], (i,), c, w)
        orientations(ck, it, tag, pos[2], c, a, i, w)
    for i in range(nd):
        ck.same('%s: bead radius of dumbbell %d' % (tag, i), cell(it, pos[3], i), b, None, None, w)
        vec(ck, it, '%s: centre of dumbbell %d' % (tag, i), pos[4], (i,), [C.get((P(at), P(ns + i), P(k))) for k in range(3)], w)
        vec(ck, it, '%s: extension of dumbbell %d' % (tag, i), pos[5], (i,), [D.get((P(at), P(i), P(k))) for k in range(3)], w)
    for what, v, k in (('spheres', pos[1], ns), ('dumbbells', pos[4], nd), ('extensions', pos[5], nd)):
        count(ck, it, '%s: number of %s' % (tag, what), v, k, w)


def attached(ck):
    for ns in (1, 2, 3):
        it = ck.interp(Interp(ROOTS, facts=Facts([])))
        f = find_opt(it, 'add_sphere_rotations_to_positions', ['functions.shared'])
        if f is None:
            ck.unsure('add_sphere_rotations_to_positions', 'not found')
            return
        X, A, V = base_arr('x', (ns, 3)), base_arr('a', (ns,), pos=True), base_arr('v', (2, 3))
        r = it.call_func(f, [it.box(X), it.box(A), it.box(V)], {})
        for i in range(ns):
            for m in range(2):
                vec(ck, it, 'attached vectors, %d spheres: vector %d of sphere %d' % (ns, m, i), r, (i, m),
                    [X.get((P(i), P(k))) + A.get((P(i),)) * V.get((P(m), P(k))) for k in range(3)], site(f))


def cube(ck):
    it = ck.interp(Interp(ROOTS, facts=Facts([])))
    f = find_opt(it, 'simple_cubic_8', ['setups.functions_positions'])
    if f is None:
        ck.unsure('simple_cubic_8', 'not found')
        return
    w, s = site(f), sym('side', pos=True)
    try:
        pos, lo, hi = it.unpack(it.call_func(f, [s], {}), 3)
    except Exception as ex:
        ck.unsure('cubic array', ex)
        return
    q = s * Fr(1, 4)
    want = [(i, j, k) for i in (-1, 1) for j in (-1, 1) for k in (-1, 1)]
    for i, c in enumerate(want):
        vec(ck, it, 'cubic array: centre %d' % i, pos, (i,), [q * x for x in c], w)
    for k in range(3):
        ck.same('cubic array: lower corner, component %d' % k, cell(it, lo, k), q * -2, None, None, w)
        ck.same('cubic array: upper corner, component %d' % k, cell(it, hi, k), q * 2, None, None, w)

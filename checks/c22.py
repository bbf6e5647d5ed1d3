"""The scalar tables: mid-field scalars from the two-sphere solver, joining, and removal of the far field."""
from .solve import *
from .c21 import table_hooks
from sa.values import SymStr
from .common import _sq2

NAMES = ['XA', 'YA', 'YB', 'XC', 'YC', 'XG', 'YG', 'YH', 'XM', 'YM', 'ZM']
SCALE = [6 * PI, 4 * PI, 8 * PI, 4 * PI, 8 * PI, F(20, 3) * PI]
KIND = {'A': 0, 'B': 1, 'C': 2, 'G': 3, 'H': 4, 'M': 5}
MSCALE = [1 / (6 * PI), 1 / (4 * PI), 1 / (8 * PI), P(2), P(1), F(20, 3) * PI]
MPOWER = {'A': -1, 'B': -2, 'C': -3, 'G': 1, 'H': 0, 'M': 3}
POWER = {'A': 1, 'B': 2, 'C': 3, 'G': 2, 'H': 3, 'M': 3}


# -- mid-field ---------------------------------------------------------------
def mob(name, a, b, sep, ratio):
    """Dimensional mobility scalar coupling sphere a to the load on sphere b, spheres of radius 1 and `ratio`."""
    if name in ('xa', 'ya', 'xc', 'yc', 'xm', 'ym', 'zm'):
        a, b = min(a, b), max(a, b)         # reciprocity
    return pl.app(name, P(a), P(b), sep, ratio)


def solver(case, sep, ratio):
    """What the two-sphere solver prints for a unit load: motion and stresslet of each sphere in the
    axisymmetric form with the line of centres along x."""
    kind, b, j = case[0], int(case[1]), int(case[2])
    out = []
    for a in (1, 2):
        f = lambda n: mob(n, a, b, sep, ratio)
        back = lambda n: mob(n, b, a, sep, ratio)
        v = dict.fromkeys('Ux Uy Uz Ox Oy Oz Sxx Syy Sxy Sxz Syz'.split(), ZERO)
        if kind == 'F' and j == 1:
            v['Ux'], v['Sxx'], v['Syy'] = f('xa'), F(2, 3) * f('xg'), -F(1, 3) * f('xg')
        elif kind == 'F' and j == 2:
            v['Uy'], v['Oz'], v['Sxy'] = f('ya'), -f('yb'), f('yg')
        elif kind == 'T' and j == 1:
            v['Ox'] = f('xc')
        elif kind == 'T' and j == 2:
            v['Oy'], v['Uz'], v['Sxz'] = f('yc'), back('yb'), -f('yh')
        elif kind == 'E' and j == 1:
            v['Ux'], v['Sxx'], v['Syy'] = -back('xg'), f('xm'), -F(1, 2) * f('xm')
        elif kind == 'E' and j == 4:
            v['Uy'], v['Oz'], v['Sxy'] = -2 * back('yg'), -2 * back('yh'), f('ym')
        elif kind == 'E' and j == 3:
            v['Syz'] = f('zm')
        else:
            return None
        out += list(v.values())
    return out


def inverse(m):
    """Exact inverse by cofactors."""
    n = len(m)

    def det(r, c):
        if not r:
            return ONE
        return pl.addn([(1 if k % 2 == 0 else -1) * m[r[0]][q] * det(r[1:], c[:k] + c[k + 1:])
                        for k, q in enumerate(c)])
    al = list(range(n))
    d = det(al, al)
    return [[(1 if (i + j) % 2 == 0 else -1) * det([r for r in al if r != j], [c for c in al if c != i]) / d
             for j in al] for i in al]


def product(a, b):
    return [[pl.addn([a[i][k] * b[k][j] for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def resistances(sep, ratio):
    """Dimensional resistance scalars {(name, a, b)} of spheres of radius 1 and `ratio`: forces and torques are
    eliminated for motions, leaving S = (g a^-1) U + (m + g a^-1 g^T) E."""
    f = lambda n: [[mob(n, a, b, sep, ratio) for b in (1, 2)] for a in (1, 2)]
    T = lambda m: [list(r) for r in zip(*m)]
    out = {}

    def put(name, m):
        for a in (0, 1):
            for b in (0, 1):
                out[name, a + 1, b + 1] = m[a][b]
    XA = inverse(f('xa'))
    put('XA', XA)
    put('XC', inverse(f('xc')))
    XG = product(f('xg'), XA)
    put('XG', XG)
    xm, c = f('xm'), product(XG, T(f('xg')))
    put('XM', [[xm[a][b] + F(2, 3) * c[a][b] for b in (0, 1)] for a in (0, 1)])
    ya, yb, yc = f('ya'), f('yb'), f('yc')
    big = [ya[a] + T(yb)[a] for a in (0, 1)] + [yb[a] + yc[a] for a in (0, 1)]
    R = inverse(big)
    put('YA', [r[:2] for r in R[:2]])
    put('YB', [r[:2] for r in R[2:]])
    put('YC', [r[2:] for r in R[2:]])
    yg, yh = f('yg'), f('yh')
    # a spin about z gives the shear stresslet through -h
    load = [yg[a] + [-x for x in yh[a]] for a in (0, 1)]
    G = product(load, R)
    put('YG', [r[:2] for r in G])
    put('YH', [[-x for x in r[2:]] for r in G])
    c = product(G, T(load))
    ym = f('ym')
    put('YM', [[ym[a][b] + 2 * c[a][b] for b in (0, 1)] for a in (0, 1)])
    put('ZM', f('zm'))
    return out


def run_case(a):
    """(separation, first radius, second radius, case) of a solver command line."""
    parts = a.parts if isinstance(a, SymStr) else (a,)
    nums, text = [], ''
    for q in parts:
        if isinstance(q, str):
            text += q
        elif q[0] == 'num' and not q[2]:
            text += '@%d' % len(nums)
            nums.append(q[1])
        else:
            return None
    t = text.split()

    def val(x):
        try:
            return nums[int(x[1:])] if x[0] == '@' else P(F(x))
        except (ValueError, IndexError):
            return x
    return [val(x) for x in t[1:]]


def midfield(ck):
    ratios, gaps = [F(1, 10), F(1, 2), F(1)], [sym('gap0', pos=True), sym('gap1', pos=True)]
    hooks = table_hooks(gaps, ratios)

    def call(it, a, k, e):
        v = a[0]
        if isinstance(v, (Ref, ListC)):
            c = it.concrete_iter(v)
            v = it.mkstr([y for x in c for y in (x, ' ')]) if c else v
        r = run_case(v) if isinstance(v, (str, SymStr)) else None
        if r is None or len(r) < 4 or not isinstance(r[3], str) or r[1] != ONE:
            return NotImplemented
        o = solver(r[3], r[0], r[2])
        return SymStr([x for p in o for x in (('num', p, ''), ' ')]) if o else NotImplemented
    saved, texts = [], []
    hooks['extern:subprocess.check_output'] = call
    hooks['extern:numpy.save'] = lambda it, a, k, e: saved.append((it.deep(a[1]), it.where(e)))
    hooks['extern:open'] = lambda it, a, k, e: ('file', a[0])
    hooks['extern:numpy.savetxt'] = lambda it, a, k, e: texts.append((a[0], it.deep(a[1]), it.where(e)))
    it = ck.interp(Interp(ROOTS, facts=Facts([]), hooks=hooks))
    it.run_module('generate_scalars_midfield')
    if len(saved) != 1:
        ck.unsure('mid-field table', '%d tables saved' % len(saved))
    allr = [F(1, 10), F(1, 2), F(1), F(2), F(10)]
    want, motion = {}, {}
    for g, gap in enumerate(gaps):
        for r, ratio in enumerate(allr):
            small = min(ratio, 1 / ratio)
            sep = (2 + gap) * (1 + small) / 2
            R = resistances(sep, P(small))
            for k, name in enumerate(NAMES):
                for cross in (0, 1):
                    if ratio <= 1:
                        v = R[name, 1, 1 + cross]
                    else:
                        # seen from the larger sphere: exchange labels, rescale by its radius
                        v = R[name, 2, 2 - cross] * P(ratio) ** POWER[name[1]] * (-1 if name[1] in 'BG' else 1)
                    want[k, cross, g, r] = v / SCALE[KIND[name[1]]]
                    u = [1, 1 + cross] if ratio <= 1 else [2, 2 - cross]
                    v = mob(name.lower(), *u, sep, P(small))
                    if ratio > 1:
                        v = v * P(ratio) ** MPOWER[name[1]] * (-1 if name[1] in 'BG' else 1)
                    motion[k, cross, g, r] = v / MSCALE[KIND[name[1]]]
    smp = sampler
    for tab, where in saved:
        table(ck, it, 'mid-field', tab, want, (11, 2, len(gaps), len(allr)), where, smp)
    human(ck, it, 'mid-field', texts, want, [2 + g for g in gaps], allr, smp, 'resistance')
    human(ck, it, 'mid-field mobility', texts, motion, [2 + g for g in gaps], allr, smp, 'mobility')


def sampler(seed):
    def app(val, name, args):
        if name in ('xa', 'ya', 'yb', 'xc', 'yc', 'xg', 'yg', 'yh', 'xm', 'ym', 'zm'):
            args = [val.poly(x) for x in args]
            own = 1.0 if args[0] == args[1] and name not in ('yb', 'xg', 'yg', 'yh') else 0.0
            return own + 0.4 * (rnd('mob', name, [round(float(x), 9) for x in args], seed) - 0.5)
        return None
    v = Val(app=app, seed=seed)
    v.env['gap0'], v.env['gap1'] = 0.1 + rnd('g0', seed), 1.2 + rnd('g1', seed)
    return v


def table(ck, it, tag, tab, want, shape, where, smp):
    tab = it.unbox(tab)
    if not isinstance(tab, Arr) or tab.ndim != 4:
        return ck.unsure(tag + ' table', 'not resolved')
    for w, n in zip(shape, tab.shape):
        ck.same(tag + ' table extent', n, P(w), None, smp, where)
    for (k, c, g, r), w in want.items():
        ck.same('%s table: %s %s, distance %d, ratio %d' % (tag, NAMES[k], 'cross' if c else 'self', g, r),
                cell(it, tab, k, c, g, r), w, Facts([]), smp, where)


def human(ck, it, tag, texts, want, dist, ratios, smp, only=''):
    """Rows of the readable table: distance, ratio, self/cross, then the eleven scalars."""
    for name, t, where in texts:
        t = it.unbox(t)
        if isinstance(name, tuple):
            name = name[1]
        if not isinstance(name, str) or only not in name:
            continue
        if not isinstance(t, Arr) or t.ndim != 2 or t.shape[1] != P(14):
            continue
        n = t.shape[0].as_int()
        if n is None:
            ck.unsure(tag + ' readable table', 'length not resolved')
            continue
        seen = set()
        for i in range(n):
            lead = [cell(it, t, i, c) for c in range(3)]
            d = [k for k, x in enumerate(dist) if x == lead[0]]
            r = [k for k, x in enumerate(ratios) if P(x) == lead[1]]
            c = lead[2].as_int() if isinstance(lead[2], Poly) else None
            if not d or not r or c not in (0, 1):
                ck.unsure(tag + ' readable table row', 'row %d not resolved: %r' % (i, lead))
                continue
            seen.add((d[0], r[0], c))
            for k in range(11):
                ck.same('%s readable table: %s row %d' % (tag, NAMES[k], i), cell(it, t, i, 3 + k),
                        want[k, c, d[0], r[0]], Facts([]), smp, where)
        if len(seen) == n and n != len(dist) * len(ratios) * 2:
            ck.fail(tag + ' readable table', '%d rows for %d distances and %d ratios' % (n, len(dist), len(ratios)),
                    where)


# -- joining -----------------------------------------------------------------
def file_of(a):
    v = a[1] if isinstance(a, tuple) and a[0] == 'file' else a
    if isinstance(v, SymStr):
        v = ''.join(q for q in v.parts if isinstance(q, str))
    return v.rsplit('/', 1)[-1] if isinstance(v, str) else ''


def joining(ck, tag, near, mid):
    """Tables for two sets of distances become one table in order of distance."""
    ratios = [F(1, 2), F(1)]
    allr = [F(1, 2), F(1), F(2)]
    arrs = {'near': base_arr('near', (11, 2, len(near), 3)), 'mid': base_arr('mid', (11, 2, len(mid), 3))}
    saved, texts = [], []

    def loadtxt(it, a, k, e):
        n = file_of(a[0])
        for w, v in (('lambda', ratios), ('near', near), ('mid', mid)):
            if w in n:
                return it.b_array([lst(it, [P(x) for x in v])], {}, e)
        return NotImplemented

    def load(it, a, k, e):
        n = file_of(a[0])
        for w in arrs:
            if w in n:
                return arrs[w]
        return NotImplemented
    it = ck.interp(Interp(ROOTS, facts=Facts([]), hooks={
        'extern:numpy.loadtxt': loadtxt, 'extern:numpy.load': load,
        'extern:open': lambda it, a, k, e: ('file', a[0]),
        'extern:numpy.save': lambda it, a, k, e: saved.append((it.deep(a[1]), it.where(e))),
        'extern:numpy.savetxt': lambda it, a, k, e: texts.append((a[0], it.deep(a[1]), it.where(e)))}))
    it.run_module('combine_scalars')
    order = sorted([(x, 'near', k) for k, x in enumerate(near)] + [(x, 'mid', k) for k, x in enumerate(mid)])
    want = {(k, c, g, r): elem(w, (k, c, j, r)) for k in range(11) for c in (0, 1)
            for g, (x, w, j) in enumerate(order) for r in range(3)}
    if len(saved) != 1:
        ck.unsure(tag + ' table', '%d tables saved' % len(saved))
    smp = lambda seed: Val(seed=seed)
    for t, where in saved:
        table(ck, it, tag, t, want, (11, 2, len(order), 3), where, smp)
    for name, t, where in texts:
        if 's_dash' in file_of(name):
            for g, (x, w, j) in enumerate(order):
                ck.same('%s distances [%d]' % (tag, g), cell(it, t, g), P(x), None, smp, where)
    human(ck, it, tag, texts, want, [P(x) for x, w, j in order], allr, smp, 'resistance')


# -- removing the far field --------------------------------------------------
def far_matrix(a, b, s, drag):
    """Resistance of spheres of radius a at the origin and b at (s,0,0): inverse of the far-field mobility."""
    c = 1 / (8 * PI)
    rad = (a, b)
    lay = [(k, p, i) for k, w in (('U', 3), ('O', 3), ('E', 5)) for p in (0, 1) for i in range(w)]
    own = {'U': lambda r: 6 * PI * r, 'O': lambda r: 8 * PI * r ** 3, 'E': lambda r: F(20, 3) * PI * r ** 3}
    if drag:
        return {(x, y): own[x[0]](rad[x[1]]) if x == y else ZERO for x in lay for y in lay}, lay
    load = {'U': 'F', 'O': 'T', 'E': 'S'}
    m = {}
    for x in lay:
        for y in lay:
            if x[1] == y[1]:
                m[x, y] = 1 / own[x[0]](rad[x[1]]) if x == y else ZERO
                continue
            p, q = x[1], y[1]
            R = [P(-s) if p == 0 else P(s), ZERO, ZERO]
            ref = far_field(rad[p], rad[q], c)
            key = x[0] + load[y[0]]
            if key in ('UF', 'UT', 'OF', 'OT', 'ES', 'US', 'OS', 'EF'):
                v = at(ref[key, x[2], y[2]], R, P(s))
            else:
                # strain from a torque: reciprocal of the rotation from a stresslet
                R2 = [-z for z in R]
                v = at(far_field(rad[q], rad[p], c)['OS', y[2], x[2]], R2, P(s))
            if key in ('US', 'OS'):
                v = v
            m[x, y] = v
    return m, lay


def subtract(ck, module, drag):
    ratios, dist = [F(1, 2), F(1)], [sym('sd0', pos=True), sym('sd1', pos=True)]
    allr = [F(1, 2), F(1), F(2)]
    full = base_arr('full', (11, 2, 2, 3))
    saved, texts = [], []
    hooks = {'extern:numpy.loadtxt': lambda it, a, k, e: it.b_array(
                 [lst(it, [P(x) for x in (ratios if 'lambda' in file_of(a[0]) else dist)])], {}, e),
             'extern:numpy.load': lambda it, a, k, e: full,
             'extern:open': lambda it, a, k, e: ('file', a[0]),
             'extern:numpy.save': lambda it, a, k, e: saved.append((it.deep(a[1]), it.where(e))),
             'extern:numpy.savetxt': lambda it, a, k, e: texts.append((a[0], it.deep(a[1]), it.where(e)))}
    it = ck.interp(Interp(ROOTS, facts=Facts([]), hooks=hooks))
    it.run_module(module)
    tag = 'drag removed' if drag else 'far field removed'
    if len(saved) != 1:
        ck.unsure(tag, '%d tables saved' % len(saved))
    want = {}
    for g, d in enumerate(dist):
        for r, lam in enumerate(allr):
            m, lay = far_matrix(ONE, P(lam), d * (1 + P(lam)) / 2, drag)
            n = len(lay)
            if drag:
                R = lambda x, y: m[x, y]
            else:
                mat = Arr((n, n), lambda ix, m=m, lay=lay: pick(m, lay, ix))
                inv = it.unbox(it.b_inv([mat], {}, None))
                R = lambda x, y, inv=inv, lay=lay: num(inv.get((P(lay.index(x)), P(lay.index(y)))))
            for c in (0, 1):
                # components other than those the program reads wherever the axial symmetry allows
                y2, hlf = _sq2, 1 / _sq2
                z = {'XA': R(('U', 0, 0), ('U', c, 0)), 'YA': R(('U', 0, 2), ('U', c, 2)),
                     'YB': -R(('U', c, 1), ('O', 0, 2)), 'XC': R(('O', 0, 0), ('O', c, 0)),
                     'YC': R(('O', 0, 2), ('O', c, 2)), 'YG': R(('U', c, 2), ('E', 0, 3)) * hlf,
                     'YH': R(('O', c, 2), ('E', 0, 1)) * hlf, 'YM': R(('E', 0, 3), ('E', c, 3)),
                     'ZM': R(('E', 0, 4), ('E', c, 4))}
                w = axial()
                z['XG'] = pl.addn([w[i] * R(('U', c, 0), ('E', 0, i)) for i in (0, 2)]) * F(3, 2) / pl.power(P(F(3, 2)), F(1, 2))
                z['XM'] = pl.addn([w[i] * w[j] * R(('E', 0, i), ('E', c, j)) for i in (0, 2) for j in (0, 2)])
                for k, name in enumerate(NAMES):
                    want[k, c, g, r] = elem('full', (k, c, g, r)) - z[name] / SCALE[KIND[name[1]]]

    def smp(seed):
        v = Val(seed=seed)
        v.env['sd0'], v.env['sd1'] = 2.1 + 0.4 * rnd('a', seed), 2.6 + rnd('b', seed)
        return v
    for t, where in saved:
        table(ck, it, tag, t, want, (11, 2, 2, 3), where, smp)
    human(ck, it, tag, texts, want, dist, allr, smp, 'resistance')


def axial():
    """Components of the unit axisymmetric tensor sqrt(3/2)(xx - 1/3) in the condensed basis."""
    s = pl.power(P(F(3, 2)), F(1, 2))
    t = [s * F(2, 3), -s / 3, -s / 3]
    return {i: pl.addn([BASIS[i][k][k] * t[k] for k in range(3)]) for i in (0, 2)}


def pick(m, lay, ix):
    i, j = ix[0].as_int(), ix[1].as_int()
    if i is not None and j is not None:
        return m[lay[i], lay[j]]
    out = ZERO
    n = range(len(lay))
    for p in (n if i is None else [i]):
        for q in (n if j is None else [j]):
            g = c_and(cmp_eq(ix[0] - p), cmp_eq(ix[1] - q))
            out = ite(g, m[lay[p], lay[q]], out)
    return out


# -- reading -----------------------------------------------------------------
def reading(ck):
    """Which table the simulation reads."""
    for far, drag in ((False, False), (False, True), (True, False), (True, True)):
        opened = []
        ratios = [F(1, 2), F(1)]
        hooks = {'extern:numpy.loadtxt': lambda it, a, k, e: it.b_array(
                     [lst(it, [P(x) for x in (ratios if 'lambda' in file_of(a[0]) else (F(21, 10), F(3)))])], {}, e),
                 'extern:numpy.load': lambda it, a, k, e: opened.append((file_of(a[0]), it.where(e))) or base_arr('t', (11, 2, 2, 3)),
                 'extern:open': lambda it, a, k, e: ('file', a[0])}
        it = ck.interp(Interp(ROOTS, facts=Facts([]), hooks=hooks,
                              overrides={'settings.use_drag_Minfinity': far, 'settings.use_drag_R2Binfinity': drag}))
        g = it.run_module('resistance_scalars.data')
        tag = 'tables read, drag-only far field %s, drag-only removal %s' % (far, drag)
        got = [n for n, w in opened if '_d' in n]
        want = 'scalars_general_resistance_d_drag.npy' if far and drag else 'scalars_general_resistance_d.npy'
        if not got:
            ck.unsure(tag, 'no table read')
        elif got == [want]:
            ck.ok(tag, 'table with the matching far field removed')
        else:
            ck.fail(tag, 'reads %s instead of %s' % (', '.join(got), want), opened[0][1])
        for k, x in enumerate((F(1, 2), F(1), F(2))):
            ck.same('size ratios [%d]' % k, cell(it, g.get('lam_range_with_reciprocals', OpaqueV('no list')), k), P(x),
                    None, None, 'resistance_scalars/data.py')


def run():
    ck = Check('C22', 'The scripts that build the scalar tables are interpreted from first to last statement with the '
               'two-sphere solver, the input tables and distances as symbols; every entry written is compared with the '
               'resistance scalars obtained by eliminating loads from the two-sphere mobility, with the joined tables in '
               'order of distance, and with the table minus the scalars of the inverse far-field mobility.')
    midfield(ck)
    joining(ck, 'joined', [F(201, 100), F(202, 100)], [F(21, 10), F(3)])
    joining(ck, 'joined, overlapping ranges', [F(201, 100), F(22, 10)], [F(21, 10), F(3)])
    subtract(ck, 'subtract_R2Binfinity_from_scalars', False)
    subtract(ck, 'subtract_R2Binfinitydrag_from_scalars', True)
    reading(ck)
    return ck.finish(minimum=100)

"""Shear inputs: rates, rotation and accumulated deformation describe one simple shear."""
from .solve import *

A, T, ph, gd, tm = (sym(n, pos=p) for n, p in (('amp', False), ('period', True), ('phase', False), ('rate', False),
                                               ('dt', True)))
fno = sym('frame', pos=True)


def gradient(it, O, E):
    """Velocity gradient G[i][j] = du_i/dx_j of u = O x x + E.x."""
    o = [cell(it, O, k) for k in range(3)]
    if any(not isinstance(x, Poly) for x in o):
        return None
    W = [[ZERO, -o[2], o[1]], [o[2], ZERO, -o[0]], [-o[1], o[0], ZERO]]
    out = []
    for i in range(3):
        row = []
        for j in range(3):
            e = cell(it, E, i, j)
            if not isinstance(e, Poly):
                return None
            row.append(W[i][j] + e)
        out.append(row)
    return out


def compare(ck, it, tag, O, E, pos, value, w):
    G = gradient(it, O, E)
    if G is None:
        ck.unsure(tag, 'flow not resolved')
        return
    for i in range(3):
        for j in range(3):
            ck.same('%s: gradient (%d,%d)' % (tag, i, j), G[i][j], value if (i, j) == pos else ZERO, None, None, w)
            e, f = cell(it, E, i, j), cell(it, E, j, i)
            ck.same('%s: strain rate symmetric (%d,%d)' % (tag, i, j), e, f, None, None, w)


def outcome(ck, it, f, v, tag, pos, rate, strain, n, centre):
    r = it.unpack(v, 6)
    w = site(f)
    if r is None:
        ck.unsure(tag, 'result not resolved')
        return
    Ea, U, O, c, Ot, Et = r
    ln = it.unbox(Ea)
    cnt = ln.concrete() if isinstance(ln, ListC) else None
    if cnt is not None:
        if len(cnt) != max(1, n):
            ck.fail(tag + ': one strain rate per sphere', '%d strain rates for %d spheres' % (len(cnt), n), w)
        else:
            ck.ok(tag + ': one strain rate per sphere')
    for k in range(3):
        ck.same('%s: no uniform flow [%d]' % (tag, k), cell(it, U, k), ZERO, None, None, w)
        ck.same('%s: centre kept [%d]' % (tag, k), cell(it, c, k), centre[k], None, None, w)
    for p in range(max(1, n)):
        E = lst(it, [[cell(it, Ea, p, i, j) for j in range(3)] for i in range(3)])
        compare(ck, it, '%s, strain rate %d' % (tag, p), O, E, pos, rate, w)
    compare(ck, it, tag + ', accumulated', Ot, Et, pos, strain, w)


def run():
    ck = Check('C14', 'The shear definitions are interpreted for symbolic amplitude, period, phase, rate and time; the '
               'velocity gradient rebuilt from rotation and strain rate must be a single shear component, and the '
               'accumulated deformation the same component with the time integral of the rate.')
    c = [sym('c%d' % k) for k in range(3)]
    w0 = 2 * PI / T
    arg = fno * tm * w0 + ph
    sin, cos = pl.apply_fn('sin', (arg,)), pl.apply_fn('cos', (arg,))
    it0 = Interp(ROOTS, facts=Facts([]))
    f = find_opt(it0, 'oscillatory_shear', ['setups.functions_inputs'])
    for n in (0, 1, 3):
        for axis in (1, 2):
            for tr in (False, True):
                for opp in ((False, True) if axis == 2 else (False,)):
                    if f is None:
                        ck.unsure('oscillatory shear', 'function not present')
                        continue
                    it = ck.interp(Interp(ROOTS, facts=Facts([])))
                    f = find(it, 'oscillatory_shear', ['setups.functions_inputs'])
                    v = it.call_func(f, [], {'amplitude': A, 'period': T, 'frameno': fno, 'timestep': tm, 'phase': ph,
                                             'centre_of_background_flow': it.box(const_arr(c)), 'num_spheres': P(n),
                                             'unused_axis': P(axis), 'transpose_shear': tr, 'opposite_direction': opp})
                    pos = {(1, False): (0, 2), (1, True): (2, 0), (2, False): (0, 1), (2, True): (1, 0)}[axis, tr]
                    sg = -1 if opp else 1
                    outcome(ck, it, f, v, 'oscillatory, axis %d%s%s, %d spheres' % (axis, ', transposed' if tr else '',
                                                                                    ', opposite' if opp else '', n),
                            pos, sg * A * w0 * cos, sg * A * sin, n, c)
    for n in (0, 1, 3):
        it = ck.interp(Interp(ROOTS, facts=Facts([])))
        f = find_opt(it, 'constant_shear', ['setups.functions_inputs'])
        if f is None:
            ck.unsure('constant shear', 'function not present')
            continue
        v = it.call_func(f, [], {'gammadot': gd, 'frameno': fno, 'timestep': tm,
                                 'centre_of_background_flow': it.box(const_arr(c)), 'num_spheres': P(n)})
        outcome(ck, it, f, v, 'constant, %d spheres' % n, (0, 2), gd, gd * fno * tm, n, c)
    catalogue(ck)
    return ck.finish(minimum=100)


def catalogue(ck):
    """The flows offered by the input definitions, through to what the solver receives."""
    arg = fno * tm * 2 * PI / 10
    for number, rate, strain, centre in (
            (3, PI / 15 * pl.apply_fn('cos', (arg,)), pl.apply_fn('sin', (arg,)) / 3, (F(9, 4), 0, F(9, 4))),
            (7, ONE, fno * tm, (0, 0, 0))):
        for ns, nd in ((2, 0), (2, 1)):
            it = ck.interp(Interp(ROOTS, facts=Facts([])))
            f = find(it, 'input_ftsuoe', ['setups.inputs'])
            pos = it.box((base_arr('sa', (ns,), pos=True), base_arr('sx', (ns, 3)), base_arr('srot', (ns, 2, 3)),
                          base_arr('da', (nd,), pos=True), base_arr('dx', (nd, 3)), base_arr('dd', (nd, 3))))
            v = it.call_func(f, [], {'n': P(number), 'posdata': pos, 'frameno': fno, 'timestep': tm,
                                     'last_velocities': lst(it, [[], [], [], []]), 'input_form': 'fte'})
            r = it.unpack(v, 21)
            tag = 'input %d, %d spheres, %d dumbbells' % (number, ns, nd)
            if r is None:
                ck.unsure(tag, 'result not resolved')
                continue
            outcome(ck, it, f, (r[8], r[13], r[14], r[15], r[16], r[17]), tag, (0, 2), rate, strain, ns,
                    [P(x) for x in centre])

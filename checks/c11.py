"""Orientation vectors turn rigidly with their sphere and stay attached to it."""
import math
from .frame import *

AXES = {'spin along a generic axis': None, 'no spin': (0.0, 0.0, 0.0), 'spin along +x': (0.8, 0.0, 0.0),
        'spin along -x': (-0.8, 0.0, 0.0), 'spin along +y': (0.0, 1.1, 0.0), 'spin along -z': (0.0, 0.0, -0.7),
        'spin in the xz plane': (0.4, 0.0, -0.9)}
BOX = ((0, 4.1), (1, 3.7), (2, 4.6))


def sampler(axis, aligned, box=False):
    def smp(seed):
        def el(name, idx):
            if name[:-1] == 'Oi' and axis is not None:
                return 0.0
            if (name[:-1] == 'Oa' or name == 'lvO') and axis is not None:
                return axis[idx[-1]]
            if aligned and name == 'srot':
                c = 0.6 if idx[1] == 0 else -1.3
                return base.elem('sx', (idx[0], idx[2])) + c * axis[idx[2]]
            if name == 'boxL':
                return BOX[idx[0]][1]
            if name[:-1] in ('Ot', 'Et'):
                return 0.3 * (rnd('bx', name, idx, seed) - 0.5)
            return None
        base = Val(seed=seed)
        v = Val(elem=el, seed=seed)
        v.env['dt'] = 0.2 + 0.5 * rnd('dt', seed)
        return v
    return smp


def rodrigues(om, v, rest=False):
    if rest:
        return v
    w = pl.power(pl.addn([o * o for o in om]), F(1, 2))
    th = w * dt
    k = [o / w for o in om]
    kv = pl.addn([a * b for a, b in zip(k, v)])
    c, s = pl.apply_fn('cos', (th,)), pl.apply_fn('sin', (th,))
    x = cross(k, v)
    return [v[i] * c + x[i] * s + k[i] * kv * (1 - c) for i in range(3)]


def run():
    ck = Check('C11', 'The orientation endpoints after one step, minus the new centre, are compared with the rigid rotation '
               'of the old ones by the scheme\'s spin times the step, for every scheme, in open and periodic boxes, for '
               'generic, zero and axis-aligned spins.')
    ck.total = True
    for scheme in ('euler', 'ab2', 'rk4'):
        for fno, start in ((3, 0), (3, 3)):
            if fno == start and scheme == 'rk4':
                continue
            for periodic in (False, True):
                one(ck, scheme, fno, start, periodic)
    initial(ck)
    return ck.finish(minimum=100)


def one(ck, scheme, fno, start, periodic):
    fr = Frame(2, 0, scheme, fno, start, periodic)
    it = ck.interp(fr.it)
    new = it.unpack(fr.g['posdata'], 6)
    tag = '%s%s%s' % (scheme, ', periodic' if periodic else '', ', first step' if fno == start else '')
    if new is None:
        ck.unsure(tag, 'final particle data not resolved')
        return
    w = site(fr.f)
    _, O, _, _, _ = scheme_velocities(scheme, fno == start, 2, 0)
    for name, axis in AXES.items():
        for aligned in ((False, True) if axis and any(axis) else (False,)):
            # the polar angle of a vector on the axis is known to half precision only
            ck.tol = 1e-6 if aligned else 1e-8
            for p in range(2) if axis is None else (1,):
                for j in range(2) if axis is None else (0 if aligned else 1,):
                    v = add(V('srot', p, j), sc(-1, V('sx', p)))
                    want = rodrigues(O[p], v, axis is not None and not any(axis))
                    for k in range(3):
                        got = cell(it, new[2], p, j, k) - cell(it, new[1], p, k)
                        ck.same('%s, %s%s: sphere %d vector %d [%d]' % (tag, name, ', vector on the axis' if aligned else
                                                                        '', p, j, k),
                                got, want[k], None, sampler(axis, aligned), w)


def initial(ck):
    it = ck.interp(Interp(ROOTS, facts=Facts([cmp_ge(Ns - 1)])))
    f = find_opt(it, 'add_sphere_rotations_to_positions', ['functions.shared'])
    if f is None:
        ck.unsure('initial orientation', 'function not present')
        return
    r = it.unbox(it.call_func(f, [it.box(base_arr('sx', (Ns, 3))), it.box(base_arr('sa', (Ns,), pos=True)),
                                  it.box(base_arr('rot', (2, 3)))], {}))
    q = sym('p', isint=True)
    fx = Facts([cmp_ge(q), cmp_gt(Ns - q), cmp_ge(Ns - 1)])
    for j in range(2):
        for k in range(3):
            ck.same('initial orientation vector %d [%d]' % (j, k), cell(it, r, q, j, k),
                    elem('sx', (q, P(k))) + elem('sa', (q,)) * elem('rot', (P(j), P(k))), fx, None, site(f))

"""Time integration: the chosen explicit scheme is applied to every particle coordinate."""
from .frame import *


def run():
    ck = Check('C10', 'One timestep is interpreted for every scheme, for spheres and dumbbells, first and later frames, '
               'with the solver outputs of each stage as named arrays; new coordinates, remembered velocities and the '
               'data handed to the solver at each stage are compared with the scheme.')
    for ns, nd in ((2, 1), (1, 0), (0, 2)):
        for scheme in ('euler', 'ab2', 'rk4'):
            for fno, start in ((0, 0), (1, 0), (3, 0), (3, 3)):
                for twod in ((False, True) if (ns, nd) == (2, 1) and fno == 3 and start == 0 else (False,)):
                    fr = Frame(ns, nd, scheme, fno, start, settings={'fully_2d_problem': twod,
                                                                     'invert_m_every': P(2)})
                    one(ck, fr, scheme, fno, start, twod)
    return ck.finish(minimum=200)


def one(ck, fr, scheme, fno, start, twod):
    ns, nd, it = fr.ns, fr.nd, fr.it
    ck.interp(it)
    tag = '%s, %d spheres, %d dumbbells, frame %d after start %d%s' % (scheme, ns, nd, fno, start, ', planar' if twod else '')
    w = site(fr.f)
    U, O, B, H, stages = scheme_velocities(scheme, fno == start, ns, nd, twod)
    new = it.unpack(fr.g['posdata'], 6)
    if new is None:
        ck.unsure(tag, 'final particle data not resolved')
        return
    shaped(ck, it, tag, new, w)
    for p in range(ns):
        ck.same('%s: size of sphere %d kept' % (tag, p), cell(it, new[0], p), elem('sa', (P(p),)), None, None, w)
        want = add(V('sx', p), sc(dt, U[p]))
        for k in range(3):
            ck.same('%s: new position of sphere %d [%d]' % (tag, p, k), cell(it, new[1], p, k), want[k], None, None, w)
    for p in range(nd):
        ck.same('%s: size of dumbbell %d kept' % (tag, p), cell(it, new[3], p), elem('da', (P(p),)), None, None, w)
        want = add(V('dx', p), sc(dt, B[p]))
        wd = add(V('dd', p), sc(dt, H[p]))
        for k in range(3):
            ck.same('%s: new position of dumbbell %d [%d]' % (tag, p, k), cell(it, new[4], p, k), want[k], None, None, w)
            ck.same('%s: new extension of dumbbell %d [%d]' % (tag, p, k), cell(it, new[5], p, k), wd[k], None, None, w)
    # solver calls
    if len(fr.calls) != len(stages):
        ck.fail('%s: stages' % tag, '%d evaluations instead of %d' % (len(fr.calls), len(stages)), w)
        return
    times = [P(fno)] if scheme != 'rk4' else [P(fno), P(fno) + P(1) / 2, P(fno) + P(1) / 2, P(fno) + 1]
    regen = fno % 2 == 0 or fno == start
    for k, ((bound, snap, where), (X, D, L)) in enumerate(zip(fr.calls, stages)):
        key = '%s, stage %d: ' % (tag, k + 1)
        pd = snap.get('posdata')
        if not (isinstance(pd, tuple) and len(pd) == 6):
            ck.unsure(key + 'particle data', repr(pd))
        else:
            shaped(ck, it, '%s, stage %d' % (tag, k + 1), pd, where)
            for p in range(ns):
                for c in range(3):
                    ck.same('%ssphere %d position [%d]' % (key, p, c), cell(it, pd[1], p, c), X[p][c], None, None, where)
            for p in range(nd):
                for c in range(3):
                    ck.same('%sdumbbell %d position [%d]' % (key, p, c), cell(it, pd[4], p, c), D[p][c], None, None, where)
                    ck.same('%sdumbbell %d extension [%d]' % (key, p, c), cell(it, pd[5], p, c), L[p][c], None, None, where)
        for name, want in (('frameno', times[k]), ('timestep', dt), ('input_number', P(1)), ('input_form', 'fte'),
                           ('cutoff_factor', fr.settings['cutoff_factor']), ('regenerate_Minfinity', regen)):
            if name in snap:
                deep_same(ck, it, key + name, snap[name], want, None, None, where)
        if not regen and 'last_generated_Minfinity_inverse' in snap:
            side = 11 * ns + 6 * nd
            deep_same(ck, it, key + 'cached far field', snap['last_generated_Minfinity_inverse'],
                      base_arr('oldM' if k == 0 else 'Minv1', (side, side)), None, None, where)
    # what the next step will see
    side = 11 * ns + 6 * nd
    if regen or scheme != 'rk4':
        deep_same(ck, it, tag + ': far field carried to the next step', fr.g['last_generated_Minfinity_inverse'],
                  base_arr('Minv1', (side, side)), None, None, w)
    if scheme == 'ab2':
        lv = it.unpack(fr.g['last_velocities'], 4)
        if lv is None:
            ck.unsure(tag + ': remembered velocities', 'not resolved')
            return
        f2 = flat if twod else (lambda v: v)
        for nm, slot, n, want in (('sphere velocity', 0, ns, lambda p: f2(sphere_velocity(1, p, V('sx', p)))),
                                  ('sphere spin', 3, ns, lambda p: spin(1, p)),
                                  ('dumbbell velocity', 1, nd, lambda p: dumbbell_velocity(1, p, V('dx', p))),
                                  ('dumbbell half stretch', 2, nd, lambda p: sc(P(1) / 2, stretch(1, p, V('dd', p))))):
            for p in range(n):
                for c in range(3):
                    ck.same('%s: remembered %s %d [%d]' % (tag, nm, p, c), cell(it, lv[slot], p, c), want(p)[c], None,
                            None, w)

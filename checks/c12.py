"""Background flow: superposed on every particle at its own position, at every stage."""
from .frame import *
from .c08 import solve as solve_problem, Problem

PARTICLE = ('Ua', 'Ub', 'Hb', 'Oa')


def only_flow(a):
    """Force-free particles: the solver's disturbance velocities vanish."""
    if a.kind == 'elem' and (a.args[0][:-1] in PARTICLE or a.args[0] in ('lvU', 'lvB', 'lvH', 'lvO')):
        return ZERO
    return None


def run():
    ck = Check('C12', 'The background translation, rotation and strain rate are traced from the input definition through '
               'the solver to the motion of spheres and dumbbells; with the disturbance velocities set to zero the motion '
               'must be the flow at each particle\'s position, at each stage.')
    general(ck)
    for scheme in ('euler', 'ab2', 'rk4'):
        for periodic in (False,):
            frame(ck, scheme)
    handed_on(ck)
    return ck.finish(minimum=100)


def general(ck):
    """Any number of particles."""
    it = ck.interp(Interp(ROOTS, facts=Facts([cmp_ge(Ns - 1), cmp_ge(Nd - 1)])))
    q = sym('p', isint=True)
    b = lambda nm, *sh: it.box(base_arr(nm, sh))
    f = find_opt(it, 'add_background_flow_spheres', ['functions.timestepping'])
    if f is not None:
        r = it.unpack(it.call_func(f, [b('Ua1', Ns, 3), b('Oa1', Ns, 3), b('Ea1', Ns, 3, 3), b('Ui1', 3), b('Oi1', 3),
                                       b('sx', Ns, 3), b('cf1', 3)], {}), 2)
        fx = Facts([cmp_ge(q), cmp_gt(Ns - q), cmp_ge(Ns - 1)])
        U, O = sphere_velocity(1, q, V('sx', q)), spin(1, q)
        for k in range(3):
            ck.same('velocity of any sphere [%d]' % k, cell(it, r[0], q, k), U[k], fx, None, site(f))
            ck.same('spin of any sphere [%d]' % k, cell(it, r[1], q, k), O[k], fx, None, site(f))
    f = find_opt(it, 'add_background_flow_dumbbells', ['functions.timestepping'])
    if f is not None:
        r = it.unpack(it.call_func(f, [b('Ub1', Nd, 3), b('Hb1', Nd, 3), b('Ea1', Ns, 3, 3), b('Ui1', 3), b('Oi1', 3),
                                       b('dx', Nd, 3), b('dd', Nd, 3), b('cf1', 3)], {}), 2)
        fx = Facts([cmp_ge(q), cmp_gt(Nd - q), cmp_ge(Nd - 1), cmp_ge(Ns - 1)])
        U, H = dumbbell_velocity(1, q, V('dx', q)), sc(P(1) / 2, stretch(1, q, V('dd', q)))
        for k in range(3):
            ck.same('velocity of any dumbbell [%d]' % k, cell(it, r[0], q, k), U[k], fx, None, site(f))
            ck.same('half stretch of any dumbbell [%d]' % k, cell(it, r[1], q, k), H[k], fx, None, site(f))


def frame(ck, scheme):
    fx = Facts([])
    for ns, nd in ((2, 1), (0, 2), (2, 0)):
        fr = Frame(ns, nd, scheme, 3, 0)
        it = ck.interp(fr.it)
        new = it.unpack(fr.g['posdata'], 6)
        U, O, B, H, _ = scheme_velocities(scheme, False, ns, nd)
        tag = '%s, %d spheres, %d dumbbells' % (scheme, ns, nd)
        if new is None:
            ck.unsure(tag, 'final particle data not resolved')
            continue
        w = site(fr.f)
        for what, slot, n, x0, vel in (('sphere', 1, ns, 'sx', U), ('dumbbell', 4, nd, 'dx', B), ('extension', 5, nd, 'dd', H)):
            for p in range(n):
                want = add(V(x0, p), sc(dt, vel[p]))
                for k in range(3):
                    ck.same('%s: force-free %s %d carried by the flow [%d]' % (tag, what, p, k), cell(it, new[slot], p, k),
                            want[k], fx, None, w, only_flow)


def handed_on(ck):
    """The solver reports the flow of the input definition it solved for."""
    for form, ns, nd, nf, nfd in (('fts', 1, 1, 0, 0), ('fte', 2, 0, 0, 0), ('ufte', 2, 0, 1, 0), ('ufteu', 1, 1, 1, 1),
                                  ('duf', 0, 2, 0, 1)):
        for periodic in (False, True):
            pb = Problem(form, ns, nd, nf, nfd, periodic)
            it, f, o, raw = solve_problem(pb)
            ck.interp(it)
            for slot, nm, sh in ((12, 'Uinf', (3,)), (13, 'Oinf', (3,)), (14, 'cflow', (3,)), (15, 'Otinf', (3,)),
                                 (16, 'Etinf', (3, 3))):
                if raw is None:
                    ck.unsure('%s: %s' % (form, nm), 'solver result not resolved')
                    continue
                deep_same(ck, it, '%s%s: %s reported' % (form, ', periodic' if periodic else '', nm), raw[slot],
                          base_arr(nm, sh), None, None, site(f))

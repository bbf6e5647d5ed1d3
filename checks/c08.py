"""Mobility problems: solution satisfies the resistance relation, prescribed data kept."""
from .solve import *

OUT = ('F', 'T', 'S', 'B', 'DB', 'U', 'O', 'E', 'UB', 'HU')


def solve(pb, printout=0, extract=False):
    it = Interp(ROOTS, facts=Facts([]), hooks=pb.hooks())
    it.bind_products = 1
    f = find(it, 'generate_output_FTSUOE', ['functions.timestepping'])
    lv = lst(it, [[], [], [], []])
    v = it.call_func(f, [], {
        'posdata': pb.posdata(it), 'frameno': sym('frameno', isint=True), 'timestep': sym('dt', pos=True),
        'input_number': sym('inputno', isint=True), 'last_generated_Minfinity_inverse': it.box(base_arr('lastM', (pb.side, pb.side))),
        'regenerate_Minfinity': cmp_gt(sym('regen')), 'input_form': pb.form,
        'cutoff_factor': sym('cf', pos=True), 'printout': P(printout), 'use_drag_Minfinity': cmp_gt(sym('drag')),
        'use_Minfinity_only': cmp_gt(sym('only')), 'extract_force_on_wall_due_to_dumbbells': extract, 'last_velocities': lv,
        'last_velocity_vector': it.box(base_arr('lvv', (pb.side,)))})
    out = it.unpack(v, 19)
    return it, f, dict(zip(OUT, out)) if out else None, out


CASES = [('fts', 2, 2, 0, 0), ('fts', 2, 0, 0, 0), ('fts', 0, 2, 0, 0), ('fte', 2, 2, 0, 0), ('fte', 2, 0, 0, 0),
         ('ufte', 3, 1, 1, 0), ('ufte', 2, 0, 1, 0), ('ufteu', 2, 2, 1, 1), ('duf', 0, 3, 0, 1),
         ('fts', 1, 1, 0, 0), ('fte', 1, 1, 0, 0), ('ufte', 1, 1, 1, 0), ('ufteu', 1, 1, 1, 1), ('duf', 0, 1, 0, 1)]


def run():
    ck = Check('C08', 'For each problem form the solver is interpreted with a symbolic symmetric resistance matrix and '
               'symbolic prescribed data; the returned forces, torques, stresslets and velocities are substituted in '
               'the linear law and prescribed entries are compared with what was given.')
    for form, ns, nd, nf, nfd, *more in CASES + [c + (True,) for c in CASES if c[0] == 'ufte']:
        pb = Problem(form, ns, nd, nf, nfd)
        it, f, o, raw = solve(pb, extract=bool(more))
        ck.interp(it)
        smp = pb.sampler()
        tag = '%s, %d spheres (%d fixed), %d dumbbells (%d fixed)%s' % (form, ns, nf, nd, nfd,
                                                                      ', wall force' if more else '')
        unset(ck, it, tag)
        if o is None:
            ck.unsure(tag, 'outputs not resolved')
            continue
        # prescribed entries come back unchanged
        for name, n, given in (('F', ns, pb.F), ('T', ns, pb.T), ('U', ns, pb.U), ('B', nd, pb.B), ('DB', nd, pb.DB),
                               ('UB', nd, pb.UB), ('HU', nd, pb.HU)):
            for p in range(n):
                for k in range(3):
                    if given[p][k] != 'pippa':
                        got = cell(it, o[name], p, k)
                        ck.same('%s: prescribed %s[%d,%d] returned' % (tag, name, p, k), got, given[p][k], None, smp, site(f))
        for name, given in (('S', pb.S), ('E', pb.E)):
            for p in range(ns):
                for i in range(3):
                    for j in range(3):
                        if given[p][i][j] != 'pippa':
                            got = cell(it, o[name], p, i, j)
                            ck.same('%s: prescribed %s[%d,%d,%d] returned' % (tag, name, p, i, j), got, given[p][i][j],
                                    None, smp, site(f))
        # the law
        load, mot = [], []
        for vec, first, second, third, b, h in ((load, 'F', 'T', 'S', 'B', 'DB'), (mot, 'U', 'O', 'E', 'UB', 'HU')):
            for nm in (first, second):
                for p in range(ns):
                    vec += [cell(it, o[nm], p, k) for k in range(3)]
            for p in range(ns):
                vec += condensed(lambda i, j: cell(it, o[third], p, i, j))
            for nm in (b, h):
                for p in range(nd):
                    vec += [cell(it, o[nm], p, k) for k in range(3)]
        bad = [x for x in load + mot if not isinstance(x, Poly)]
        for r in range(pb.side):
            key = '%s: resistance relation row %d' % (tag, r)
            if bad:
                ck.unsure(key, 'outputs not resolved: %r' % (bad[0],))
                continue
            lhs = pl.addn([elem(RES, (P(r), P(c))) * mot[c] for c in range(pb.side)])
            ck.same(key, lhs, load[r], None, smp, site(f))
        # stresslets / strain rates symmetric and traceless
        for nm in ('S', 'E'):
            for p in range(ns):
                g = lambda i, j: cell(it, o[nm], p, i, j)
                if any(not isinstance(g(i, j), Poly) for i in range(3) for j in range(3)):
                    continue
                for i in range(3):
                    for j in range(i):
                        ck.same('%s: %s of sphere %d symmetric (%d,%d)' % (tag, nm, p, i, j), g(i, j), g(j, i), None, smp, site(f))
                ck.same('%s: %s of sphere %d traceless' % (tag, nm, p), g(0, 0) + g(1, 1) + g(2, 2), ZERO, None, smp, site(f))
        if more:
            wall_force(ck, tag, pb, it, f, o, raw, smp)
    drag_only(ck)
    return ck.finish(minimum=200)


def wall_force(ck, tag, pb, it, f, o, raw, smp):
    """The extracted force is what the dumbbell forces add to the forces on the fixed spheres."""
    rest = Problem(pb.form, pb.ns, pb.nd, pb.nf, pb.nfd)
    rest.B = [[ZERO] * 3 for _ in range(pb.nd)]
    rest.DB = [[ZERO] * 3 for _ in range(pb.nd)]
    it2, f2, o2, raw2 = solve(rest)
    ck.interp(it2)
    if o2 is None:
        ck.unsure(tag + ': force due to the dumbbells', 'outputs not resolved')
        return
    for p in range(pb.nf):
        for k in range(3):
            a, b = cell(it, o['F'], p, k), cell(it2, o2['F'], p, k)
            key = '%s: force on fixed sphere %d[%d] due to the dumbbells' % (tag, p, k)
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                ck.unsure(key, 'forces not resolved')
                continue
            ck.same(key, cell(it, raw[17], p, k), a - b, None, smp, site(f))


def drag_only(ck):
    """Stokes drag on each bead, nothing else."""
    for nd in (1, 3):
        pb = Problem('fts', 0, nd)
        pb.form = 'stokes_drag_dumbbells_only'
        it, f, o, raw = solve(pb)
        ck.interp(it)
        tag = 'drag only, %d dumbbells' % nd
        unset(ck, it, tag)
        if o is None:
            ck.unsure(tag, 'outputs not resolved')
            continue
        for p in range(nd):
            z = P(12) * sym('pi', pos=True) * mu * elem('da', (P(p),))
            for k in range(3):
                for nm, load, mot in (('centre', 'B', 'UB'), ('extension', 'DB', 'HU')):
                    u = cell(it, o[mot], p, k)
                    given = (pb.B if load == 'B' else pb.DB)[p][k]
                    ck.same('%s: prescribed %s[%d,%d] returned' % (tag, load, p, k), cell(it, o[load], p, k), given, None,
                            None, site(f))
                    ck.same('%s: drag on %s of dumbbell %d[%d]' % (tag, nm, p, k),
                            z * u if isinstance(u, Poly) else u, given, None, None, site(f))

"""Configurations that cannot be honoured stop the run; others are accepted."""
from .c08 import solve as solve_problem
from .whole import *

SPHERE_FORMS = ('fts', 'fte', 'ufte', 'ufteu')
DUMBBELL_FORMS = ('fts', 'duf', 'stokes_drag_dumbbells_only')


def run():
    ck = Check('C18', 'The script, the set-ups and the settings are interpreted for usable and unusable configurations; on '
               'every path an unusable one must end the program before anything is solved or saved, and a usable one must '
               'reach the final archive.')
    forms(ck)
    schemes(ck)
    unknown_form(ck)
    ratios(ck)
    numbers(ck)
    arguments(ck)
    explosion(ck)
    return ck.finish(minimum=30)


def ends(it):
    """Sites where the program certainly ends."""
    return [(k, w) for k, g, a, w, f in it.events if k in ('exit', 'raise') and it.facts.decide(g) is True]


def may_end(it):
    return [(k, g, w) for k, g, a, w, f in it.events if k == 'exit' and not g.bad and it.facts.decide(g) is not False]


def judge(ck, key, r, stop, where=MOD):
    it = ck.interp(r.it)
    hard = ends(it)
    hard += [('unbound', w) for n, w, g in it.unbound_reads if it.facts.decide(g) is True]
    if stop:
        if not hard:
            if any(g.bad for k, g, a, w, f in it.events if k in ('exit', 'raise')):
                ck.unsure(key, 'stop condition not resolved')
            else:
                ck.fail(key, 'accepted: nothing ends the program', where)
        elif r.calls or r.saves():
            ck.fail(key, 'solved or saved something before stopping', hard[0][1])
        else:
            ck.ok(key)
        return
    soft = may_end(it)
    if hard or soft:
        ck.fail(key, 'rejected', (hard or [(0, x[2]) for x in soft])[0][1])
    elif not r.saves():
        ck.unsure(key, 'final archive not reached')
    else:
        ck.ok(key)


def const_row(values):
    vals = [P(F(x).limit_denominator(10 ** 6)) for x in values]
    return Arr((P(len(vals)),), lambda i: vals[i[0].as_int()] if i[0].as_int() is not None else pl.fresh('row'))


class Sized(Run):
    """Radii and size ratios of the table given."""

    def __init__(self, sizes, dumb, table, **kw):
        self.sizes, self.dumb, self.table = sizes, dumb, table
        Run.__init__(self, len(sizes), len(dumb), 1, **kw)

    def prepare(self, it, ov):
        self.pos = (const_row(self.sizes),) + self.pos[1:3] + (const_row(self.dumb),) + self.pos[4:]
        ov['setups.positions.posdata'] = it.box(self.pos)
        ov['resistance_scalars.data.lam_range_with_reciprocals'] = it.box(const_row(self.table))


def forms(ck):
    for sizes, dumb in (([1, 1], []), ([1], [1]), ([], [1, 1]), ([], [1]), ([1, 1, 1], [1])):
        for form in ('fts', 'fte', 'ufte', 'ufteu', 'duf', 'stokes_drag_dumbbells_only'):
            r = Sized(sizes, dumb, [1], form=form)
            judge(ck, 'form %s with %d spheres and %d dumbbells' % (form, len(sizes), len(dumb)), r,
                  form not in (SPHERE_FORMS if sizes else DUMBBELL_FORMS))


def schemes(ck):
    for s in ('euler', 'ab2', 'rk4', 'heun', ''):
        r = Sized([1, 1], [1], [1], settings=dict(timestepping_scheme=s))
        judge(ck, 'time stepping scheme %r' % s, r, s not in ('euler', 'ab2', 'rk4'))


def unknown_form(ck):
    for ns, nd in ((2, 0), (1, 1), (0, 2)):
        pb = Problem('fts', ns, nd)
        pb.form = 'xyz'
        it, f, o, raw = solve_problem(pb)
        ck.interp(it)
        key = 'unknown form with %d spheres and %d dumbbells' % (ns, nd)
        if ends(it) or any(it.facts.decide(g) is True for n, w, g in it.unbound_reads):
            ck.ok(key)
        elif any(isinstance(x, OpaqueV) for x in o.values()) or it.notes:
            ck.unsure(key, 'not resolved')
        else:
            ck.fail(key, 'a solution is returned', site(f))


TABLE = [0.1, 0.5, 1, 2, 10]
RATIOS = [
    # radii of the spheres, table, usable
    ([1, 1], TABLE, True), ([1, 0.1], TABLE, True), ([0.1, 1], TABLE, True), ([1, 2, 1], TABLE, True), ([3, 3], TABLE, True),
    ([1, 0.2], TABLE, False), ([0.2, 1], TABLE, False), ([1, 1, 3], TABLE, False), ([4, 1, 1], TABLE, False),
    ([1, 2, 4], TABLE, False), ([0.1, 1, 2], TABLE, False),
    ([1, 1], [0.5, 2], False), ([7], [1], True), ([2, 20], TABLE, True),
]


def ratios(ck):
    for sizes, table, fine in RATIOS:
        r = Sized(sizes, [], table)
        judge(ck, 'radii %s, size ratios tabulated %s' % (sizes, table), r, not fine)


def numbers(ck):
    for n in (0, 10 ** 4, -10 ** 4):
        it = Interp(ROOTS, facts=Facts([]))
        f = find(it, 'pos_setup', ['setups.positions'])
        it.call_func(f, [P(n)], {})
        gone(ck, it, 'set-up number %d' % n, True, site(f))
        for form in ('fte', 'fts'):
            it = Interp(ROOTS, facts=Facts([]))
            f = find(it, 'input_ftsuoe', ['setups.inputs'])
            pos = it.box((base_arr('sa', (2,), pos=True), base_arr('sx', (2, 3)), base_arr('srot', (2, 2, 3)),
                          base_arr('da', (1,), pos=True), base_arr('dx', (1, 3)), base_arr('dd', (1, 3))))
            it.call_func(f, [P(n), pos, ZERO, dt, lst(it, [[], [], [], []])], {'input_form': form})
            gone(ck, it, 'input number %d, %s' % (n, form), True, site(f))


def gone(ck, it, key, want, where):
    ck.interp(it)
    if ends(it):
        ck.ok(key) if want else ck.fail(key, 'rejected', ends(it)[0][1])
    elif want:
        if any(g.bad for k, g, a, w, f in it.events if k in ('exit', 'raise')):
            ck.unsure(key, 'stop condition not resolved')
        else:
            ck.fail(key, 'accepted: nothing ends the program', where)
    else:
        ck.ok(key)


def arguments(ck):
    for argv, fine in ((['2', '3', '0.5', '40', 'fts', 'True'], True), (['2'], True), ([], True), (['x'], False),
                       (['2', 'y'], False), (['2', '3', 'fast'], False), (['2', '3', '0.5', 'many'], False),
                       (['2.5'], False), (['2', '3.5'], False), (['2', '3', '0.5', '4.5'], False), (['2', '3', '1'], True)):
        it = Interp(ROOTS, facts=Facts([]))
        it.overrides['sys.argv'] = it.box(ListC.of(['run_simulation.py'] + argv))
        it.run_module('settings')
        gone(ck, it, 'command line %s' % ' '.join(argv), not fine, 'settings.py')


def explosion(ck):
    """A dumbbell longer than five stops the run when protection is on, and only then."""
    it = Interp(ROOTS, facts=Facts([]))
    f = find_opt(it, 'did_something_go_wrong_with_dumbells', ['functions.timestepping'])
    if f is None:
        ck.unsure('explosion protection', 'not found')
        return
    for before in (False, True):
        for on in (False, True):
            for long_ in range(4):
                for n in (1, 2, 3):
                    if n < long_:
                        continue
                    it = ck.interp(Interp(ROOTS, facts=Facts([])))
                    f = find(it, 'did_something_go_wrong_with_dumbells', ['functions.timestepping'])
                    old = [[P(1), P(0), P(0)] for _ in range(n)]
                    new = [[P(3), P(5 if p + 1 == long_ else 3), P(1)] for p in range(n)]
                    arr = lambda m: it.box(Arr((P(n), P(3)), lambda i, m=m: m[i[0].as_int()][i[1].as_int()]))
                    v = it.call_func(f, [before, arr(old), arr(new), on], {})
                    v = it.truth(v)
                    got = it.facts.decide(v)
                    want = before or (on and long_ > 0)
                    key = 'dumbbell %d of %d too long, protection %s, earlier error %s' % (long_, n, on, before)
                    if got is None:
                        ck.unsure(key, 'flag not resolved')
                    elif got != want:
                        ck.fail(key, 'error flag is %s' % got, site(f))
                    else:
                        ck.ok(key)

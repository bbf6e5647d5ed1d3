"""Settings and command-line arguments reach the run unchanged."""
from .whole import *

NAMES = ('setup_number', 'input_number', 'timestep', 'num_frames', 'input_form', 'extract_force_on_wall_due_to_dumbbells')
LINES = [[], ['7'], ['7', '5'], ['7', '5', '0.25'], ['7', '5', '0.25', '3'], ['7', '5', '0.25', '3', 'ufte'],
         ['7', '5', '0.25', '3', 'fts', 'True'], ['2', '9', '1e-3', '4', 'ufteu', 'False'], ['4', '2', '2', '1', 'fte', '1'],
         ['12', '34', '0.5', '2', 'ufte', 't'], ['3', '1', '0.125', '5', 'fts', 'no']]
TRUE_WORDS = ('True', 'true', 't', 'T', '1')


def run():
    ck = Check('C19', 'The settings are interpreted for command lines of every length, and the whole script with distinct '
               'settings; what each evaluation of the solver and of the inputs receives must be the given value, the '
               'far field must be renewed exactly when configured, and optional actions occur only if asked for.')
    base = settings(ck, [])
    for argv in LINES:
        overridden(ck, base, argv)
    for argv in LINES[4:]:
        whole(ck, argv)
    for every, start, frames in ((1, 0, 3), (2, 0, 5), (3, 0, 5), (4, 2, 7), (3, 1, 6), (10, 0, 3), (2, 3, 6)):
        for scheme in ('euler', 'ab2', 'rk4'):
            for each in (True, False) if scheme == 'rk4' else (True,):
                renewal(ck, every, start, frames, scheme, each)
    options(ck)
    return ck.finish(minimum=200)


def settings(ck, argv):
    it = ck.interp(Interp(ROOTS, facts=Facts([])))
    it.overrides['sys.argv'] = it.box(ListC.of(['run_simulation.py'] + argv))
    return it.run_module('settings')


def given(argv, base):
    """The values a command line stands for."""
    conv = [lambda s: P(int(s)), lambda s: P(int(s)), lambda s: P(float(s)), lambda s: P(int(s)), str,
            lambda s: TRUE if s in TRUE_WORDS else FALSE]
    return {n: conv[k](argv[k]) if k < len(argv) else base.get(n) for k, n in enumerate(NAMES)}


def as_truth(v):
    return (TRUE if v else FALSE) if isinstance(v, bool) else v


def equal(ck, key, got, want, where):
    got, want = as_truth(got), as_truth(want)
    if isinstance(want, str) or isinstance(want, Cond):
        if isinstance(got, (str, Cond)) and not (isinstance(got, Cond) and got.bad):
            if got == want:
                ck.ok(key)
            else:
                ck.fail(key, 'is %r instead of %r' % (got, want), where)
        else:
            ck.unsure(key, 'not resolved: %r' % (got,))
        return
    ck.same(key, got, want, None, None, where)


def overridden(ck, base, argv):
    g = settings(ck, argv)
    for n, want in given(argv, base).items():
        key = 'command line %r: %s' % (' '.join(argv), n)
        if n not in g:
            ck.unsure(key, 'not a setting')
        else:
            equal(ck, key, g[n], want, 'settings.py')
    for n, v in base.items():
        if n in NAMES or n not in SETTINGS or n not in g or not isinstance(v, (Poly, bool, str)):
            continue
        equal(ck, 'command line %r: %s unaffected' % (' '.join(argv), n), g[n], v, 'settings.py')


class Line(Run):
    """The script started with a command line; what it does not give has distinct values."""

    def __init__(self, ck, argv, **kw):
        self.argv, self.ck = argv, ck
        self.seen = []
        form = argv[4] if len(argv) > 4 else None
        Run.__init__(self, 2, 1, int(argv[3]), form=form, **kw)

    def prepare(self, it, ov):
        g = settings(self.ck, self.argv)
        for n in NAMES:
            ov['settings.' + n] = g[n]
        ov['sys.argv'] = it.box(ListC.of(['run_simulation.py'] + self.argv))
        if len(self.argv) < 5:
            ov['settings.input_form'] = g['input_form']

    def flows(self, it, bound, node):
        self.seen.append(({k: it.deep(v) for k, v in bound.items()}, it.where(node)))
        return Run.flows(self, it, bound, node)


def whole(ck, argv):
    base = settings(ck, [])
    want = given(argv, base)
    cf = sym('cutf', pos=True)
    r = Line(ck, argv, settings=dict(cutoff_factor=cf, use_drag_Minfinity=cmp_gt(sym('drag')), printout=P(0),
                                     use_Minfinity_only=cmp_gt(sym('only'))))
    ck.interp(r.it)
    tag = 'run with %r' % ' '.join(argv)
    frames = int(argv[3])
    if len(r.calls) != frames:
        ck.fail(tag + ': frames', '%d steps instead of %d' % (len(r.calls), frames), MOD)
        return
    ck.ok(tag + ': frames')
    for k, (bound, snap, where) in enumerate(r.calls):
        for n, v in (('frameno', P(k)), ('timestep', want['timestep']), ('input_number', want['input_number']),
                     ('input_form', want['input_form']), ('cutoff_factor', cf), ('printout', ZERO),
                     ('use_drag_Minfinity', cmp_gt(sym('drag'))), ('use_Minfinity_only', cmp_gt(sym('only'))),
                     ('extract_force_on_wall_due_to_dumbbells', want['extract_force_on_wall_due_to_dumbbells'])):
            if n in snap:
                equal(ck, '%s, step %d: %s' % (tag, k, n), snap[n], v, where)
    for snap, where in r.seen:
        for n, v in (('n', want['input_number']), ('input_form', want['input_form'])):
            if n in snap:
                equal(ck, '%s: %s of the first inputs' % (tag, n), snap[n], v, where)


class Cached(Run):
    """A solver that hands back the far field it was given unless it renews it."""

    def solver(self, it, bound, node):
        out = Run.solver(self, it, bound, node)
        again = self.calls[-1][1].get('regenerate_Minfinity')
        if as_truth(again) is FALSE or as_truth(again) == FALSE:
            return out[:10] + (bound['last_generated_Minfinity_inverse'],) + out[11:]
        return out


def renewal(ck, every, start, frames, scheme, each):
    st = dict(invert_m_every=P(every), timestepping_scheme=scheme, rk4_generate_minfinity_for_each_stage=each)
    side = 17
    loaded = None
    if start:
        loaded = True
    r = Cached(1, 1, frames, st, start=start, loaded=loaded,
               archive=None if not start else {k: base_arr('h' + k, (start + 1,) + s) for k, s in (
                   ('centres', (2, 3)), ('deltax', (1, 3)), ('sphere_rotations', (1, 2, 3)), ('Fa', (1, 3)), ('Fb', (1, 3)),
                   ('DFb', (1, 3)), ('Sa', (1, 3, 3)), ('force_on_wall_due_to_dumbbells', ()))})
    it = ck.interp(r.it)
    per = 4 if scheme == 'rk4' else 1
    tag = 'far field renewed every %d steps, frames %d to %d, %s%s' % (every, start, frames - 1, scheme,
                                                                    '' if each else ', first stage only')
    if len(r.calls) != per * (frames - start):
        ck.fail(tag + ': steps', '%d solver calls for %d frames' % (len(r.calls), frames - start), MOD)
        return
    last = None
    for f in range(start, frames):
        due = f % every == 0 or f == start
        for s in range(per):
            k = per * (f - start) + s
            snap, where = r.calls[k][1:]
            want = due and (s == 0 or each)
            if 'regenerate_Minfinity' not in snap:
                ck.unsure('%s: frame %d stage %d' % (tag, f, s + 1), 'request not resolved')
                continue
            equal(ck, '%s: frame %d stage %d renewed' % (tag, f, s + 1), snap['regenerate_Minfinity'], want, where)
            if not want and last is not None and 'last_generated_Minfinity_inverse' in snap:
                got = cell(it, snap['last_generated_Minfinity_inverse'], 0, 1)
                ok = [elem('Minv%d' % c, (P(0), P(1))) for c in last]
                key = '%s: frame %d stage %d reuses the latest far field' % (tag, f, s + 1)
                if not isinstance(got, Poly) or got.bad:
                    ck.unsure(key, 'not resolved')
                elif got in ok:
                    ck.ok(key)
                else:
                    ck.fail(key, 'uses %s' % pl.show(got), where)
            if want:
                last = [k + 1] if s == 0 else last + [k + 1]


def options(ck):
    for mail in (False, True):
        sent = []
        r = Run(1, 0, 2, dict(email_on_completion=mail),
                hooks={'send_email': lambda it, b, e: sent.append(it.where(e))})
        ck.interp(r.it)
        key = 'message on completion %s' % ('asked for' if mail else 'not asked for')
        if len(sent) == (1 if mail else 0):
            ck.ok(key)
        else:
            ck.fail(key, '%d messages are sent' % len(sent), sent[0] if sent else MOD)
    for ep in (0, 1, 2):
        for ef in (0, 1):
            r = Run(1, 1, 3, dict(save_positions_every_n_timesteps=P(ep), save_forces_every_n_timesteps=P(ef)))
            ck.interp(r.it)
            n = len(r.saves())
            key = 'archive with positions every %d and forces every %d steps' % (ep, ef)
            if (n > 0) == (ep > 0 or ef > 0):
                ck.ok(key)
            else:
                ck.fail(key, '%d archives are written' % n, MOD)

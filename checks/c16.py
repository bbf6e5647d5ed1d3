"""The saved history: one entry per sampled frame, in order, of the state the forces belong to."""
from .whole import *

NAMES = {'centres': None, 'deltax': 5, 'sphere_rotations': 2}
FORCES = {'Fa': 'Fa', 'Fb': 'Fb', 'DFb': 'DFb', 'Sa': 'Sa'}
RUNS = [
    # spheres, dumbbells, scheme, frames, positions every, forces every, save after, backup every
    (2, 1, 'euler', 3, 1, 1, 0, 120), (2, 1, 'ab2', 4, 2, 1, 0, 2), (1, 1, 'rk4', 2, 1, 1, 0, 1), (2, 0, 'euler', 5, 1, 2, 2, 2),
    (0, 2, 'euler', 3, 1, 1, 1, 120), (2, 1, 'euler', 5, 3, 2, 0, 120), (1, 1, 'euler', 3, 2, 1, 0, 1),
    (2, 1, 'euler', 5, 2, 3, 1, 120),
]


def sampled(frames, every, after):
    return [f for f in range(frames) if every > 0 and f % every == 0 and f >= after]


def entry(it, arr, j, shape):
    import itertools
    for ix in itertools.product(*[range(n) for n in shape]):
        yield ix, cell(it, arr, j, *ix)


def history(ck, run, tag, data, frames, every_p, every_f, after, per, upto, final, w):
    """Compare one archive with the states and forces the solver saw up to frame `upto`."""
    it, ns, nd = run.it, run.ns, run.nd
    states = [run.states[per * f][1] for f in range(frames)]
    states = [it.unpack(s, 6) for s in states]
    last = run.ends[-1] if run.ends else it.unpack(run.g['posdata'], 6)
    shapes = {'centres': (ns + nd, 3), 'deltax': (nd, 3), 'sphere_rotations': (ns, 2, 3)}
    take = [f for f in sampled(frames, every_p, after) if f <= upto]
    if every_p > 0 and take:
        snaps = [states[f] for f in take]
        ends = final and upto == frames - 1 and take[-1] == frames - 1
        if ends:
            snaps.append(last)
        for name in shapes:
            arr = it.unbox(data.get(name))
            if not isinstance(arr, Arr):
                ck.unsure('%s: %s' % (tag, name), 'not resolved: %r' % (arr,))
                continue
            if final and not ends:
                # whether the end state is added off the sampling grid is left open
                n = arr.shape[0].as_int()
                if n is not None and n not in (len(snaps), len(snaps) + 1):
                    ck.fail('%s: %s entries' % (tag, name), '%d entries for %d sampled frames' % (n, len(snaps)), w)
                else:
                    ck.ok('%s: %s entries' % (tag, name))
            else:
                ck.same('%s: %s entries' % (tag, name), arr.shape[0], P(len(snaps)), None, None, w)
            n = arr.shape[0].as_int()
            for j, s in enumerate(snaps):
                if n is not None and j >= n:
                    break
                for ix, got in entry(it, arr, j, shapes[name]):
                    if name == 'centres':
                        want = cell(it, s[1], *ix) if ix[0] < ns else cell(it, s[4], ix[0] - ns, *ix[1:])
                    else:
                        want = cell(it, s[NAMES[name]], *ix)
                    if not isinstance(want, Poly):
                        ck.unsure('%s: %s' % (tag, name), 'state not resolved')
                        continue
                    ck.same('%s: %s entry %d %s' % (tag, name, j, ix), got, want, None, None, w)
    takef = [f for f in sampled(frames, every_f, after) if f <= upto]
    if every_f > 0 and takef:
        shf = {'Fa': (ns, 3), 'Fb': (nd, 3), 'DFb': (nd, 3), 'Sa': (ns, 3, 3)}
        for name, base in FORCES.items():
            arr = it.unbox(data.get(name))
            if not isinstance(arr, Arr):
                ck.unsure('%s: %s' % (tag, name), 'not resolved: %r' % (arr,))
                continue
            ck.same('%s: %s entries' % (tag, name), arr.shape[0], P(len(takef)), None, None, w)
            n = arr.shape[0].as_int()
            for j, f in enumerate(takef):
                if n is not None and j >= n:
                    break
                for ix, got in entry(it, arr, j, shf[name]):
                    if per == 1:
                        want = elem('%s%d' % (base, f + 1), ix)
                    else:
                        want = pl.addn([F(c, 6) * elem('%s%d' % (base, 4 * f + k + 1), ix)
                                        for k, c in enumerate((1, 2, 2, 1))])
                    ck.same('%s: %s entry %d %s' % (tag, name, j, ix), got, want, None, None, w)
        arr = it.unbox(data.get('force_on_wall_due_to_dumbbells'))
        if isinstance(arr, Arr) and arr.ndim == 1:
            ck.same('%s: wall force entries' % tag, arr.shape[0], P(len(takef)), None, None, w)
            n = arr.shape[0].as_int()
            for j, f in enumerate(takef[:n]):
                want = sym('wall%d' % (f + 1)) if per == 1 else \
                    pl.addn([F(c, 6) * sym('wall%d' % (4 * f + k + 1)) for k, c in enumerate((1, 2, 2, 1))])
                ck.same('%s: wall force entry %d' % (tag, j), cell(it, arr, j), want, None, None, w)


def run():
    ck = Check('C16', 'The whole script is interpreted for several frame counts and saving intervals with the solver '
               'uninterpreted; the arrays handed to the archive must hold, in order, the particle state the solver was called '
               'with at every sampled frame (plus the end state) and that call\'s forces; the backup must hold the same '
               'history so far, and only this run\'s backup is deleted.')
    for cfg in RUNS:
        one(ck, cfg)
    partial(ck)
    return ck.finish(minimum=100)


def one(ck, cfg):
    ns, nd, scheme, frames, ep, ef, after, backup = cfg
    r = Run(ns, nd, frames, dict(timestepping_scheme=scheme, save_positions_every_n_timesteps=P(ep),
                                 save_forces_every_n_timesteps=P(ef), start_saving_after_first_n_timesteps=P(after),
                                 save_forces_and_positions_to_temp_file_as_well=True,
                                 save_to_temp_file_every_n_timesteps=P(backup)))
    it = ck.interp(r.it)
    per = 4 if scheme == 'rk4' else 1
    tag = '%d spheres, %d dumbbells, %s, %d frames, positions/%d, forces/%d, after %d' % (ns, nd, scheme, frames, ep, ef, after)
    if len(r.calls) != per * frames:
        ck.fail(tag + ': steps taken', '%d solver calls for %d frames' % (len(r.calls), frames), MOD)
        return
    ck.ok(tag + ': steps taken')
    for f in range(frames):
        ck.same('%s: frame number of step %d' % (tag, f), r.states[per * f][0], P(f), None, None, MOD)
    saves = r.saves()
    if not saves:
        ck.fail(tag + ': archive written', 'no archive is written', MOD)
        return
    path, data, guard, w = saves[-1]
    history(ck, r, tag + ', archive', data, frames, ep, ef, after, per, frames - 1, True, w)
    # backups come before it, one per multiple of the interval from the first saved frame on
    backs = saves[:-1]
    due = [f for f in range(frames) if f % backup == 0 and f >= after]
    ck.extra['backups'] = ck.extra.get('backups', 0) + len(backs)
    if len(backs) != len(due):
        ck.fail(tag + ': backups written', '%d backups, %d due' % (len(backs), len(due)), backs[0][3] if backs else w)
        return
    ck.ok(tag + ': backups written')
    for f, (p, d, g, w2) in zip(due, backs):
        history(ck, r, '%s, backup at %d' % (tag, f), d, frames, ep, ef, after, per, f, True, w2)
        if p == path and not isinstance(p, OpaqueV):
            ck.fail('%s, backup at %d: name' % (tag, f), 'the backup has the name of the final archive', w2)
        else:
            ck.ok('%s, backup at %d: name' % (tag, f))
    for p, g, w2 in r.removals():
        if isinstance(p, OpaqueV) or isinstance(path, OpaqueV):
            ck.unsure(tag + ': file deleted', 'name not resolved')
            continue
        names = [b[0] for b in backs]
        full = [vl.SymStr([q, '.npz']) if isinstance(q, vl.SymStr) else q + '.npz' for q in names]
        if any(p == q for q in names + full) or not names and p != path:
            ck.ok(tag + ': file deleted')
        else:
            ck.fail(tag + ': file deleted', 'deletes %r, backups are %r' % (p, names), w2)


def partial(ck):
    """Positions only, or forces only: the run still ends with an archive of what was kept."""
    for ep, ef in ((1, 0), (0, 1)):
        r = Run(2, 1, 3, dict(save_positions_every_n_timesteps=P(ep), save_forces_every_n_timesteps=P(ef)))
        it = ck.interp(r.it)
        tag = 'only %s kept' % ('positions' if ep else 'forces')
        bad = [(n, w) for n, w, g in it.unbound_reads if g is not FALSE]
        if bad:
            for n, w in bad:
                ck.fail('%s: %s available' % (tag, n), 'variable %s is read without ever having been set' % n, w)
            continue
        saves = r.saves()
        if not saves:
            ck.fail(tag + ': archive written', 'no archive is written', MOD)
            continue
        history(ck, r, tag, saves[-1][1], 3, ep, ef, 0, 1, 2, True, saves[-1][3])

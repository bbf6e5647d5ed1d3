"""A run continued from its backup goes on exactly where the backup stopped."""
from .c16 import *

HALF = P(F(1, 2))
WIDE = {'centres': ('hC', lambda n, d: (n + d, 3)), 'deltax': ('hD', lambda n, d: (d, 3)),
        'sphere_rotations': ('hR', lambda n, d: (n, 2, 3))}
FWIDE = {'Fa': ('hFa', lambda n, d: (n, 3)), 'Fb': ('hFb', lambda n, d: (d, 3)), 'DFb': ('hDF', lambda n, d: (d, 3)),
         'Sa': ('hSa', lambda n, d: (n, 3, 3)), 'force_on_wall_due_to_dumbbells': ('hW', lambda n, d: ())}
CASES = [
    # spheres, dumbbells, scheme, frames, positions every, forces every, save after, backup written at frame
    (2, 1, 'euler', 5, 1, 1, 0, 2), (2, 1, 'euler', 4, 1, 1, 0, 0), (1, 1, 'ab2', 6, 2, 1, 0, 2), (2, 0, 'rk4', 4, 1, 2, 1, 2),
    (0, 2, 'euler', 5, 1, 1, 2, 3), (2, 1, 'euler', 7, 3, 3, 0, 3), (2, 1, 'euler', 4, 1, 1, 0, 3), (1, 1, 'euler', 7, 2, 1, 1, 4),
    (2, 1, 'euler', 6, 2, 1, 0, 3), (1, 1, 'euler', 9, 4, 2, 1, 7), (2, 0, 'ab2', 8, 3, 1, 0, 5), (2, 0, 'euler', 5, 1, 3, 1, 2),
]


def archive(ns, nd, np_, nf):
    out = {k: base_arr(b, (np_,) + s(ns, nd)) for k, (b, s) in WIDE.items()}
    out.update({k: base_arr(b, (nf,) + s(ns, nd)) for k, (b, s) in FWIDE.items()})
    return out


def run():
    ck = Check('C17', 'The position set-up and the simulation script are interpreted together with a symbolic backup archive '
               'in the output folder; the first state handed to the solver must be the last archived one with its own frame '
               'number, the remaining frames must follow, and the final archive must extend the loaded history without gap '
               'or repetition; backups of other runs must be left alone.')
    for c in CASES:
        resumed(ck, c)
    names(ck)
    return ck.finish(minimum=100)


def resumed(ck, case):
    ns, nd, scheme, frames, ep, ef, after, at = case
    take = [f for f in sampled(frames, ep, after) if f <= at]
    takef = [f for f in sampled(frames, ef, after) if f <= at]
    done = at == frames - 1 and take[-1] == at
    m = len(take) + (1 if done else 0)
    back = 'output/2601010101-s1-i1-%dfr-t0p5-M1-setup-load_TEMP.npz' % frames
    r = Run(ns, nd, frames, dict(timestepping_scheme=scheme, timestep=HALF, save_positions_every_n_timesteps=P(ep),
                                 save_forces_every_n_timesteps=P(ef), start_saving_after_first_n_timesteps=P(after)),
            backups=[back], archive=archive(ns, nd, m, len(takef)))
    it = ck.interp(r.it)
    per = 4 if scheme == 'rk4' else 1
    tag = '%d spheres, %d dumbbells, %s, %d frames, positions/%d, forces/%d, after %d, backup at %d' % (
        ns, nd, scheme, frames, ep, ef, after, at)
    start = it.unpack(r.p.get('posdata'), 6)
    w = 'setups/positions.py'
    R = frames if done else take[-1]
    if start is None:
        ck.unsure(tag, 'restart state not resolved')
        return
    shaped(ck, it, tag + ': restart', start, w)
    for p in range(ns):
        for k in range(3):
            ck.same('%s: restart position %d[%d]' % (tag, p, k), cell(it, start[1], p, k), elem('hC', (m - 1, p, k)),
                    None, None, w)
            for j in range(2):
                ck.same('%s: restart orientation %d.%d[%d]' % (tag, p, j, k), cell(it, start[2], p, j, k),
                        elem('hR', (m - 1, p, j, k)), None, None, w)
        ck.same('%s: restart radius %d' % (tag, p), cell(it, start[0], p), elem('sa', (p,)), None, None, w)
    for p in range(nd):
        for k in range(3):
            ck.same('%s: restart dumbbell %d[%d]' % (tag, p, k), cell(it, start[4], p, k),
                    elem('hC', (m - 1, ns + p, k)), None, None, w)
            ck.same('%s: restart extension %d[%d]' % (tag, p, k), cell(it, start[5], p, k), elem('hD', (m - 1, p, k)),
                    None, None, w)
        ck.same('%s: restart bead radius %d' % (tag, p), cell(it, start[3], p), elem('da', (p,)), None, None, w)
    got = [r.states[per * k][0] for k in range(len(r.states) // per)]
    want = [P(f) for f in range(R, frames)]
    if got != want and all(isinstance(x, Poly) for x in got):
        ck.fail(tag + ': frames computed', 'frames %s instead of %s' % ([pl.show(x) for x in got], list(range(R, frames))), w)
        return
    if got != want:
        ck.unsure(tag + ': frames computed', 'frame numbers not resolved')
        return
    ck.ok(tag + ': frames computed')
    saves = r.saves()
    if not saves:
        ck.fail(tag + ': archive written', 'no archive is written', MOD)
        return
    path, data, g, w = saves[-1]
    if path == back[:-len('_TEMP.npz')]:
        ck.ok(tag + ': archive name')
    elif isinstance(path, (OpaqueV, vl.SymStr)):
        ck.unsure(tag + ': archive name', 'not resolved')
    else:
        ck.fail(tag + ': archive name', 'continued run is saved as %r' % (path,), w)
    states = {R + k: it.unpack(r.states[per * k][1], 6) for k in range(len(got))}
    later = [f for f in sampled(frames, ep, after) if f > R]
    snaps = [states[f] for f in later]
    if later and later[-1] == frames - 1 or not done and take[-1] == frames - 1:
        snaps.append(r.ends[-1])
    for name, (base, sh) in WIDE.items():
        arr = it.unbox(data.get(name))
        if not isinstance(arr, Arr):
            ck.unsure('%s: %s' % (tag, name), 'not resolved')
            continue
        n = arr.shape[0].as_int()
        ends = frames - 1 in sampled(frames, ep, after)
        if n is not None and n not in ((m + len(snaps),) if ends else (m + len(snaps), m + len(snaps) + 1)):
            ck.fail('%s: %s entries' % (tag, name), '%d entries instead of %d' % (n, m + len(snaps)), w)
            continue
        ck.ok('%s: %s entries' % (tag, name))
        for j in range(m + len(snaps)):
            for ix, got_ in entry(it, arr, j, sh(ns, nd)):
                if j < m:
                    v = elem(base, (j,) + ix)
                else:
                    s = snaps[j - m]
                    if name == 'centres':
                        v = cell(it, s[1], *ix) if ix[0] < ns else cell(it, s[4], ix[0] - ns, *ix[1:])
                    else:
                        v = cell(it, s[NAMES[name]], *ix)
                ck.same('%s: %s entry %d %s' % (tag, name, j, ix), got_, v, None, None, w)
    # forces recorded after the restart frame belong to frames computed again
    before = [f for f in takef if f <= R]
    laterf = [f for f in sampled(frames, ef, after) if f > R] if not done else []
    mf = len(before)
    takef = before
    for name, (base, sh) in FWIDE.items():
        arr = it.unbox(data.get(name))
        if not isinstance(arr, Arr):
            ck.unsure('%s: %s' % (tag, name), 'not resolved')
            continue
        n = arr.shape[0].as_int()
        if n is not None and n != mf + len(laterf):
            ck.fail('%s: %s entries' % (tag, name), '%d entries instead of %d' % (n, mf + len(laterf)), w)
            continue
        ck.ok('%s: %s entries' % (tag, name))
        if name.startswith('force'):
            continue
        for j in range(mf + len(laterf)):
            for ix, got_ in entry(it, arr, j, sh(ns, nd)):
                f = (takef + laterf)[j]
                # the forces of the restart frame itself are computed anew and may replace the archived ones
                if j < mf and not (f >= R and isinstance(got_, Poly) and pl.is_zero(got_ - fresh(name, f - R, ix, per))):
                    v = elem(base, (j,) + ix)
                else:
                    v = fresh(name, f - R, ix, per)
                ck.same('%s: %s entry %d %s' % (tag, name, j, ix), got_, v, None, None, w)
    for p, g, w2 in r.removals():
        if isinstance(p, str) and p != back:
            ck.fail(tag + ': file deleted', 'deletes %r' % p, w2)
        else:
            ck.ok(tag + ': file deleted')


def fresh(name, k, ix, per):
    if per == 1:
        return elem('%s%d' % (name, k + 1), ix)
    return pl.addn([F(c, 6) * elem('%s%d' % (name, 4 * k + q + 1), ix) for q, c in enumerate((1, 2, 2, 1))])


def names(ck):
    """The backup a run writes is recognised by the same run and by no other."""
    w = 'setups/positions.py'
    for step, text in ((F(1, 2), '0.5'), (F(1, 10), '0.1'), (F(2), '2.0'), (F(1, 100000), '1e-05')):
        st = dict(timestep=P(step), save_forces_and_positions_to_temp_file_as_well=True,
                  save_to_temp_file_every_n_timesteps=P(2), setup_number=P(12), input_number=P(3))
        hooks = {'extern:str': lambda it, a, k, e: text if isinstance(a[0], Poly) and a[0] == P(step) else NotImplemented}
        r = Run(1, 1, 5, st, hooks=hooks)
        ck.interp(r.it)
        back = [p for p, d, g, w_ in r.saves()[:-1]]
        if not back or not all(isinstance(p, str) for p in back):
            ck.unsure('backup name, step %s' % text, 'name not resolved: %r' % (back,))
            continue
        name = back[-1] + '.npz'
        for label, change in (('the same run', {}), ('another set-up', {'setup_number': P(2)}),
                              ('another input', {'input_number': P(33)}), ('another step', {'timestep': P(F(1, 4))}),
                              ('another length', {'num_frames': P(50)}), ('a shorter run', {'num_frames': P(4)}),
                              ('a set-up with one digit', {'setup_number': P(1)})):
            s2 = dict(st, **change)
            q = positions_only(ck, s2, [name])
            tag = 'backup of step %s offered to %s' % (text, label)
            got = q.get('checkpoint_filename')
            if isinstance(got, str) and got == ('' if change else name):
                ck.ok(tag)
            elif isinstance(got, str):
                ck.fail(tag, 'the backup %r is %s' % (name, 'ignored' if not change else 'taken over'), w)
            else:
                ck.unsure(tag, 'not resolved: %r' % (got,))


def positions_only(ck, st, backups):
    st = dict(SETTINGS, num_frames=P(5), save_positions_every_n_timesteps=P(1), **{k: v for k, v in st.items()
                                                                                 if k not in ('num_frames',)}) | \
        ({'num_frames': st['num_frames']} if 'num_frames' in st else {})
    ar = archive(1, 1, 3, 3)

    def load(it, a, k, e):
        r = Ref('dict')
        it.st.heap[r.id] = {n: it.box(v) for n, v in ar.items()}
        return r
    pos = (base_arr('sa', (1,), pos=True), base_arr('sx', (1, 3)), base_arr('srot', (1, 2, 3)),
           base_arr('da', (1,), pos=True), base_arr('dx', (1, 3)), base_arr('dd', (1, 3)))
    it = ck.interp(Interp(ROOTS, facts=Facts([]), overrides={'settings.' + k: v for k, v in st.items()}, hooks={
        'pos_setup': lambda it, b, e: (it.box(pos), 'setup'), 'extern:numpy.load': load,
        'extern:glob.glob': lambda it, a, k, e: it.box(ListC.of(list(backups)))}))
    return it.run_module('setups.positions')

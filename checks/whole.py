"""The whole simulation script interpreted with the solver as a named oracle per call."""
from .frame import *


class Run(Frame):
    """num_frames concrete; particle data, step and solver results symbolic."""

    def __init__(self, ns, nd, frames, settings=(), start=0, loaded=None, hooks=(), inputs=None, globs=(), form=None,
                 backups=None, archive=None):
        self.ns, self.nd, self.periodic, self.start = ns, nd, False, start
        self.calls, self.states, self.inputs_seen = [], [], []
        st = dict(SETTINGS, num_frames=P(frames), timestep=dt, save_positions_every_n_timesteps=P(1),
                  save_forces_every_n_timesteps=P(1), input_form=form or ('fte' if ns else 'fts'))
        st.update(settings)
        self.settings = st
        ov = {'settings.' + k: v for k, v in st.items()}
        hk = {'generate_output_FTSUOE': self.solver, 'input_ftsuoe': inputs or self.flows,
              'extern:time.strftime': lambda it, a, k, e: 'STAMP', 'extern:os.path.exists': lambda it, a, k, e: True,
              'extern:numpy.load': self.load}
        hk.update(hooks)
        it = self.it = Interp(ROOTS, facts=Facts([]), hooks=hk, overrides=ov)
        it.bind_norms = 60
        n, d = ns, nd
        self.pos = (base_arr('sa', (n,), pos=True), base_arr('sx', (n, 3)), base_arr('srot', (n, 2, 3)),
                    base_arr('da', (d,), pos=True), base_arr('dx', (d, 3)), base_arr('dd', (d, 3)))
        self.loaded = loaded
        ov.update({'setups.positions.posdata': it.box(self.pos), 'setups.positions.setup_description': 'setup',
                   'setups.positions.checkpoint_filename': '' if loaded is None else 'output/OLD_TEMP.npz',
                   'setups.positions.checkpoint_start_from_frame': P(start),
                   'resistance_scalars.data.lam_range_with_reciprocals': it.box(base_arr('lam', (2,))),
                   'resistance_scalars.data.s_dash_range': it.box(base_arr('sdash', (2,))),
                   'sys.argv': it.box(ListC.of(['run_simulation.py', '1', '1', '0.5', str(frames)]))})
        self.prepare(it, ov)
        self.ends = []
        self.backups, self.archive, self.opened = backups, archive, []
        if backups is not None:
            for k in ('posdata', 'setup_description', 'checkpoint_filename', 'checkpoint_start_from_frame'):
                del ov['setups.positions.' + k]
            it.hooks['pos_setup'] = lambda it, b, e: (it.box(self.pos), 'setup')
            it.hooks['extern:glob.glob'] = lambda it, a, k, e: it.box(ListC.of(list(backups)))
            self.p = it.run_module('setups.positions')
        it.cuts = {(MOD, 'posdata'): self.cut}
        self.g = it.run_module(MOD, dict(globs))

    def prepare(self, it, ov):
        pass

    def cut(self, it, v):
        """Each step starts from an arbitrary state: what the previous one left is remembered and renamed."""
        r = it.unpack(v, 6)
        if r is None:
            return v
        self.ends.append(tuple(it.deep(x) for x in r))
        k = len(self.ends)
        n, d = self.ns, self.nd
        names = (('sx%d' % k, (n, 3)), ('srot%d' % k, (n, 2, 3)), ('dx%d' % k, (d, 3)), ('dd%d' % k, (d, 3)))
        x, rot, dx, dd = [it.box(base_arr(*q)) for q in names]
        return (r[0], x, rot, r[3], dx, dd)

    def solver(self, it, bound, node):
        b = list(bound.values())
        self.states.append((it.deep(bound.get('frameno', b[1])), it.deep(bound.get('posdata', b[0]))))
        return Frame.solver(self, it, bound, node)

    def flows(self, it, bound, node):
        z = lambda *sh: it.box(Arr(tuple(P(x) for x in sh), lambda i: ZERO))
        return tuple([it.opq('input') for _ in range(12)]) + ('load', z(3), z(3), z(3), z(3), z(3, 3), z(3), z(3), ONE)

    def load(self, it, args, kw, e):
        if self.archive is None:
            return NotImplemented
        self.opened.append(args[0])
        r = Ref('dict')
        it.st.heap[r.id] = {k: it.box(v) for k, v in self.archive.items()}
        return r

    def saves(self):
        """(path, {name: array}, guard, where) of every archive written."""
        out = []
        for kind, guard, args, where, facts in self.it.events:
            if kind == 'save':
                out.append((args[0], args[1] if len(args) > 1 else {}, guard, where))
        return out

    def removals(self):
        return [(a[0], g, w) for k, g, a, w, f in self.it.events if k == 'remove']

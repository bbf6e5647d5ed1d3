"""One timestep of the simulation with the solver as a named oracle per stage."""
from .solve import *

MOD = 'run_simulation'
dt = sym('dt', pos=True)
SOLVER_OUT = ('Fa', 'Ta', 'Sa', 'Fb', 'DFb', 'Ua', 'Oa', 'Ea', 'Ub', 'Hb')
SETTINGS = dict(num_frames=P(10), view_graphics=False, printout=P(0), view_labels=False, trace_paths=P(0),
                two_d_plot=True, email_on_completion=False, save_positions_every_n_timesteps=P(0),
                save_forces_every_n_timesteps=P(0), save_forces_and_positions_to_temp_file_as_well=False,
                save_to_temp_file_every_n_timesteps=P(120), use_drag_Minfinity=False, use_Minfinity_only=False,
                input_form='fte', invert_m_every=P(1), explosion_protection=False, input_number=P(1), setup_number=P(1),
                extract_force_on_wall_due_to_dumbbells=False, feed_every_n_timesteps=P(0), feed_from_file='',
                timestepping_scheme='euler', bead_bead_interactions=True, fully_2d_problem=False,
                start_saving_after_first_n_timesteps=P(0), rk4_generate_minfinity_for_each_stage=True,
                cutoff_factor=sym('cf', pos=True))
SAVED = ('saved_element_positions', 'saved_deltax', 'saved_Fa_out', 'saved_Fb_out', 'saved_DFb_out', 'saved_Sa_out',
         'saved_force_on_wall_due_to_dumbbells', 'saved_sphere_rotations')


class Frame:
    def __init__(self, ns, nd, scheme='euler', frameno=0, start=0, periodic=False, hooks=(), settings=(), globs=(),
                 bind=None):
        self.ns, self.nd, self.periodic = ns, nd, periodic
        self.calls = []
        st = dict(SETTINGS, timestepping_scheme=scheme)
        st.update(settings)
        self.settings = st
        hk = {'generate_output_FTSUOE': self.solver}
        hk.update(hooks)
        it = self.it = Interp(ROOTS, facts=Facts([]), hooks=hk, overrides={'settings.' + k: v for k, v in st.items()})
        it.bind_norms = 60
        it.bind_products = bind
        f = self.f = find(it, 'generate_frame', [MOD])
        n, d = ns, nd
        self.pos = (base_arr('sa', (n,), pos=True), base_arr('sx', (n, 3)), base_arr('srot', (n, 2, 3)),
                    base_arr('da', (d,), pos=True), base_arr('dx', (d, 3)), base_arr('dd', (d, 3)))
        bx = lambda nm, *sh: it.box(base_arr(nm, sh))
        box0 = it.box(Arr((P(3),), lambda i: ZERO))
        box1 = bx('boxL', 3) if periodic else it.box(Arr((P(3),), lambda i: ZERO))
        if periodic:
            pl.POS_ARRAYS.add('boxL')
        side = 11 * n + 6 * d
        g = {'posdata': it.box(self.pos), 'checkpoint_start_from_frame': P(start), 'checkpoint_filename': '',
             'error': False, 'last_velocities': it.box(ListC.of([bx('lvU', n, 3), bx('lvB', d, 3), bx('lvH', d, 3),
                                                                 bx('lvO', n, 3)])),
             'last_velocity_vector': bx('lvv', side), 'last_generated_Minfinity_inverse': bx('oldM', side, side),
             'previous_step_posdata': it.box(self.pos), 'setup_description': '', 'input_description': '',
             'times': it.box(ListC.of([ZERO] * 40))}
        shapes = {'saved_element_positions': (n + d, 3), 'saved_deltax': (d, 3), 'saved_Fa_out': (n, 3),
                  'saved_Fb_out': (d, 3), 'saved_DFb_out': (d, 3), 'saved_Sa_out': (n, 3, 3),
                  'saved_force_on_wall_due_to_dumbbells': (), 'saved_sphere_rotations': (n, 2, 3)}
        self.shapes = shapes
        for k in SAVED:
            g[k] = it.box(base_arr(k, (P(5),) + shapes[k]))
        g.update(st)
        for k, v in dict(globs).items():
            g[k] = v
        it.st.globs[MOD] = g
        args = {'frameno': P(frameno), 'grand_mobility_matrix': ZERO, 'view_graphics': False, 'cutoff_factor': st['cutoff_factor'],
                'printout': st['printout'], 'view_labels': False, 'timestep': dt, 'trace_paths': ZERO,
                'input_form': st['input_form'], 'filename': 'FILE', 'output_folder': 'OUT', 'legion_random_id': '',
                'box_bottom_left': box0, 'box_top_right': box1}
        names = set(x.arg for x in f.node.args.args)
        it.call_func(f, [], {k: v for k, v in args.items() if k in names})
        self.g = it.st.globs[MOD]

    def solver(self, it, bound, node):
        self.calls.append((bound, {k: it.deep(v) for k, v in bound.items()}, it.where(node)))
        k = len(self.calls)
        n, d = self.ns, self.nd
        sh = {'Fa': (n, 3), 'Ta': (n, 3), 'Sa': (n, 3, 3), 'Fb': (d, 3), 'DFb': (d, 3), 'Ua': (n, 3), 'Oa': (n, 3),
              'Ea': (n if n else 1, 3, 3), 'Ub': (d, 3), 'Hb': (d, 3)}
        side = 11 * n + 6 * d
        out = [it.box(base_arr('%s%d' % (o, k), sh[o])) for o in SOLVER_OUT]
        out += [it.box(base_arr('Minv%d' % k, (side, side))), lst(it, [ZERO] * 4)]
        out += [it.box(base_arr('%s%d' % (o, k), (3,))) for o in ('Ui', 'Oi', 'cf', 'Ot')]
        out += [it.box(base_arr('Et%d' % k, (3, 3))), sym('wall%d' % k), it.box(base_arr('vv%d' % k, (side,)))]
        return tuple(out)

    def glob(self, name):
        return self.it.unbox(self.g[name])


# -- specified kinematics -------------------------------------------------------
def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def V(name, *idx):
    return [elem(name, tuple(P(i) for i in idx) + (P(k),)) for k in range(3)]


def mv(name, idx, x):
    return [pl.addn([elem(name, tuple(P(i) for i in idx) + (P(a), P(b))) * x[b] for b in range(3)]) for a in range(3)]


def add(*vs):
    return [pl.addn([v[k] for v in vs]) for k in range(3)]


def sc(c, v):
    return [c * x for x in v]


def flow(k, e, x):
    """Background velocity of stage k at x, strain rate number e."""
    r = add(x, sc(-1, V('cf%d' % k)))
    return add(V('Ui%d' % k), cross(V('Oi%d' % k), r), mv('Ea%d' % k, (e,), r))


def sphere_velocity(k, p, x):
    return add(V('Ua%d' % k, p), flow(k, p, x))


def spin(k, p):
    return add(V('Oa%d' % k, p), V('Oi%d' % k))


def dumbbell_velocity(k, p, x):
    return add(V('Ub%d' % k, p), flow(k, 0, x))


def stretch(k, p, d):
    """Rate of change of the bead-to-bead vector."""
    return add(sc(2, V('Hb%d' % k, p)), cross(V('Oi%d' % k), d), mv('Ea%d' % k, (0,), d))


def flat(v):
    """Drop the out-of-plane component of a velocity."""
    return [v[0], ZERO, v[2]]


def scheme_velocities(scheme, first, ns, nd, twod=False):
    """Per particle: effective velocity, spin, dumbbell velocity, stretch; and the stage inputs."""
    F = lambda n, d: P(n) / P(d)
    U, O, B, H = [], [], [], []
    stages = []
    f2 = flat if twod else (lambda v: v)
    if scheme in ('euler', 'ab2'):
        for p in range(ns):
            u, o = f2(sphere_velocity(1, p, V('sx', p))), spin(1, p)
            if scheme == 'ab2' and not first:
                u = add(sc(F(3, 2), u), sc(F(-1, 2), V('lvU', p)))
                o = add(sc(F(3, 2), o), sc(F(-1, 2), V('lvO', p)))
            U.append(u)
            O.append(o)
        for p in range(nd):
            u, h = dumbbell_velocity(1, p, V('dx', p)), stretch(1, p, V('dd', p))
            if scheme == 'ab2' and not first:
                u = add(sc(F(3, 2), u), sc(F(-1, 2), V('lvB', p)))
                h = add(sc(F(3, 2), h), sc(-1, V('lvH', p)))
            B.append(u)
            H.append(h)
        stages.append(([V('sx', p) for p in range(ns)], [V('dx', p) for p in range(nd)], [V('dd', p) for p in range(nd)]))
        return U, O, B, H, stages
    w = [F(1, 6), F(1, 3), F(1, 3), F(1, 6)]
    X, D, L = [V('sx', p) for p in range(ns)], [V('dx', p) for p in range(nd)], [V('dd', p) for p in range(nd)]
    acc = None
    for k in (1, 2, 3, 4):
        stages.append((X, D, L))
        u = [sphere_velocity(k, p, X[p]) for p in range(ns)]
        o = [spin(k, p) for p in range(ns)]
        b = [dumbbell_velocity(k, p, D[p]) for p in range(nd)]
        h = [stretch(k, p, L[p]) for p in range(nd)]
        acc = [[sc(w[k - 1], v) for v in part] if acc is None else [add(a, sc(w[k - 1], v)) for a, v in zip(acc[i], part)]
               for i, part in enumerate((u, o, b, h))]
        if k < 4:
            s = dt / 2 if k < 3 else dt
            X = [add(V('sx', p), sc(s, u[p])) for p in range(ns)]
            D = [add(V('dx', p), sc(s, b[p])) for p in range(nd)]
            L = [add(V('dd', p), sc(s, h[p])) for p in range(nd)]
    U, O, B, H = acc
    return [f2(v) for v in U], O, B, H, stages

"""Symbolic mobility problems for the solver: inputs, resistance and the law they obey."""
from .common import *

FORMS = ('fts', 'fte', 'ufte', 'ufteu', 'duf')
RES = 'Rg'


def lst(it, x):
    """Nested Python lists -> program lists."""
    if isinstance(x, list):
        return it.box(ListC.of([lst(it, y) for y in x]))
    return x


class Problem:
    """ns spheres, nd dumbbells, first nf spheres / nfd dumbbells with prescribed velocity."""

    def __init__(self, form, ns, nd, nf=0, nfd=0, periodic=False):
        self.form, self.ns, self.nd, self.nf, self.nfd = form, ns, nd, nf, nfd
        self.periodic = periodic
        self.side = 11 * ns + 6 * nd
        v = lambda t, n, free=None: [[sym('%s%d_%d' % (t, p, k)) if free is None or free(p) else 'pippa'
                                      for k in range(3)] for p in range(n)]

        def m(t, n):
            out = []
            for p in range(n):
                e = {}
                for i in range(3):
                    for j in range(i, 3):
                        e[i, j] = sym('%s%d_%d%d' % (t, p, i, j))
                e[2, 2] = -e[0, 0] - e[1, 1]
                out.append([[e[min(i, j), max(i, j)] for j in range(3)] for i in range(3)])
            return out
        none = lambda p: False
        fixed = lambda p: p < nf
        freed = lambda p: p >= nf
        dfix = lambda p: p < nfd
        dfree = lambda p: p >= nfd
        allp = lambda p: True
        pre = form in ('ufte', 'ufteu')
        pred = form in ('ufteu', 'duf')
        self.F = v('F', ns, freed if pre else allp)
        self.T = v('T', ns)
        self.S = m('S', ns) if form == 'fts' else [[['pippa'] * 3 for _ in range(3)] for _ in range(ns)]
        self.E = m('E', max(ns, 1)) if form != 'fts' or not ns else [[['pippa'] * 3 for _ in range(3)] for _ in range(ns)]
        self.U = v('U', ns, fixed if pre else none)
        self.O = v('O', ns, none)
        self.B = v('B', nd, dfree if pred else allp)
        self.DB = v('DB', nd, dfree if pred else allp)
        self.UB = v('UB', nd, dfix if pred else none)
        self.HU = v('HU', nd, dfix if pred else none)
        self.c5 = lambda n: [['pippa'] * 5 for _ in range(n)]
        self.calls = []
        self.inputs = []

    # ------------------------------------------------------------------
    def hooks(self):
        return {'input_ftsuoe': self.input_hook, 'generate_grand_resistance_matrix': self.res_hook('open'),
                'generate_grand_resistance_matrix_periodic': self.res_hook('periodic')}

    def input_hook(self, it, bound, node):
        self.inputs.append(bound)
        z = lambda n: it.box(base_arr(n, (3,)))
        bl = Arr((P(3),), lambda i: ZERO)
        tr = base_arr('boxL', (3,), pos=True) if self.periodic else Arr((P(3),), lambda i: ZERO)
        return (lst(it, self.F), lst(it, self.T), lst(it, self.S), lst(it, self.c5(self.ns)), lst(it, self.B),
                lst(it, self.DB), lst(it, self.U), lst(it, self.O), lst(it, self.E), lst(it, self.c5(self.ns)),
                lst(it, self.UB), lst(it, self.HU), 'problem', z('Uinf'), z('Oinf'), z('cflow'), z('Otinf'),
                it.box(base_arr('Etinf', (3, 3))), it.box(bl), it.box(tr), mu)

    def res_hook(self, kind):
        def hook(it, bound, node):
            self.calls.append((kind, bound, it.where(node)))
            R = base_arr(RES, (self.side, self.side))
            return (it.box(R), 'R', it.box(base_arr('Minv', (self.side, self.side))), lst(it, [ZERO, ZERO, ZERO]))
        return hook

    def posdata(self, it):
        n, d = self.ns, self.nd
        return it.box((base_arr('sa', (n,), pos=True), base_arr('sx', (n, 3)), base_arr('srot', (n, 2, 3)),
                       base_arr('da', (d,), pos=True), base_arr('dx', (d, 3)), base_arr('dd', (d, 3))))

    def sampler(self):
        made = {}

        def make(seed):
            if seed in made:
                return made[seed]

            def el(name, idx):
                if name == RES:
                    i, j = sorted(idx)
                    return (rnd('R', i, j, seed) - 0.5) / 4 + (2.0 + rnd('Rd', i, seed) if i == j else 0.0)
                return None
            made[seed] = Val(elem=el, seed=seed)
            return made[seed]
        return make


def unset(ck, it, tag):
    """Variables that are read for certain without ever having been set."""
    for n, w, g in it.unbound_reads:
        if it.facts.decide(g) is True:
            ck.fail('%s: %s available' % (tag, n), 'variable %s is read without ever having been set' % n, w)


def shaped(ck, it, tag, posdata, w):
    """Particle data whose arrays have another rank than the particle data they stand for."""
    for name, rank, v in zip(('radii', 'positions', 'orientations', 'bead radii', 'dumbbells', 'extensions'),
                             (1, 2, 3, 1, 2, 2), posdata):
        v = it.unbox(v)
        if isinstance(v, Arr) and v.ndim != rank and not (v.ndim and v.shape[0] == ZERO):
            ck.fail('%s: %s' % (tag, name), 'an array of rank %d is used as %s' % (v.ndim, name), w)


def cell(it, v, *idx):
    """Element of a list-of-lists or array value."""
    v = it.unbox(v)
    if isinstance(v, Arr):
        if len(idx) != v.ndim:
            return OpaqueV('rank %d value indexed with %d indices' % (v.ndim, len(idx)))
        return v.get(tuple(P(i) for i in idx))
    for k in range(len(idx)):
        v = it.unbox(v)
        if isinstance(v, Arr):
            return cell(it, v, *idx[k:])
        if isinstance(v, ListC):
            c = v.concrete()
            if c is None or not 0 <= idx[k] < len(c):
                return OpaqueV('element of an unresolved list')
            v = c[idx[k]]
        elif isinstance(v, tuple):
            v = v[idx[k]]
        else:
            return v if isinstance(v, OpaqueV) else OpaqueV('indexing %s' % type(v).__name__)
    return it.unbox(v)


def condensed(get):
    """Five components of a symmetric traceless tensor given by get(i, j)."""
    out = []
    for B in BASIS:
        t = ZERO
        for i in range(3):
            for j in range(3):
                x = get(i, j)
                if not isinstance(x, Poly):
                    return [x] * 5
                t = t + B[i][j] * x
        out.append(t)
    return out

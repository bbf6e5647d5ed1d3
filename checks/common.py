"""Shared set-up for the checks: program roots, symbolic inputs, reference tensors."""
import os
import sys
from fractions import Fraction as F
from sa import poly as pl
from sa import values as vl
from sa.poly import (Poly, Cond, P, ZERO, ONE, TRUE, FALSE, c_and, c_not, c_or, cmp_ge, cmp_gt, cmp_eq,
                     ite, sym, elem)
from sa.facts import Facts
from sa.interp import Interp, AnalysisError, Func
from sa.values import Arr, Ref, ListC, base_arr, const_arr, Domain, OpaqueV
from sa.numeval import Val, Unknown, _h as rnd
from sa.report import Check, REPO
from sa.npmodel import PI, num

ROOTS = [os.path.join(REPO, 'stokesian_dynamics'), os.path.join(REPO, 'find_resistance_scalars')]

Ns, Nd = sym('Ns', isint=True), sym('Nd', isint=True)
mu = sym('mu', pos=True)
X, Y, Z = 0, 1, 2


def python_files():
    out = []
    for r in ROOTS:
        for d, _, fs in os.walk(r):
            for f in sorted(fs):
                if f.endswith('.py'):
                    out.append(os.path.join(d, f))
    return out


def modname(path):
    for r in ROOTS:
        if path.startswith(r + os.sep):
            return os.path.relpath(path, r)[:-3].replace(os.sep, '.')
    return None


def find(interp, name, prefer=()):
    """A program function by name, wherever it is defined."""
    for m in prefer:
        try:
            return interp.func(m, name)
        except AnalysisError:
            pass
    for p in python_files():
        m = modname(p)
        try:
            mod = interp.module(m)
        except SyntaxError:
            continue
        import ast
        if mod is not None and isinstance(mod.defs.get(name), ast.FunctionDef):
            return interp.func(m, name)
    raise AnalysisError('function %s not found' % name)


def site(f):
    return '%s:%d (%s)' % (os.path.relpath(f.mod.path, REPO), f.node.lineno, f.name)


def posdata(interp, spheres=True, dumbbells=True):
    """Symbolic particle data: sizes positive, positions arbitrary."""
    s = (base_arr('sa', (Ns if spheres else 0,), pos=True), base_arr('sx', (Ns if spheres else 0, 3)),
         base_arr('srot', (Ns if spheres else 0, 2, 3)))
    d = (base_arr('da', (Nd if dumbbells else 0,), pos=True), base_arr('dx', (Nd if dumbbells else 0, 3)),
         base_arr('dd', (Nd if dumbbells else 0, 3)))
    return interp.box(s + d)


def base_facts(spheres=True, dumbbells=True, n=1):
    c = []
    if spheres:
        c.append(cmp_ge(Ns - n))
    if dumbbells:
        c.append(cmp_ge(Nd - n))
    return Facts(c)


# ---------------------------------------------------------------------------
# reference tensors written from the physics: functions of a displacement R
# (three Polys) with distance s

class Tensor:
    """Derivatives of polynomials in R0, R1, R2, S with dS/dRk = Rk/S."""
    R = [sym('@R0'), sym('@R1'), sym('@R2')]
    S = sym('@S', pos=True)


def _dR(p, k):
    """Derivative along component k."""
    r, s = pl.atom_of(Tensor.R[k]).id, pl.atom_of(Tensor.S).id
    out = []
    for m, c in p.t.items():
        for n, (a, e) in enumerate(m):
            if a not in (r, s):
                continue
            rest = m[:n] + m[n + 1:]
            base = Poly({rest: c * F(e)})
            x = pl.power(pl.from_atom(pl.atom_by_id(a)), F(e) - 1)
            t = base * x
            if a == s:
                t = t * Tensor.R[k] / Tensor.S
            out.append(t)
    return pl.addn(out)


_DC = {}


def D(p, k):
    r = _DC.get((p, k))
    if r is None:
        r = _dR(p, k)
        # keep the identity R.R = S^2 in one direction
        r = reduceS(r)
        _DC[(p, k)] = r
    return r


def reduceS(p):
    """Replace R2**2 by S**2 - R0**2 - R1**2."""
    a = pl.atom_of(Tensor.R[2]).id
    for _ in range(10):
        hit = False
        out = []
        for m, c in p.t.items():
            d = dict(m)
            e = d.get(a, 0)
            if e >= 2:
                hit = True
                d[a] = e - 2
                if d[a] == 0:
                    del d[a]
                base = Poly({tuple(sorted(d.items())): c})
                out.append(base * (Tensor.S ** 2 - Tensor.R[0] ** 2 - Tensor.R[1] ** 2))
            else:
                out.append(Poly({m: c}))
        p = pl.addn(out)
        if not hit:
            return p
    return p


def lap(p):
    return reduceS(pl.addn([D(D(p, k), k) for k in range(3)]))


def eps(i, j, k):
    return (i - j) * (j - k) * (k - i) // 2 * 1 if len({i, j, k}) == 3 else 0


def delta(i, j):
    return ONE if i == j else ZERO


def at(p, R, s=None):
    """Evaluate a reference tensor component at displacement R (Polys)."""
    if s is None:
        s = pl.power(R[0] * R[0] + R[1] * R[1] + R[2] * R[2], F(1, 2))
    return pl.subst(p, {Tensor.R[0]: R[0], Tensor.R[1]: R[1], Tensor.R[2]: R[2], Tensor.S: s})


def oseen(i, j):
    return delta(i, j) / Tensor.S + Tensor.R[i] * Tensor.R[j] / Tensor.S ** 3


_sq3 = pl.const_power(F(3), F(1, 2))
_sq2 = pl.const_power(F(2), F(1, 2))


def stress_basis():
    """Orthonormal basis of symmetric traceless tensors matching the condensed
    ordering (xx, xy, yy, xz, yz)."""
    t = -1 / _sq3
    p, q = (_sq3 + 1) / 2 + t, (_sq3 - 1) / 2 + t
    z = ZERO
    h = 1 / _sq2
    return [
        [[p, z, z], [z, q, z], [z, z, t]],
        [[z, h, z], [h, z, z], [z, z, z]],
        [[q, z, z], [z, p, z], [z, z, t]],
        [[z, z, h], [z, z, z], [h, z, z]],
        [[z, z, z], [z, z, h], [z, h, z]],
    ]


BASIS = stress_basis()
_FF = {}


def far_field(a1, a2, c):
    """Mobility of a pair, as tensors of r = x1 - x2.  Keys: ('UF',i,j) velocity of
    1 from force on 2; ('UT',i,j); ('US',i,a) with condensed stresslet; ('OF'..),
    ('OT'..), ('OS'..), ('EF',a,j), ('ET',a,j), ('ES',a,b)."""
    key = (a1, a2, c)
    if key in _FF:
        return _FF[key]
    R, S = Tensor.R, Tensor.S
    out = {}
    J = [[oseen(i, j) for j in range(3)] for i in range(3)]
    rot = [[pl.addn([P(eps(i, j, k)) * R[k] for k in range(3)]) / S ** 3 for j in range(3)] for i in range(3)]
    K = [[[(D(J[i][j], k) + D(J[i][k], j)) / 2 for k in range(3)] for j in range(3)] for i in range(3)]
    for i in range(3):
        for j in range(3):
            out['UF', i, j] = c * (J[i][j] + (a1 ** 2 + a2 ** 2) / 6 * lap(J[i][j]))
            out['UT', i, j] = c * rot[i][j]
            out['OF', i, j] = c * rot[i][j]
            out['OT', i, j] = c * (3 * R[i] * R[j] / S ** 5 - delta(i, j) / S ** 3) / 2
    # velocity of 1 from a stresslet on 2
    US = {}
    for i in range(3):
        for j in range(3):
            for k in range(3):
                US[i, j, k] = -c * (K[i][j][k] + (a1 ** 2 / 6 + a2 ** 2 / 10) * lap(K[i][j][k]))
    # strain rate at 1 from a force on 2: the symmetrised gradient of its velocity
    EF = {}
    for i in range(3):
        for j in range(3):
            for k in range(3):
                EF[i, j, k] = c * (K[k][i][j] + (a2 ** 2 / 6 + a1 ** 2 / 10) * lap(K[k][i][j]))
    OS, ES = {}, {}
    Kl = {}
    for i in range(3):
        for j in range(3):
            for k in range(3):
                Kl[i, j, k] = K[i][j][k] + a2 ** 2 / 6 * lap(K[i][j][k])
    for i in range(3):
        for j in range(3):
            for k in range(3):
                # half the curl of the stresslet velocity field
                OS[i, j, k] = -c / 2 * pl.addn([P(eps(i, l, m)) * D(Kl[m, j, k], l)
                                                for l in range(3) for m in range(3) if eps(i, l, m)])
    for i in range(3):
        for j in range(i, 3):
            for k in range(3):
                for l in range(k, 3):
                    v = -c / 2 * ((D(K[i][k][l], j) + D(K[j][k][l], i))
                                  + (a1 ** 2 + a2 ** 2) / 10 * (D(lap(K[i][k][l]), j) + D(lap(K[j][k][l]), i)))
                    for (p, q) in {(i, j), (j, i)}:
                        for (m, n) in {(k, l), (l, k)}:
                            ES[p, q, m, n] = v
    ix = [(j, k) for j in range(3) for k in range(3)]
    for a in range(5):
        B = BASIS[a]
        for i in range(3):
            out['US', i, a] = pl.addn([US[i, j, k] * B[j][k] for j, k in ix])
            out['OS', i, a] = pl.addn([OS[i, j, k] * B[j][k] for j, k in ix])
            out['EF', a, i] = pl.addn([EF[j, k, i] * B[j][k] for j, k in ix])
        for b in range(5):
            out['ES', a, b] = pl.addn([ES[i, j, k, l] * B[i][j] * BASIS[b][k][l]
                                       for i, j in ix for k, l in ix])
    for key2 in list(out):
        out[key2] = reduceS(out[key2])
    _FF[key] = out
    return out


# grand vector layout ------------------------------------------------------
SPHERE = [('U', 3), ('O', 3), ('E', 5)]


def row(kind, p, i):
    """Row / column index of component i of particle p in the grand vectors."""
    if kind == 'U':
        return 3 * P(p) + i
    if kind == 'O':
        return 3 * Ns + 3 * P(p) + i
    if kind == 'E':
        return 6 * Ns + 5 * P(p) + i
    if kind == 'B':
        return 11 * Ns + 3 * P(p) + i
    if kind == 'H':
        return 11 * Ns + 3 * Nd + 3 * P(p) + i
    raise KeyError(kind)


def width(kind):
    return 5 if kind == 'E' else 3


SIDE = 11 * Ns + 6 * Nd


def elem_leaf(mp):
    """Mapper leaf replacing array elements: {(name, idx...): Poly}."""
    ids = {}
    for k, v in mp.items():
        ids[pl.atom_of(elem(k[0], k[1:])).id] = v
    return lambda a: ids.get(a.id)


def deep_same(ck, it, key, got, want, facts=None, sampler=None, where=None, leaf=None):
    """Obligation on structured values: arrays at generic indices, tuples and lists memberwise."""
    got, want = it.unbox(got), it.unbox(want)
    if isinstance(want, ListC):
        want = want.concrete()
    if isinstance(got, ListC) and got.concrete() is not None:
        got = got.concrete()
    if isinstance(want, (tuple, list)):
        if isinstance(got, (tuple, list)):
            if len(got) != len(want):
                return ck.fail(key, '%d items instead of %d' % (len(got), len(want)), where)
            for k, (g, w) in enumerate(zip(got, want)):
                deep_same(ck, it, '%s[%d]' % (key, k), g, w, facts, sampler, where, leaf)
            return None
        return ck.unsure(key, 'not a sequence: %r' % (got,))
    if isinstance(want, Arr):
        if not isinstance(got, Arr):
            if isinstance(got, (OpaqueV, Poly)):
                return ck.unsure(key, 'not an array: %r' % (got,))
            return ck.fail(key, '%r instead of an array' % (got,), where)
        if got.ndim != want.ndim:
            return ck.fail(key, 'rank %d instead of %d' % (got.ndim, want.ndim), where)
        for a, b in zip(got.shape, want.shape):
            ck.same(key + ' (extent)', a, b, facts, sampler, where, leaf)
        ix = tuple(sym('q%d' % k, isint=True) for k in range(want.ndim))
        f = facts or it.facts
        f = f.extend(*[c for q, n in zip(ix, want.shape) for c in (cmp_ge(q), cmp_gt(n - q))])
        saved = it.facts
        it.facts = f
        try:
            g, w = got.get(ix), want.get(ix)
        finally:
            it.facts = saved
        smp = sampler or (lambda seed: Val(seed=seed))

        def smp2(seed):
            v = smp(seed)
            if v is not None:
                v = Val(v.env, v.elemf, v.appf, seed, v.truthf)
                for k, (q, n) in enumerate(zip(ix, want.shape)):
                    hi = v.poly(n)
                    v.env['q%d' % k] = float(int(rnd('q', k, seed) * hi))
            return v
        return ck.same(key, g, w, f, smp2, where, leaf)
    if isinstance(want, (Poly, Cond, int)) and not isinstance(want, bool):
        return ck.same(key, got, want, facts, sampler, where, leaf)
    if isinstance(got, OpaqueV):
        return ck.unsure(key, repr(got))
    if isinstance(got, Cond) and isinstance(want, bool):
        want = TRUE if want else FALSE
    if got == want and type(got) == type(want):
        return ck.ok(key, 'same value')
    return ck.fail(key, '%r instead of %r' % (got, want), where)


def find_opt(interp, name, prefer=()):
    try:
        return find(interp, name, prefer)
    except AnalysisError:
        return None


def tensors(tag, n):
    """n symbolic symmetric traceless 3x3 tensors as nested lists."""
    out = []
    for p in range(n):
        e = {}
        for i in range(3):
            for j in range(i, 3):
                e[i, j] = sym('%s%d_%d%d' % (tag, p, i, j))
        e[2, 2] = -e[0, 0] - e[1, 1]
        out.append([[e[min(i, j), max(i, j)] for j in range(3)] for i in range(3)])
    return out


def vectors(tag, n, w=3):
    return [[sym('%s%d_%d' % (tag, p, k)) for k in range(w)] for p in range(n)]

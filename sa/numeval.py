"""Valuation of terms: identity testing of two algebraic terms at sample points.

Works on the extracted terms only (polynomials over atoms); used to recognise
that two differently written terms denote the same function when their normal
forms do not coincide.
"""
import hashlib
import math
from fractions import Fraction as F
import itertools
from . import poly as pl
from . import values as vl
from .poly import Poly, Cond


class Unknown(Exception):
    pass


class Undefined(Unknown):
    """The term has no value at this point (singular matrix, division by zero)."""


def _h(*key):
    """Deterministic pseudo-random number in (0,1) from a key."""
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return (int.from_bytes(d, 'big') + 0.5) / 2.0 ** 64


def _erfc(x):
    return math.erfc(x)


def _zeta(x, q):
    """Hurwitz zeta by Euler-Maclaurin."""
    n = 12
    s = sum((q + k) ** -x for k in range(n))
    a = q + n
    s += a ** (1 - x) / (x - 1) + a ** -x / 2
    t = x * a ** (-x - 1)
    for j, b in ((2, 1 / 6), (4, -1 / 30), (6, 1 / 42), (8, -1 / 30)):
        s += b / math.factorial(j) * t
        t *= (x + j - 1) * (x + j) / a ** 2
    return s


FUNCS = {
    'zeta': _zeta,
    'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'erfc': math.erfc,
    'abs': abs, 'floor': lambda x: float(math.floor(x + 1e-9)), 'arccos': lambda x: math.acos(max(-1.0, min(1.0, x))),
    'arcsin': lambda x: math.asin(max(-1.0, min(1.0, x))), 'arctan': math.atan, 'arctan2': math.atan2,
    'tanh': math.tanh, 'cosh': math.cosh, 'sinh': math.sinh, 'log10': math.log10,
    'trunc': lambda x: float(math.trunc(x)), 'round': lambda x: float(round(x)),
    'sign': lambda x: float((x > 0) - (x < 0)),
    'pow': lambda a, b: a ** b, 'constpow': lambda a, b: a ** b, 'bigpow': lambda a, b: a ** b,
    'altsign': lambda n: -1.0 if int(round(n)) % 2 else 1.0,
}


class Mat:
    def __init__(self, shape):
        self.shape = tuple(shape)
        self.d = {}

    def __getitem__(self, i):
        return self.d.get(i, 0.0)

    def __setitem__(self, i, v):
        self.d[i] = v


def solve(a, b):
    """Gaussian elimination with partial pivoting."""
    n = a.shape[0]
    if len(a.shape) != 2 or a.shape[1] != n or b.shape[0] != n:
        raise Unknown('shape')
    vec = len(b.shape) == 1
    cols = 1 if vec else b.shape[1]
    m = [[a[i, j] for j in range(n)] + [b[(i,) if vec else (i, j)] for j in range(cols)] for i in range(n)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(m[i][k]))
        if abs(m[p][k]) < 1e-13:
            raise Undefined('singular matrix')
        m[k], m[p] = m[p], m[k]
        pk = m[k][k]
        for i in range(n):
            if i != k and m[i][k] != 0.0:
                f = m[i][k] / pk
                row, src = m[i], m[k]
                for j in range(k, n + cols):
                    row[j] -= f * src[j]
    out = Mat(b.shape)
    for i in range(n):
        for j in range(cols):
            out[(i,) if vec else (i, j)] = m[i][n + j] / m[i][i]
    return out


class Val:
    """One sample point."""

    def __init__(self, env=None, elem=None, app=None, seed=0, truth=None):
        self.env = dict(env or {})         # symbol name -> number
        self.env.setdefault('pi', math.pi)
        self.elemf = elem                  # (name, idx tuple of ints) -> number or None
        self.appf = app                    # (fname, args) -> number or None
        self.truthf = truth
        self.seed = seed
        self.memo = {}
        self.cmemo = {}
        self.bvenv = {}
        self.lin = {}
        self.lets = {}

    # ------------------------------------------------------------------
    def poly(self, p):
        k = (p, self._bkey(p))
        r = self.memo.get(k)
        if r is None:
            r = 0.0
            for m, c in p.t.items():
                x = float(c)
                for a, e in m:
                    b = self.atom(pl.atom_by_id(a))
                    if e == 1:
                        x *= b
                    else:
                        if b == 0 and e < 0:
                            raise Undefined('division by zero')
                        if b < 0 and F(e).denominator != 1:
                            raise Unknown('root of negative value')
                        x *= b ** (float(e) if F(e).denominator != 1 else int(e))
                r += x
            self.memo[k] = r
        return r

    def _bkey(self, p):
        if not self.bvenv or p.height == 0:
            return ()
        f = pl.free_of(p)
        return tuple((a, v) for a, v in sorted(self.bvenv.items()) if a in f)

    def atom(self, at):
        k = at.kind
        if k == 'sym':
            n = at.args[0]
            if n in self.env:
                return self.env[n]
            if at.isint:
                raise Unknown('integer symbol %s' % n)
            v = 0.3 + 1.4 * _h('sym', n, self.seed)
            if not at.pos and _h('sg', n, self.seed) < 0.5:
                v = -v
            self.env[n] = v
            return v
        if k == 'bv':
            if at.id not in self.bvenv:
                raise Unknown('free bound variable')
            return self.bvenv[at.id]
        if k == 'prime':
            return float(at.args[0])
        if k == 'opaque':
            raise Unknown(at.args[0])
        if k == 'poly':
            return self.poly(at.args[0])
        if k == 'elem':
            idx = tuple(self.index(i) for i in at.args[1])
            return self.elem(at.args[0], idx, at)
        if k == 'ite':
            return self.poly(at.args[1]) if self.cond(at.args[0]) else self.poly(at.args[2])
        if k == 'sum':
            return self.sum(at)
        if k == 'app':
            return self.app(at)
        raise Unknown(k)

    def index(self, p):
        v = self.poly(p)
        r = int(round(v))
        if abs(v - r) > 1e-6:
            raise Unknown('non-integer index')
        return r

    def elem(self, name, idx, at=None):
        if name in vl.LETS:
            key = (name, idx)
            if key not in self.lets:
                tot = 0.0
                for p, q in vl.LETS[name](idx):
                    x = self.poly(p)
                    tot += x * self.poly(q) if x else 0.0
                self.lets[key] = tot
            return self.lets[key]
        if self.elemf is not None:
            v = self.elemf(name, idx)
            if v is not None:
                return v
        v = 0.3 + 1.4 * _h('elem', name, idx, self.seed)
        if name in pl.INT_ARRAYS:
            return float(int(3 * v))
        if name not in pl.POS_ARRAYS and _h('esg', name, idx, self.seed) < 0.5:
            v = -v
        return v

    def sum(self, at):
        dom, guard, inner, h, n = at.args
        key = ('sum', at.id, tuple(sorted(self.bvenv.items())))
        if key in self.memo:
            return self.memo[key]
        ids = [pl.atom_of(pl.bv(h + n - k)).id for k in range(n)]
        saved = dict(self.bvenv)
        tot = 0.0

        def rec(k):
            nonlocal tot
            if k == n:
                if self.cond(guard):
                    tot += self.poly(inner)
                return
            lo, hi = self.index(dom[k][0]), self.index(dom[k][1])
            if hi - lo > 4000:
                raise Unknown('range too long')
            for v in range(lo, hi):
                self.bvenv[ids[k]] = float(v)
                rec(k + 1)
            self.bvenv.pop(ids[k], None)
        rec(0)
        self.bvenv = saved
        self.memo[key] = tot
        return tot

    def freeze(self, x):
        if isinstance(x, Poly):
            return round(self.poly(x), 10)
        if isinstance(x, Cond):
            return self.cond(x)
        if isinstance(x, tuple):
            return tuple(self.freeze(y) for y in x)
        return x

    def app(self, at):
        f = at.args[0]
        if self.appf is not None:
            v = self.appf(self, f, at.args[1:])
            if v is not None:
                return v
        if f == 'lin':
            return self.linear(at)
        if f == 'nth':
            return self.nth(*at.args[1:])
        if f == 'interp':
            x = self.poly(at.args[1])
            xs, ys = self.matrix(at.args[2]), self.matrix(at.args[3])
            n = xs.shape[0]
            if x <= xs[0,]:
                return ys[0,]
            for k in range(1, n):
                if x <= xs[k,]:
                    w = (x - xs[k - 1,]) / (xs[k,] - xs[k - 1,])
                    return ys[k - 1,] + w * (ys[k,] - ys[k - 1,])
            return ys[n - 1,]
        if f in FUNCS:
            try:
                return float(FUNCS[f](*[self.poly(x) for x in at.args[1:]]))
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Unknown('domain of ' + f)
        v = 0.3 + 1.4 * _h('app', f, self.freeze(at.args[1:]), self.seed)
        if at.isint:
            return float(int(4 * v))
        if not at.pos and _h('asg', f, self.freeze(at.args[1:]), self.seed) < 0.5:
            v = -v
        return v

    def matrix(self, key):
        """Numeric matrix for an array key."""
        mk = (key, tuple(sorted(self.bvenv.items())))
        m = self.lin.get(mk)
        if m is not None:
            return m
        a = vl.ARRS.get(key)
        if a is None and key[0] == 'arr':
            sh = [self.index(s) for s in key[1]]
            m = Mat(sh)
            for i in itertools.product(*[range(n) for n in sh]):
                m[i] = self.poly(pl.subst(key[2], {vl._IX[k]: pl.P(x) for k, x in enumerate(i)}))
            self.lin[mk] = m
            return m
        if a is None:
            raise Unknown('array key')
        if isinstance(a, vl.LinArr):
            m = self.linarr(a)
        else:
            sh = [self.index(s) for s in a.shape]
            m = Mat(sh)
            for i in itertools.product(*[range(n) for n in sh]):
                e = a.get(tuple(pl.P(int(x)) for x in i))
                if not isinstance(e, Poly):
                    e = pl.P(e)
                m[i] = self.poly(e)
        self.lin[mk] = m
        return m

    def nth(self, k, dom, guard, val):
        left = self.index(k)
        n = len(dom)
        vs = [pl.sym('@n%d' % j, isint=True) for j in range(n)]

        def rec(j, mp):
            nonlocal left
            if j == n:
                if self.cond(pl.subst_cond(guard, mp)):
                    if left == 0:
                        return self.poly(pl.subst(val, mp))
                    left -= 1
                return None
            lo, hi = self.index(pl.subst(dom[j][0], mp)), self.index(pl.subst(dom[j][1], mp))
            for x in range(lo, hi):
                m2 = dict(mp)
                m2[vs[j]] = pl.P(x)
                r = rec(j + 1, m2)
                if r is not None:
                    return r
            return None
        r = rec(0, {})
        if r is None:
            raise Unknown('element of a shorter list')
        return r

    def linarr(self, a):
        ms = [self.matrix(vl.arr_key(o)) for o in a.ops]
        n = ms[0].shape[0]
        if a.op == 'inv':
            e = Mat((n, n))
            for i in range(n):
                e[i, i] = 1.0
            return solve(ms[0], e)
        if a.op == 'solve':
            return solve(ms[0], ms[1])
        raise Unknown(a.op)

    def linear(self, at):
        key = at.args[1]
        a = vl.LIN.get(key)
        if a is None:
            raise Unknown('linear operator')
        kk = ('LIN', key)
        if kk not in self.lin:
            self.lin[kk] = self.linarr(a)
        return float(self.lin[kk][tuple(self.index(i) for i in at.args[2:])])

    def cond(self, c):
        k = c.kind
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k == 'ge':
            return self.poly(c.args[0]) >= -1e-12
        if k == 'gt':
            return self.poly(c.args[0]) > 1e-12
        if k == 'eq':
            return abs(self.poly(c.args[0])) < 1e-10
        if k == 'not':
            return not self.cond(c.args[0])
        if k == 'and':
            return all(self.cond(x) for x in c.args)
        if k == 'or':
            return any(self.cond(x) for x in c.args)
        key = c.args[0]
        if self.truthf is not None:
            v = self.truthf(self, key)
            if v is not None:
                return v
        if isinstance(key, tuple) and key and key[0] == 'opaque':
            raise Unknown(key[1])
        return _h('truth', self.freeze(key), self.seed) < 0.5

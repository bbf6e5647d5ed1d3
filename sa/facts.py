"""Deciding conditions from path facts (linear arithmetic over monomials)."""
from fractions import Fraction as F
import math
from . import poly as pl
from .poly import (Poly, Cond, TRUE, FALSE, c_not, c_and, c_or, cmp_ge, cmp_gt, cmp_eq, neg,
                   Mapper, is_positive)


def _lin(p):
    """Poly -> (dict mono->F without const, const)."""
    d = dict(p.t)
    k = d.pop((), F(0))
    return d, k


def _infeasible(cons, limit=400):
    """cons: list of (dict, const, strict): sum + const (>=|>) 0.  Fourier-Motzkin."""
    cs = []
    seen = set()
    for d, k, s in cons:
        if not d:
            if k < 0 or (s and k == 0):
                return True
            continue
        cs.append((d, k, s))
    while cs:
        # pick variable with fewest pos*neg
        cnt = {}
        for d, k, s in cs:
            for v, c in d.items():
                a = cnt.setdefault(v, [0, 0])
                a[0 if c > 0 else 1] += 1
        v = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos, ng, rest = [], [], []
        for con in cs:
            c = con[0].get(v)
            if c is None:
                rest.append(con)
            elif c > 0:
                pos.append(con)
            else:
                ng.append(con)
        if len(rest) + len(pos) * len(ng) > limit:
            return False
        new = rest
        keys = set()
        for d1, k1, s1 in pos:
            c1 = d1[v]
            for d2, k2, s2 in ng:
                c2 = -d2[v]
                d = {}
                for m, c in d1.items():
                    if m != v:
                        d[m] = c / c1
                for m, c in d2.items():
                    if m != v:
                        w = d.get(m, F(0)) + c / c2
                        if w == 0:
                            d.pop(m, None)
                        else:
                            d[m] = w
                k = k1 / c1 + k2 / c2
                s = s1 or s2
                if not d:
                    if k < 0 or (s and k == 0):
                        return True
                    continue
                key = (frozenset(d.items()), k, s)
                if key in keys:
                    continue
                keys.add(key)
                new.append((d, k, s))
        cs = new
    return False


class Facts:
    """A conjunction of known-true conditions."""

    _n = 0

    def __init__(self, conds=()):
        Facts._n += 1
        self.uid = Facts._n
        self.conds = []
        self.lin = []
        self.neq = []
        self.truth = {}
        self.ors = []
        self.cache = {}
        self.false = False
        for c in conds:
            self._add(c)

    def extend(self, *conds):
        """New Facts with further conditions."""
        if all(c is TRUE for c in conds):
            return self
        f = Facts.__new__(Facts)
        Facts._n += 1
        f.uid = Facts._n
        f.conds = list(self.conds)
        f.lin = list(self.lin)
        f.neq = list(self.neq)
        f.truth = dict(self.truth)
        f.ors = list(self.ors)
        f.cache = {}
        f.false = self.false
        for c in conds:
            f._add(c)
        return f

    def _add(self, c):
        if c is TRUE:
            return
        if c is FALSE:
            self.false = True
            return
        self.conds.append(c)
        k = c.kind
        if k == 'and':
            for x in c.args:
                self._add(x)
            return
        self.truth[c] = True
        n = pl.c_not_cached(c)
        self.truth[n] = False
        if k == 'ge':
            self.lin.append(_lin(c.args[0]) + (False,))
        elif k == 'gt':
            self.lin.append(_lin(c.args[0]) + (True,))
        elif k == 'eq':
            d, kk = _lin(c.args[0])
            self.lin.append((d, kk, False))
            self.lin.append(({m: -v for m, v in d.items()}, -kk, False))
        elif k == 'not' and c.args[0].kind == 'eq':
            self.neq.append(c.args[0].args[0])
        elif k == 'or':
            self.ors.append(c)

    # -- decisions ---------------------------------------------------------
    def decide(self, c):
        """True / False / None."""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.truth:
            return self.truth[c]
        r = self.cache.get(c, 0)
        if r != 0:
            return r
        r = self._decide(c)
        self.cache[c] = r
        return r

    def _relevant(self, mons):
        """Linear facts transitively sharing monomials with `mons`, plus atom
        positivity / nonnegativity for those monomials."""
        mons = set(mons)
        out = []
        left = list(self.lin)
        ch = True
        done = set()
        while ch:
            ch = False
            for m in list(mons):
                if m in done:
                    continue
                done.add(m)
                if len(m) == 1 and m[0][1] == 1:
                    at = pl.atom_by_id(m[0][0])
                    if at.kind == 'app' and at.args[0] in ('floor', 'abs'):
                        for con in _axioms(at):
                            out.append(con)
                            for x in con[0]:
                                if x not in mons:
                                    mons.add(x)
                                    ch = True
            nl = []
            for con in left:
                if any(m in mons for m in con[0]):
                    out.append(con)
                    for m in con[0]:
                        if m not in mons:
                            mons.add(m)
                    ch = True
                else:
                    nl.append(con)
            left = nl
        for m in mons:
            pos = True
            nonneg = True
            for a, e in m:
                at = pl.atom_by_id(a)
                if at.pos:
                    continue
                pos = False
                if not (F(e).denominator == 1 and e % 2 == 0) and not (
                        at.kind == 'app' and at.args[0] in ('abs',)):
                    nonneg = False
            if pos:
                out.append(({m: F(1)}, F(0), True))
            elif nonneg:
                out.append(({m: F(1)}, F(0), False))
        return out

    def _posden(self, p):
        """Multiply out negative powers of bases known positive; also drop
        common positive monomial factors."""
        for _ in range(6):
            low = {}
            for m in p.t:
                for a, e in m:
                    if e < 0:
                        at = pl.atom_by_id(a)
                        if at.pos or (at.kind == 'poly' and is_positive(at.args[0])):
                            low[a] = min(low.get(a, 0), e)
            if not low:
                break
            for a, e in low.items():
                p = _mulmono(p, a, -e)
        # drop common positive factor
        if p.t:
            common = None
            for m in p.t:
                d = dict(m)
                if common is None:
                    common = {a: e for a, e in d.items() if pl.atom_by_id(a).pos and e > 0}
                else:
                    common = {a: min(e, d[a]) for a, e in common.items() if a in d}
            if common:
                for a, e in common.items():
                    p = _mulmono(p, a, -e)
        return p

    def _decide(self, c):
        k = c.kind
        if k == 'and':
            res = True
            for x in c.args:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    res = None
            if res is None:
                # joint contradiction
                if self._joint_infeasible(c.args):
                    return False
            return res
        if k == 'or':
            res = False
            for x in c.args:
                d = self.decide(x)
                if d is True:
                    return True
                if d is None:
                    res = None
            if res is None and self._joint_infeasible([c_not(x) for x in c.args]):
                return True
            return res
        if k == 'not':
            d = self.decide(c.args[0])
            return None if d is None else (not d)
        if k == 'atom':
            return None
        p = self._posden(c.args[0])
        pc = p.const()
        if pc is not None:
            return {'ge': pc >= 0, 'gt': pc > 0, 'eq': pc == 0}[k]
        if k == 'ge':
            if self._entails(p, False):
                return True
            if self._entails(neg(p), True):
                return False
            return None
        if k == 'gt':
            if self._entails(p, True):
                return True
            if self._entails(neg(p), False):
                return False
            return None
        # eq
        if self._entails(p, True) or self._entails(neg(p), True):
            return False
        if self._entails(p, False) and self._entails(neg(p), False):
            return True
        for q in self.neq:
            if q == p or q == neg(p):
                return False
        if p.isint:
            # p == 0 impossible when facts force a gap between integers:
            pass
        return None

    def _constraint(self, p, strict):
        """p >= 0 (or > 0 if strict) as a linear constraint, tightened for ints."""
        c = cmp_gt(p) if strict else cmp_ge(p)
        if c is TRUE:
            return ({}, F(0), False)
        if c is FALSE:
            return ({}, F(-1), False)
        d, k = _lin(c.args[0])
        return (d, k, c.kind == 'gt')

    def _entails(self, p, strict):
        """facts => p >= 0 (p > 0)."""
        con = self._constraint(neg(p), not strict)
        return _infeasible([con] + self._relevant(con[0].keys()))

    def _joint_infeasible(self, conds):
        cons = []
        for x in conds:
            if x.kind in ('ge', 'gt'):
                cons.append(self._constraint(self._posden(x.args[0]), x.kind == 'gt'))
            elif x.kind == 'eq':
                p = self._posden(x.args[0])
                cons.append(self._constraint(p, False))
                cons.append(self._constraint(neg(p), False))
        if not cons:
            return False
        mons = set()
        for con in cons:
            mons |= set(con[0])
        return _infeasible(cons + self._relevant(mons))

    def infeasible(self):
        return self.false or _infeasible(list(self.lin))

    # -- simplification ----------------------------------------------------
    def cond(self, c):
        d = self.decide(c)
        if d is True:
            return TRUE
        if d is False:
            return FALSE
        return c

    def mapper(self, leaf=None, app_hook=None):
        return Mapper(leaf or (lambda at: None), self.cond, app_hook)

    def simp(self, x):
        m = self.mapper()
        return m.poly(x) if isinstance(x, Poly) else m.cond(x)


def _axioms(at):
    """Linear facts about floor(x) and abs(x)."""
    x = at.args[1]
    v = pl.from_atom(at)
    if at.args[0] == 'abs':
        return [_lin(v - x) + (False,), _lin(v + x) + (False,)]
    den = 1
    for c in x.t.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    num = pl.scale(x, den)
    if num.isint:
        d = pl.scale(v, den)
        return [_lin(num - d) + (False,), _lin(d - num + (den - 1)) + (False,)]
    return [_lin(x - v) + (False,), _lin(v - x + 1) + (True,)]


def _mulmono(p, a, e):
    """p * atom**e with positive powers of multi-term bases expanded."""
    out = []
    for m, c in p.t.items():
        k, _ = pl._mono_mul(m, ((a, pl._norm_exp(F(e))),))
        out.append(pl._reduce_mono(k, c))
    return pl.addn(out)

"""Algebraic value domain.

A scalar abstract value is a `Poly`: a generalised Laurent polynomial with exact
rational coefficients over hash-consed atoms.  Atoms are symbols, elements of
symbolic arrays, primitive function applications, gated values (`ite`), finite
sums over symbolic index ranges (`sum`) and irreducible multi-term bases
(`poly`, used for inverses and roots).  Truth values are `Cond`s.

Nothing in this file knows about any particular program.
"""
from fractions import Fraction as F
from functools import lru_cache
import math

_ATOMS = {}          # key -> Atom
_ATOM_LIST = []


class Atom:
    __slots__ = ("id", "kind", "args", "pos", "isint", "bad", "height", "_free")

    def __init__(self, aid, kind, args):
        self.id = aid
        self.kind = kind
        self.args = args
        self.pos = False
        self.isint = False
        self.bad = None       # reason string when the value is not interpreted
        self.height = 0       # binder height
        self._free = None

    def __repr__(self):
        return show_atom(self)


_HAS_ELEM = {}


def has_elem(p):
    """Does the term mention an array element?"""
    for m in p.t:
        for a, _ in m:
            r = _HAS_ELEM.get(a)
            if r is None:
                at = _ATOM_LIST[a]
                r = at.kind == 'elem' or any(has_elem(x) if isinstance(x, Poly) else True for x in _args_of(at.args))
                _HAS_ELEM[a] = r
            if r:
                return True
    return False


def _args_of(x):
    if isinstance(x, (Poly, Cond)):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _args_of(y)


def mk_atom(kind, args, pos=False, isint=False, bad=None):
    key = (kind, args)
    a = _ATOMS.get(key)
    if a is not None:
        return a
    a = Atom(len(_ATOM_LIST), kind, args)
    a.pos = pos
    a.isint = isint
    a.bad = bad
    h = 0
    if kind == 'bv':
        h = args[0]
    for p in _args_of(args):
        if p.bad and not a.bad:
            a.bad = p.bad
        if p.height > h:
            h = p.height
    a.height = h
    _ATOMS[key] = a
    _ATOM_LIST.append(a)
    return a


def atom_by_id(i):
    return _ATOM_LIST[i]


class Poly:
    __slots__ = ("t", "_h", "_bad", "_height", "_isint")

    def __init__(self, terms):
        self.t = terms           # dict mono -> Fraction   (mono: tuple of (atom id, exp))
        self._h = None
        self._bad = 0
        self._height = None
        self._isint = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    @property
    def bad(self):
        if self._bad == 0:
            b = None
            for m in self.t:
                for a, _ in m:
                    if _ATOM_LIST[a].bad:
                        b = _ATOM_LIST[a].bad
                        break
                if b:
                    break
            self._bad = b
        return self._bad

    @property
    def height(self):
        if self._height is None:
            h = 0
            for m in self.t:
                for a, _ in m:
                    if _ATOM_LIST[a].height > h:
                        h = _ATOM_LIST[a].height
            self._height = h
        return self._height

    @property
    def isint(self):
        if self._isint is None:
            r = True
            for m, c in self.t.items():
                if c.denominator != 1:
                    r = False
                    break
                for a, e in m:
                    if not _ATOM_LIST[a].isint or e < 0 or e != int(e):
                        r = False
                        break
                if not r:
                    break
            self._isint = r
        return self._isint

    def const(self):
        """Fraction when constant, else None."""
        if not self.t:
            return F(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def as_int(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def __repr__(self):
        return show(self)

    def __add__(self, o): return add(self, P(o))
    def __radd__(self, o): return add(P(o), self)
    def __sub__(self, o): return add(self, neg(P(o)))
    def __rsub__(self, o): return add(P(o), neg(self))
    def __mul__(self, o): return mul(self, P(o))
    def __rmul__(self, o): return mul(P(o), self)
    def __neg__(self): return neg(self)
    def __truediv__(self, o): return mul(self, power(P(o), F(-1)))
    def __rtruediv__(self, o): return mul(P(o), power(self, F(-1)))
    def __pow__(self, e): return power(self, F(e))


ZERO = Poly({})
ONE = Poly({(): F(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, F)):
        return Poly({(): F(x)}) if x != 0 else ZERO
    if isinstance(x, float):
        return from_float(x)
    if isinstance(x, Cond):
        return cond_to_num(x)
    raise TypeError("not a scalar: %r" % (x,))


def from_atom(a, e=1):
    return Poly({((a.id, F(e) if isinstance(e, F) and e.denominator != 1 else int(e)),): F(1)})


_SYMS = {}


def sym(name, pos=False, isint=False):
    a = mk_atom('sym', (name,), pos=pos, isint=isint)
    return from_atom(a)


_fresh = [0]


def fresh(prefix, pos=False, isint=False):
    _fresh[0] += 1
    return sym("%s#%d" % (prefix, _fresh[0]), pos=pos, isint=isint)


def elem(name, idx):
    a = mk_atom('elem', (name, tuple(P(i) for i in idx)), pos=name in POS_ARRAYS,
                isint=name in INT_ARRAYS)
    return from_atom(a)


POS_ARRAYS = set()
INT_ARRAYS = set()


def opaque(reason):
    """A value the analysis does not interpret (poisons whatever uses it)."""
    _fresh[0] += 1
    a = mk_atom('opaque', (reason, _fresh[0]), bad=reason)
    return from_atom(a)


def _prime_factors(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def const_power(c, e):
    """c**e for rational c>0 as Poly over prime-root atoms."""
    res = F(1)
    mono = []
    fac = {}
    if c.numerator > 10**12 or c.denominator > 10**12:
        # not factorised: keep symbolic
        return from_atom(mk_atom('app', ('constpow', P(c), P(e)), pos=True))
    for p, k in _prime_factors(c.numerator).items():
        fac[p] = fac.get(p, 0) + k
    for p, k in _prime_factors(c.denominator).items():
        fac[p] = fac.get(p, 0) - k
    for p, k in fac.items():
        x = F(k) * e
        fl = math.floor(x)
        res *= F(p) ** fl
        fr = x - fl
        if fr:
            mono.append((mk_atom('prime', (p,), pos=True).id, fr))
    return Poly({tuple(sorted(mono)): res})


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v == 0:
                del t[m]
            else:
                t[m] = v
    return Poly(t)


def addn(ps):
    t = {}
    for p in ps:
        for m, c in p.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v == 0:
                    del t[m]
                else:
                    t[m] = v
    return Poly(t)


def neg(a):
    return Poly({m: -c for m, c in a.t.items()})


def scale(a, c):
    c = F(c)
    if c == 0:
        return ZERO
    return Poly({m: k * c for m, k in a.t.items()})


def _norm_exp(e):
    if isinstance(e, F) and e.denominator == 1:
        return int(e)
    return e


def _mono_mul(m, n):
    """Product of two sorted monomials; returns (mono, needs_reduction)."""
    if not m:
        return n, False
    if not n:
        return m, False
    i = j = 0
    out = []
    red = False
    lm, ln = len(m), len(n)
    while i < lm and j < ln:
        a, e = m[i]
        b, f = n[j]
        if a < b:
            out.append(m[i])
            i += 1
        elif b < a:
            out.append(n[j])
            j += 1
        else:
            g = _norm_exp(e + f)
            if g != 0:
                out.append((a, g))
                k = _ATOM_LIST[a].kind
                if (k == 'poly' and g >= 1) or (k == 'prime' and (g >= 1 or g < 0)):
                    red = True
            i += 1
            j += 1
    if i < lm:
        out.extend(m[i:])
    if j < ln:
        out.extend(n[j:])
    return tuple(out), red


def _reduce_mono(m, c):
    """Expand positive integer powers of 'poly' atoms and normalise prime roots."""
    base = []
    extra = []
    for a, e in m:
        at = _ATOM_LIST[a]
        if at.kind == 'prime' and (e >= 1 or e < 0):
            fl = math.floor(e)
            c = c * F(at.args[0]) ** fl
            e = _norm_exp(e - fl)
            if e != 0:
                base.append((a, e))
        elif at.kind == 'poly' and e >= 1:
            fl = math.floor(e)
            fr = _norm_exp(e - fl)
            if fr != 0:
                base.append((a, fr))
            extra.append((at.args[0], fl))
        else:
            base.append((a, e))
    r = Poly({tuple(base): c})
    for q, n in extra:
        for _ in range(n):
            r = mul(r, q)
    return r


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) > len(b.t):
        a, b = b, a
    t = {}
    extra = None
    for m, c in a.t.items():
        for n, d in b.t.items():
            k, red = _mono_mul(m, n)
            v = c * d
            if red:
                p = _reduce_mono(k, v)
                extra = p if extra is None else add(extra, p)
                continue
            w = t.get(k)
            if w is None:
                t[k] = v
            else:
                w = w + v
                if w == 0:
                    del t[k]
                else:
                    t[k] = w
    r = Poly(t)
    if extra is not None:
        r = add(r, extra)
    return r


def _content(p):
    """p = c * m * q  with q primitive (leading coefficient 1)."""
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            for a in list(common):
                e = d.get(a)
                if e is None:
                    e = 0
                # minimal exponent over all monomials
                common[a] = min(common[a], e)
            for a, e in d.items():
                if a not in common and e < 0:
                    common[a] = e
    mono = tuple(sorted((a, e) for a, e in common.items() if e != 0))
    inv = tuple((a, -e) for a, e in mono)
    t = {}
    for m, c in p.t.items():
        k, red = _mono_mul(m, inv)
        t[k] = t.get(k, F(0)) + c
    lead = max(t, key=lambda m: (len(m), m))
    c = t[lead]
    q = Poly({m: v / c for m, v in t.items()})
    return c, mono, q


def power(p, e):
    e = F(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.t:
        if e > 0:
            return ZERO
        return opaque("division by zero value")
    if p.bad:
        return opaque(p.bad)
    if e.denominator == 1 and e > 0:
        n = int(e)
        if n > 12 and len(p.t) > 1:
            return from_atom(mk_atom('app', ('bigpow', p, P(n))))
        r = ONE
        b = p
        while n:
            if n & 1:
                r = mul(r, b)
            n >>= 1
            if n:
                b = mul(b, b)
        return r
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if e.denominator != 1 and c < 0:
            return from_atom(mk_atom('app', ('pow', p, P(e))))
        if e.denominator != 1:
            r = const_power(c, e)
        else:
            r = P(F(c) ** int(e))
        for a, x in m:
            at = _ATOM_LIST[a]
            y = _norm_exp(F(x) * e)
            if (e.denominator % 2 == 0 and F(x).denominator == 1 and x % 2 == 0
                    and not at.pos):
                # (x**2)**(1/2) = |x|
                ab = mk_atom('app', ('abs', from_atom(at)), pos=True)
                r = mul(r, Poly({((ab.id, y),): F(1)}))
            else:
                mm, red = ((a, y),), False
                if at.kind in ('poly', 'prime'):
                    r = mul(r, _reduce_mono(((a, y),), F(1)))
                else:
                    r = mul(r, Poly({((a, y),): F(1)}))
        return r
    c, mono, q = _content(p)
    if e.denominator != 1 and c < 0:
        # keep the sign inside the base so that the root is of a normalised value
        q = neg(q)
        c = -c
    at = mk_atom('poly', (q,), pos=False)
    if e.denominator % 2 == 0 or is_positive(q):
        at.pos = True
    r = power(Poly({mono: F(1)}), e) if mono else ONE
    r = mul(r, const_power(c, e) if e.denominator != 1 else P(F(c) ** int(e)))
    r = mul(r, _reduce_mono(((at.id, _norm_exp(e)),), F(1)))
    return r


def is_positive(p):
    """Syntactic sign: every term has positive coefficient and positive atoms."""
    if not p.t:
        return False
    strict = False
    for m, c in p.t.items():
        if c <= 0:
            return False
        ok = True
        for a, e in m:
            if not (_ATOM_LIST[a].pos or (F(e).denominator == 1 and e % 2 == 0)):
                return False
            if not _ATOM_LIST[a].pos:
                ok = False
        strict = strict or ok
    return strict


_FLOAT_CACHE = {}


def from_float(x):
    """Decimal literal -> exact value; recognises 16-digit renderings of simple
    algebraic constants (e.g. 1.3333333333333333, 1.4142135623730951)."""
    r = _FLOAT_CACHE.get(x)
    if r is not None:
        return r
    s = repr(float(x))
    if s in ('inf', '-inf', 'nan'):
        r = from_atom(mk_atom('sym', (s,)))
        _FLOAT_CACHE[x] = r
        return r
    f = F(s)
    digits = len(s.replace('-', '').replace('.', '').split('e')[0].strip('0'))
    r = P(f)
    if digits >= 14:
        ax = abs(float(x))
        found = None
        for den in range(1, 61):
            n = ax * den
            if abs(n - round(n)) < 1e-14 * max(1, n) * 4 and round(n):
                found = P(F(round(n), den))
                break
        if found is None and abs(ax / math.pi - round(ax / math.pi * 12) / 12) < 1e-15 * 8:
            found = scale(sym('pi', pos=True), F(round(ax / math.pi * 12), 12))
        if found is None:
            for n in (2, 3, 5, 6):
                rt = math.sqrt(n)
                for den in range(1, 13):
                    for q in range(-12, 13):
                        if q == 0:
                            continue
                        p_ = ax * den - q * rt
                        if abs(p_ - round(p_)) < 3e-15 * max(1.0, ax * den) and abs(p_) < 20:
                            found = add(P(F(round(p_), den)),
                                        scale(const_power(F(n), F(1, 2)), F(q, den)))
                            break
                    if found is not None:
                        break
                if found is not None:
                    break
        if found is not None:
            r = found if x > 0 else neg(found)
    _FLOAT_CACHE[x] = r
    return r


# --------------------------------------------------------------------------
# conditions

class Cond:
    """Hash-consed truth value: kind in {true,false,ge,gt,eq,not,and,or,atom}."""
    __slots__ = ("kind", "args", "bad", "height", "_hash")
    _table = {}

    def __new__(cls, kind, args):
        key = (kind, args)
        c = cls._table.get(key)
        if c is not None:
            return c
        c = object.__new__(cls)
        c.kind = kind
        c.args = args
        c.bad = None
        c.height = 0
        c._hash = hash(key)
        for p in _args_of(args):
            if p.bad and not c.bad:
                c.bad = p.bad
            if p.height > c.height:
                c.height = p.height
        cls._table[key] = c
        return c

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_cond(self)


TRUE = Cond('true', ())
FALSE = Cond('false', ())


def C(x):
    if isinstance(x, Cond):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    raise TypeError(x)


def c_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.kind == 'not':
        return c.args[0]
    if c.kind == 'ge':
        return cmp_gt(neg(c.args[0]))
    if c.kind == 'gt':
        return cmp_ge(neg(c.args[0]))
    if c.kind == 'and':
        return c_or(*[c_not_cached(x) for x in c.args])
    if c.kind == 'or':
        return c_and(*[c_not_cached(x) for x in c.args])
    return Cond('not', (c,))


def c_and(*cs):
    out = []
    seen = set()
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for d in (c.args if c.kind == 'and' else (c,)):
            if d not in seen:
                seen.add(d)
                out.append(d)
    for d in out:
        if c_not_cached(d) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda d: (d._hash, repr(d.kind)))
    return Cond('and', tuple(out))


_notcache = {}


def c_not_cached(d):
    r = _notcache.get(d)
    if r is None:
        r = c_not(d)
        _notcache[d] = r
    return r


def c_or(*cs):
    out = []
    seen = set()
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for d in (c.args if c.kind == 'or' else (c,)):
            if d not in seen:
                seen.add(d)
                out.append(d)
    for d in out:
        if c_not_cached(d) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda d: (d._hash, repr(d.kind)))
    return Cond('or', tuple(out))


def _scale_cond(p):
    """Positive rescaling so that coefficients are coprime integers."""
    den = 1
    for c in p.t.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in p.t.values():
        g = math.gcd(g, abs(int(c * den)))
    if g == 0:
        return p
    return scale(p, F(den, g))


def _number_sign(p):
    """Sign of (sum of rational multiples of roots of primes) times one positive factor, else None."""
    rest, tot, size = None, 0.0, 0.0
    for m, c in p.t.items():
        v, other = float(c), []
        for a, e in m:
            at = _ATOM_LIST[a]
            if at.kind == 'prime':
                v *= float(at.args[0]) ** float(e)
            elif at.pos:
                other.append((a, e))
            else:
                return None
        other = tuple(other)
        if rest is None:
            rest = other
        elif rest != other:
            return None
        tot += v
        size += abs(v)
    if abs(tot) > 1e-9 * size:
        return 1 if tot > 0 else -1
    return None


def _has_prime(p):
    return any(_ATOM_LIST[a].kind == 'prime' for m in p.t for a, _ in m)


def cmp_ge(p):
    c = p.const()
    if c is None and (len(p.t) > 1 or _has_prime(p)):
        c = _number_sign(p)
    if c is not None:
        return TRUE if c >= 0 else FALSE
    p = _scale_cond(p)
    if p.isint:
        # divide by gcd of non-constant coefficients, floor the constant
        k = p.t.get((), F(0))
        g = 0
        for m, v in p.t.items():
            if m != ():
                g = math.gcd(g, abs(int(v)))
        if g > 1:
            t = {m: v / g for m, v in p.t.items() if m != ()}
            kk = F(math.floor(k / g))
            if kk:
                t[()] = kk
            p = Poly(t)
    return Cond('ge', (p,))


def cmp_gt(p):
    c = p.const()
    if c is None and (len(p.t) > 1 or _has_prime(p)):
        c = _number_sign(p)
    if c is not None:
        return TRUE if c > 0 else FALSE
    p = _scale_cond(p)
    if p.isint:
        return cmp_ge(p - 1)
    return Cond('gt', (p,))


def cmp_eq(p):
    c = p.const()
    if c is None and (len(p.t) > 1 or _has_prime(p)):
        c = _number_sign(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    p = _scale_cond(p)
    if p.isint:
        k = p.t.get((), F(0))
        g = 0
        for m, v in p.t.items():
            if m != ():
                g = math.gcd(g, abs(int(v)))
        if g > 1 and k % g != 0:
            return FALSE
    # sign-normalise
    lead = max(p.t, key=lambda m: (len(m), m))
    if p.t[lead] < 0:
        p = neg(p)
    return Cond('eq', (p,))


def truth_atom(key, bad=None):
    """Opaque but named truth value (e.g. a configuration flag)."""
    c = Cond('atom', (key,))
    if bad:
        c.bad = bad
    return c


def opaque_cond(reason):
    _fresh[0] += 1
    c = Cond('atom', (("opaque", reason, _fresh[0]),))
    c.bad = reason
    return c


def cond_to_num(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return ite(c, ONE, ZERO)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    if c.kind == 'not':
        return ite(c.args[0], b, a)
    # absorb nested gates on the same condition
    a = _under(a, c, True)
    b = _under(b, c, False)
    if a == b:
        return a
    isint = a.isint and b.isint
    if isint and b.t:
        # a counter stepped on one side only
        d = (a - b).const()
        if d is not None and a.t:
            return b + d * ite(c, ONE, ZERO)
    return from_atom(mk_atom('ite', (c, a, b), isint=isint,
                             pos=is_positive(a) and is_positive(b)))


def _under(p, c, val):
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            at = _ATOM_LIST[m[0][0]]
            if at.kind == 'ite':
                d = at.args[0]
                if d is c:
                    return at.args[1] if val else at.args[2]
                if d is c_not_cached(c):
                    return at.args[2] if val else at.args[1]
    return p


def app(fname, *args, isint=False, pos=False):
    bad = None
    for p in _args_of(tuple(args)):
        if p.bad:
            bad = p.bad
    return from_atom(mk_atom('app', (fname,) + tuple(args), isint=isint, pos=pos, bad=bad))


# --------------------------------------------------------------------------
# finite sums.  dom: tuple of (lo, hi) per bound variable, in order; bound
# variables are 'bv' atoms with heights above everything inside the body.

def bv(h):
    return from_atom(mk_atom('bv', (h,), isint=True))


SPLIT = 6


def mk_sum(vars_, guard, body):
    """Sum of body over vars_ = [(sym Poly, lo, hi)] subject to guard (Cond)."""
    if guard is FALSE or not body.t:
        return ZERO
    # eliminate variables with small concrete ranges
    for n, (v, lo, hi) in enumerate(vars_):
        l, h = lo.as_int(), hi.as_int()
        if l is not None and h is not None and h - l <= 8:
            rest = vars_[:n] + vars_[n + 1:]
            tot = []
            for k in range(l, h):
                mp = {v: P(k)}
                tot.append(mk_sum([(w, subst(a, mp), subst(b, mp)) for (w, a, b) in rest],
                                  subst_cond(guard, mp), subst(body, mp)))
            return addn(tot)
    if not vars_:
        return ite(guard, body, ZERO)
    vs = [atom_of(v) for v, _, _ in vars_]
    vset = set(a.id for a in vs)
    # factor out everything independent of the bound variables
    groups = {}
    for m, c in body.t.items():
        inn, out = [], []
        for a, e in m:
            if free_atoms(_ATOM_LIST[a]) & vset:
                inn.append((a, e))
            else:
                out.append((a, e))
        groups.setdefault(tuple(inn), []).append((tuple(out), c))
    if len(groups) > SPLIT and () not in groups:
        # a long body stays one sum: only its common factors leave it
        common = None
        for m in body.t:
            f = set((a, e) for a, e in m if not free_atoms(_ATOM_LIST[a]) & vset)
            common = f if common is None else common & f
        common = tuple(sorted(common))
        fac = Poly({common: F(1)})
        return mul(fac, _close_sum(vars_, guard, mul(body, power(fac, -1))))
    res = []
    for inn, outs in groups.items():
        free = Poly({})
        for o, c in outs:
            free = add(free, Poly({o: c}))
        if not inn and guard is TRUE and len(vars_) == 1:
            v, lo, hi = vars_[0]
            res.append(mul(free, hi - lo))
            continue
        inner = Poly({inn: F(1)})
        # push 0/1 gates of the body into the guard
        g2 = guard
        if len(inn) == 1 and inn[0][1] == 1:
            at = _ATOM_LIST[inn[0][0]]
            if at.kind == 'ite' and not at.args[2].t:
                res.append(mul(free, mk_sum(vars_, c_and(guard, at.args[0]), at.args[1])))
                continue
            if at.kind == 'ite' and not at.args[1].t:
                res.append(mul(free, mk_sum(vars_, c_and(guard, c_not(at.args[0])), at.args[2])))
                continue
        res.append(mul(free, _close_sum(vars_, g2, inner)))
    return addn(res)


_CLOSED = {}


def _close_sum(vars_, guard, inner):
    h = max([inner.height, guard.height] + [max(lo.height, hi.height) for _, lo, hi in vars_])
    mp = {}
    n = len(vars_)
    for k, (v, lo, hi) in enumerate(vars_):
        mp[v] = bv(h + n - k)
    key = (tuple(vars_), guard, h)
    dg = _CLOSED.get(key)
    if dg is None:
        dom = tuple((subst(lo, mp), subst(hi, mp)) for (_, lo, hi) in vars_)
        dg = _CLOSED[key] = (dom, subst_cond(guard, mp))
    args = (dg[0], dg[1], subst(inner, mp), h, n)
    a = mk_atom('sum', args)
    a.height = h + n
    return from_atom(a)


def open_sum(at):
    """(vars_, guard, body) with fresh symbols for a 'sum' atom."""
    dom, guard, inner, h, n = at.args
    syms = [fresh('s', isint=True) for _ in range(n)]
    mp = {bv(h + n - k): syms[k] for k in range(n)}
    vars_ = [(syms[k], subst(dom[k][0], mp), subst(dom[k][1], mp)) for k in range(n)]
    return vars_, subst_cond(guard, mp), subst(inner, mp)


def atom_of(p):
    (m, c), = p.t.items()
    (a, e), = m
    assert c == 1 and e == 1
    return _ATOM_LIST[a]


def is_atom(p):
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
        return _ATOM_LIST[m[0][0]]
    return None


_FREE = {}


def free_atoms(at):
    """ids of leaf atoms (sym, bv, elem names excluded) occurring in an atom."""
    if at._free is not None:
        return at._free
    if at.kind in ('sym', 'bv', 'opaque', 'prime'):
        r = frozenset([at.id])
    else:
        s = set()
        for p in _args_of(at.args):
            s |= free_of(p)
        r = frozenset(s)
    at._free = r
    return r


_FREEOF = {}


def free_of(x):
    r = _FREEOF.get(x)
    if r is not None:
        return r
    s = set()
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                s |= free_atoms(_ATOM_LIST[a])
    elif isinstance(x, Cond):
        for p in _args_of(x.args):
            s |= free_of(p)
    r = frozenset(s)
    _FREEOF[x] = r
    return r


def all_atoms(x, out=None):
    """Every atom occurring (transitively) in a value."""
    if out is None:
        out = {}
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Poly):
            for m in y.t:
                for a, _ in m:
                    if a not in out:
                        at = _ATOM_LIST[a]
                        out[a] = at
                        st.extend(_args_of(at.args))
        elif isinstance(y, Cond):
            st.extend(_args_of(y.args))
    return out


# --------------------------------------------------------------------------
# substitution / rebuilding

class Mapper:
    """Rebuild values bottom-up.  `leaf(atom)` returns a Poly replacement or
    None; `cond(c)` may decide a rebuilt condition (returning TRUE/FALSE/c)."""

    def __init__(self, leaf, cond=None, app_hook=None):
        self.leaf = leaf
        self.condf = cond
        self.app_hook = app_hook
        self.memo = {}
        self.cmemo = {}

    def poly(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        changed = False
        parts = []
        keep = {}
        for m, c in p.t.items():
            rep = []
            hit = False
            for a, e in m:
                at = _ATOM_LIST[a]
                q = self.atom(at)
                if q is None:
                    rep.append((at, e, None))
                else:
                    hit = True
                    rep.append((at, e, q))
            if not hit:
                keep[m] = c
                continue
            changed = True
            base = tuple((at.id, e) for at, e, q in rep if q is None)
            r_ = Poly({base: c})
            for at, e, q in rep:
                if q is not None:
                    r_ = mul(r_, power(q, F(e)))
            parts.append(r_)
        if not changed:
            r = p
        else:
            r = addn([Poly(keep)] + parts)
        self.memo[p] = r
        return r

    def atom(self, at):
        """None when unchanged, else replacement Poly."""
        k = ('a', at.id)
        if k in self.memo:
            return self.memo[k]
        r = self.leaf(at)
        if r is None:
            if at.kind in ('sym', 'bv', 'opaque', 'prime'):
                r = None
            else:
                r = self._rebuild(at)
        self.memo[k] = r
        return r

    def _map(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Cond):
            return self.cond(x)
        if isinstance(x, tuple):
            return tuple(self._map(y) for y in x)
        return x

    def _rebuild(self, at):
        if at.kind == 'sum':
            vars_, g, b = open_sum(at)
            v2 = [(v, self.poly(lo), self.poly(hi)) for v, lo, hi in vars_]
            g2, b2 = self.cond(g), self.poly(b)
            if g2 is g and b2 == b and all(x == y for x, y in zip(v2, vars_)):
                return None
            return mk_sum(v2, g2, b2)
        if at.kind == 'ite':
            c = self.cond(at.args[0])
            if c is TRUE:
                return self.poly(at.args[1])
            if c is FALSE:
                return self.poly(at.args[2])
            a, b = self.poly(at.args[1]), self.poly(at.args[2])
            if c is at.args[0] and a == at.args[1] and b == at.args[2]:
                return None
            return ite(c, a, b)
        na = self._map(at.args)
        if self.app_hook is not None and at.kind == 'app':
            r = self.app_hook(at, na)
            if r is not None:
                return r
        if na == at.args:
            return None
        if at.kind == 'poly':
            return na[0]
        if at.kind == 'elem':
            return elem(na[0], na[1])
        if at.kind == 'app':
            return apply_fn(na[0], na[1:], at)
        if at.kind == 'larr':
            return from_atom(mk_atom('larr', na))
        raise NotImplementedError(at.kind)

    def cond(self, c):
        r = self.cmemo.get(c)
        if r is not None:
            return r
        k = c.kind
        if k in ('true', 'false'):
            r = c
        elif k == 'ge':
            r = cmp_ge(self.poly(c.args[0]))
        elif k == 'gt':
            r = cmp_gt(self.poly(c.args[0]))
        elif k == 'eq':
            r = cmp_eq(self.poly(c.args[0]))
        elif k == 'not':
            r = c_not(self.cond(c.args[0]))
        elif k == 'and':
            r = TRUE
            for x in c.args:
                r = c_and(r, self.cond(x))
                if r is FALSE:
                    break
        elif k == 'or':
            r = FALSE
            for x in c.args:
                r = c_or(r, self.cond(x))
                if r is TRUE:
                    break
        elif k == 'atom':
            na = self._map(c.args)
            r = c if na == c.args else truth_atom(na[0], bad=c.bad)
        if self.condf is not None and r is not TRUE and r is not FALSE:
            r = self.condf(r)
        self.cmemo[c] = r
        return r


FN_TABLE = {}      # fname -> constructor(args, atom) used when rebuilding


def apply_fn(fname, args, at=None):
    f = FN_TABLE.get(fname)
    if f is not None:
        return f(*args)
    return app(fname, *args, isint=at.isint if at else False, pos=at.pos if at else False)


def subst(p, mp):
    """mp: {atom-poly: Poly}."""
    ids = {atom_of(k).id: v for k, v in mp.items()}
    if not any(i in free_of(p) for i in ids) and not any(
            _ATOM_LIST[i].kind not in ('sym', 'bv') for i in ids):
        return p
    return Mapper(lambda at: ids.get(at.id)).poly(p)


def subst_cond(c, mp):
    ids = {atom_of(k).id: v for k, v in mp.items()}
    return Mapper(lambda at: ids.get(at.id)).cond(c)


# --------------------------------------------------------------------------
# integer division

def _mkfloor(p):
    """floor(p) for a Poly."""
    c = p.const()
    if c is not None:
        return P(math.floor(c))
    if p.isint:
        return p
    # split integer part: integer-coefficient terms over int atoms
    ip, fp = {}, {}
    for m, c in p.t.items():
        one = Poly({m: F(1)})
        if one.isint and m != ():
            w = math.floor(c)
            if w:
                ip[m] = F(w)
            if c - w:
                fp[m] = c - w
        elif m == ():
            w = math.floor(c)
            if w:
                ip[m] = F(w)
            if c - w:
                fp[m] = c - w
        else:
            fp[m] = c
    ipol, fpol = Poly(ip), Poly(fp)
    fc = fpol.const()
    if fc is not None:
        return add(ipol, P(math.floor(fc)))
    return add(ipol, from_atom(mk_atom('app', ('floor', fpol), isint=True)))


FN_TABLE['floor'] = _mkfloor


def floordiv(a, b):
    return _mkfloor(a / b)


def mod(a, b):
    q = _mkfloor(a / b)
    return a - b * q


def _mk_abs(p):
    c = p.const()
    if c is not None:
        return P(abs(c))
    if is_positive(p):
        return p
    if is_positive(neg(p)):
        return neg(p)
    lead = max(p.t, key=lambda m: (len(m), m))
    if p.t[lead] < 0:
        p = neg(p)
    return from_atom(mk_atom('app', ('abs', p), isint=p.isint))


FN_TABLE['abs'] = _mk_abs


# --------------------------------------------------------------------------
# zero test for rational functions with roots: clear denominators, expand

def clear_denominators(p, limit=60000):
    """Return a Poly equivalent to p times nonzero bases, fully expanded."""
    for _ in range(40):
        low = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    at = _ATOM_LIST[a]
                    if at.kind == 'poly':
                        low[a] = min(low.get(a, 0), e)
        if not low:
            return p
        a, e = min(low.items(), key=lambda kv: kv[0])
        n = math.ceil(-e)
        q = _ATOM_LIST[a].args[0]
        parts = []
        qpow = {0: ONE}
        tot = {}
        for m, c in p.t.items():
            x = dict(m).get(a, 0)
            rest = tuple((b, f) for b, f in m if b != a)
            y = _norm_exp(F(x) + n)
            fl = math.floor(y)
            fr = _norm_exp(y - fl)
            key = tuple(sorted(rest + (((a, fr),) if fr != 0 else ())))
            tot.setdefault(fl, {})
            tot[fl][key] = tot[fl].get(key, F(0)) + c
        size = 0
        for fl, t in tot.items():
            t = {m: c for m, c in t.items() if c != 0}
            qp = power(q, fl) if fl else ONE
            size += len(t) * len(qp.t)
            if size > limit:
                return None
            parts.append(mul(Poly(t), qp))
        p = addn(parts)
        if len(p.t) > limit:
            return None
    return None


def is_zero(p):
    """True: identically zero.  False: not shown zero by normal form."""
    if not p.t:
        return True
    q = clear_denominators(p)
    if q is None:
        return False
    return not q.t


# --------------------------------------------------------------------------
# printing

def show(p, limit=600):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda kv: (len(kv[0]), kv[0])):
        s = "*".join(show_atom(_ATOM_LIST[a]) + ("" if e == 1 else "**(%s)" % e) for a, e in m)
        if not m:
            s = str(c)
        elif c == 1:
            pass
        elif c == -1:
            s = "-" + s
        else:
            s = "%s*%s" % (c, s)
        out.append(s)
        if sum(map(len, out)) > limit:
            out.append("...")
            break
    return " + ".join(out)


def show_atom(a):
    k = a.kind
    if k == 'sym':
        return str(a.args[0])
    if k == 'bv':
        return "$%d" % a.args[0]
    if k == 'elem':
        return "%s[%s]" % (a.args[0], ",".join(show(i, 60) for i in a.args[1]))
    if k == 'poly':
        return "(%s)" % show(a.args[0], 150)
    if k == 'prime':
        return "<%d>" % a.args[0]
    if k == 'opaque':
        return "OPAQUE<%s>" % a.args[0]
    if k == 'ite':
        return "(%s if %s else %s)" % (show(a.args[1], 150), show_cond(a.args[0]), show(a.args[2], 150))
    if k == 'app':
        return "%s(%s)" % (a.args[0], ", ".join(show_any(x) for x in a.args[1:]))
    if k == 'sum':
        return "SUM{%s|%s}(%s)" % (a.args[0], show_cond(a.args[1]), show(a.args[2], 150))
    return "%s(...)" % k


def show_any(x):
    if isinstance(x, Poly):
        return show(x, 80)
    if isinstance(x, Cond):
        return show_cond(x)
    if isinstance(x, tuple):
        return "(" + ",".join(show_any(y) for y in x) + ")"
    return str(x)


def show_cond(c):
    k = c.kind
    if k in ('true', 'false'):
        return k
    if k == 'ge':
        return "%s >= 0" % show(c.args[0], 100)
    if k == 'gt':
        return "%s > 0" % show(c.args[0], 100)
    if k == 'eq':
        return "%s == 0" % show(c.args[0], 100)
    if k == 'not':
        return "not(%s)" % show_cond(c.args[0])
    if k in ('and', 'or'):
        return "(" + (" %s " % k).join(show_cond(x) for x in c.args) + ")"
    return "<%s>" % (show_any(c.args[0]),)

"""The near-field resistance scalars of two unequal spheres follow from the reflection recurrences."""
from functools import lru_cache
from math import comb
from .solve import *

lam, xi = sym('lam', pos=True), sym('xi', pos=True)
TERMS = 8           # terms of each series that are compared, orders up to 16
LONG = 30           # a range longer than this is a truncated series


# -- published recurrences --------------------------------------------------
# One recurrence per azimuthal order of the disturbance; the three kinds of
# motion of the first sphere only change which coefficient starts at one.

def seq(order, start, n0):
    """P, Q, V coefficient functions for azimuthal order 0, 1, 2; `start` says which of them
    begin at one, for degree n0."""
    m = order

    def init(kind, n):
        return F(int(kind in start and n == n0))

    @lru_cache(maxsize=None)
    def Pf(n, p, q):
        if p == 0 and q == 0:
            return init('P', n)
        out = F(0)
        for s in range(max(m, 1), q + 1):
            if m == 0:
                t = (F(n * (2 * n + 1) * (2 * n * s - n - s + 2), 2 * (n + 1) * (2 * s - 1) * (n + s))
                     * Pf(s, q - s, p - n + 1)
                     - F(n * (2 * n - 1), 2 * (n + 1)) * Pf(s, q - s, p - n - 1)
                     - F(n * (4 * n * n - 1), 2 * (n + 1) * (2 * s + 1)) * Vf(s, q - s - 2, p - n + 1))
            else:
                if m == 1:
                    a = F((2 * n + 1) * (3 * (n + s) - (n * s + 1) * (2 * n * s - s - n + 2)),
                          2 * (n + 1) * s * (n + s) * (2 * s - 1))
                    b = F(2 * (4 * n * n - 1), 3 * (n + 1))
                else:
                    a = F((2 * n + 1) * (n * s * (n + s - 2 * n * s - 2) - 4 * (2 * n * s - 4 * s - 4 * n + 2)),
                          (n + 1) * 2 * s * (n + s) * (2 * s - 1))
                    b = F(2 * (4 * n * n - 1), n + 1)
                t = (a * Pf(s, q - s, p - n + 1)
                     + F(n * (2 * n - 1), 2 * (n + 1)) * Pf(s, q - s, p - n - 1)
                     + F(n * (4 * n * n - 1), 2 * (n + 1) * (2 * s + 1)) * Vf(s, q - s - 2, p - n + 1)
                     - b * Qf(s, q - s - 1, p - n + 1))
            out += comb(n + s, n + m) * t
        return out

    @lru_cache(maxsize=None)
    def Qf(n, p, q):
        if p == 0 and q == 0:
            return init('Q', n)
        c = F(3, 2) if m == 1 else F(2)
        return sum((comb(n + s, n + m) * (F(s, n + 1) * Qf(s, q - s - 1, p - n)
                                          - c / (n * s * (n + 1)) * Pf(s, q - s, p - n))
                    for s in range(max(m, 1), q + 1)), F(0))

    @lru_cache(maxsize=None)
    def Vf(n, p, q):
        if p == 0 and q == 0:
            return init('V', n)
        sg = -1 if m == 0 else 1
        return Pf(n, p, q) + sg * F(2 * n, (n + 1) * (2 * n + 3)) * sum(
            (comb(n + s, n + m) * Pf(s, q - s, p - n - 1) for s in range(max(m, 1), q + 1)), F(0))
    return {'P': Pf, 'Q': Qf, 'V': Vf}


XAs, YAs, YCs = seq(0, 'PV', 1), seq(1, 'PV', 1), seq(1, 'Q', 1)
XMs, YMs, ZMs = seq(0, 'PV', 2), seq(1, 'PV', 2), seq(2, 'PV', 2)


def poly_lam(*c, start=0):
    return pl.addn([P(F(k)) * lam ** (i + start) for i, k in enumerate(c)])


def over(p, n):
    return p * pl.power(1 + lam, P(-n).const())


# name: recurrence, coefficient used, its degree, factor, extra power of lambda
# on odd orders, then the leading behaviours (1/xi, log, xi log) of each parity
Z0 = ZERO
CLASS = {
    'XA': (XAs, 'P', 1, F(1), 0, [over(2 * lam ** 2, 3), over(poly_lam(1, 7, 1, start=1) / 5, 3),
                                  over(poly_lam(1, 18, -29, 18, 1) / 42, 3)], None),
    'YA': (YAs, 'P', 1, F(1), 0, [Z0, over(F(4, 15) * poly_lam(2, 1, 2, start=1), 3),
                                  over(F(2, 375) * poly_lam(16, -45, 58, -45, 16), 3)], None),
    'YB': (YAs, 'Q', 1, F(2), 0, [Z0, over(-poly_lam(4, 1, start=1) / 5, 2),
                                  over(-poly_lam(32, -33, 83, 43) / 250, 2)], None),
    'YC': (YCs, 'Q', 1, F(1), 1, [Z0, over(F(2, 5) * lam, 1), over(poly_lam(8, 6, 33) / 125, 1)],
           [Z0, over(lam ** 2 / 10, 1), over(poly_lam(43, -24, 43, start=1) / 500, 1)]),
    'XG': (XAs, 'P', 2, F(3, 4), 0, [over(3 * lam ** 2, 3), over(F(3, 10) * poly_lam(1, 12, -4, start=1), 3),
                                     over(poly_lam(5, 181, -453, 566, -65) / 140, 3)], None),
    'YG': (YAs, 'P', 2, F(3, 4), 0, [Z0, over(poly_lam(4, -1, 7, start=1) / 10, 3),
                                     over(poly_lam(32, -179, 532, -356, 221) / 500, 3)], None),
    'YH': (YCs, 'P', 2, F(-3, 8), 1, [Z0, over(poly_lam(2, -1, start=1) / 10, 2),
                                      over(poly_lam(16, -61, 180, 2) / 500, 2)],
           [Z0, over(poly_lam(1, 7, start=2) / 20, 2), over(poly_lam(43, 147, -185, 221, start=1) / 1000, 2)]),
    'XM': (XMs, 'P', 2, F(1), 1, [over(F(6, 5) * lam ** 2, 3), over(F(3, 25) * poly_lam(1, 17, -9, start=1), 3),
                                  over(poly_lam(5, 272, -831, 1322, -415) / 350, 3)],
           [over(F(6, 5) * lam ** 3, 3), over(F(3, 25) * poly_lam(-4, 17, -4, start=2), 3),
            over(poly_lam(-65, 832, -1041, 832, -65, start=1) / 350, 3)]),
    'YM': (YMs, 'P', 2, F(1), 1, [Z0, over(F(6, 25) * poly_lam(1, -1, 4, start=1), 3),
                                  over(poly_lam(24, -201, 882, -1182, 591) / 625, 3)],
           [Z0, over(F(3, 50) * poly_lam(7, -10, 7, start=2), 3),
            over(F(3, 2500) * poly_lam(221, -728, 1902, -728, 221, start=1), 3)]),
    'ZM': (ZMs, 'P', 2, F(1), 1, [Z0, Z0, over(F(-3, 10) * poly_lam(1, 0, 1, start=2), 3)], None),
}
# parity of the series of the self scalar; sign of the cross scalar
SELF_ODD = {'YB', 'XG', 'YG'}
CROSS_MINUS = {'XA', 'YA', 'YB', 'XG', 'YG', 'ZM'}
# self terms that do not vanish for a lone sphere
ISOLATED = {'XA', 'YA', 'YC', 'XM', 'YM', 'ZM'}
# truncation order M whose remainder of sum 4/(m(m+2)) is kept in the constant
REMAINDER = {('XA', 0): 100, ('YA', 0): 100, ('YA', 1): 99}


def series(rec, kind, n, fac, extra, m):
    """Coefficient of (2/s')^m ... of the scalar, as a polynomial in lambda over (1+lambda)^m."""
    t = [fac * rec[kind](n, m - q, q) for q in range(m + 1)]
    return pl.power(1 + lam, F(-m)) * pl.addn([P(c) * lam ** (q + extra * (m % 2)) for q, c in enumerate(t) if c])


def reference(name, cross):
    """Singular terms plus the series with those singular parts removed."""
    rec, kind, n, fac, extra, g_even, g_odd = CLASS[name]
    odd = (name in SELF_ODD) != bool(cross)
    g = (g_odd if cross else g_even) or g_even
    g1, g2, g3 = g
    L = -pl.apply_fn('log', (xi,))
    sign = -1 if cross and name in CROSS_MINUS else 1
    out = g1 / xi + g2 * L + g3 * xi * L
    ms = [1 + 2 * k for k in range(TERMS)] if odd else [2 + 2 * k for k in range(TERMS)]
    if name == 'ZM' and cross:
        # the odd singular term of this scalar carries the opposite sign
        pass
    tail = pl.addn([series(rec, kind, n, fac, extra, m) - g1 - 2 * g2 / m + 4 * g3 / (m * (m + 2)) for m in ms])
    if odd:
        const = g1 / 4 + 2 * g2 * pl.apply_fn('log', (P(2),)) - 2 * g3
    else:
        const = -g1 / 4 - g3 + (ONE if name in ISOLATED else ZERO)
    M = REMAINDER.get((name, cross))
    if M:
        const = const - 4 * g3 / (M * (M + 2))
    return sign * (out + const + tail)


def twist(cross):
    """Rotation about the line of centres."""
    L = -pl.apply_fn('log', (xi,))
    q = lam / (1 + lam)
    s = -1 if cross else 1
    z = pl.apply_fn('zeta', (P(3), ONE if cross else q))
    return s * (q ** 3 * z - lam ** 2 / (4 * (1 + lam)) * xi * L)


def sampler(seed):
    v = Val(seed=seed)
    v.env['lam'] = [0.1, 1.0, 10.0, 0.35, 2.5, 0.7][seed % 6] * (0.9 + 0.2 * rnd('l', seed))
    v.env['xi'] = 0.02 + 0.5 * rnd('xi', seed)
    return v


def at_ratio(p, value):
    return pl.subst(p, {lam: P(value)})


def run():
    ck = Check('C21', 'Each near-field scalar is interpreted for a symbolic gap and size ratio, every series to its first '
               '%d terms through the recursive coefficients, and compared with the published reflection recurrences and '
               'the resummed singular terms; the saved table is compared entry by entry.' % TERMS)
    it = ck.interp(Interp(ROOTS, facts=Facts([])))
    it.series = (LONG, TERMS)
    ref = {}
    names = ['XA', 'YA', 'YB', 'XC', 'YC', 'XG', 'YG', 'YH', 'XM', 'YM', 'ZM']
    for name in names:
        for cross in (0, 1):
            want = ref[name, cross] = twist(cross) if name == 'XC' else reference(name, cross)
            fn = '%s1%d%s' % (name[0], 1 + cross, name[1])
            f = find_opt(it, fn)
            if f is None:
                ck.unsure(fn, 'no function of this name')
                continue
            got = it.call_func(f, [xi, lam], {})
            ck.same('%s(gap, ratio)' % fn, got, want, Facts([]), sampler, site(f))
    # the table written by the script
    ratios = [F(1, 10), F(1)]
    gaps = [sym('gap0', pos=True), sym('gap1', pos=True)]
    it = ck.interp(Interp(ROOTS, facts=Facts([]), hooks=table_hooks(gaps, ratios)))
    it.series = (LONG, TERMS)
    saved = []
    it.hooks['extern:numpy.save'] = lambda it, a, k, e: saved.append((it.deep(a[1]), it.where(e)))
    it.run_module('generate_scalars_nearfield')
    if len(saved) != 1:
        ck.unsure('table', '%d tables saved' % len(saved))
    for tab, where in saved:
        tab = it.unbox(tab)
        if not isinstance(tab, Arr) or tab.ndim != 4:
            ck.unsure('table', 'not resolved')
            continue
        for want, n in zip((11, 2, len(gaps), 3), tab.shape):
            ck.same('table extent', n, P(want), None, sampler, where)
        for k, name in enumerate(names):
            for cross in (0, 1):
                for g in range(len(gaps)):
                    for r, ratio in enumerate((F(1, 10), F(1), F(10))):
                        w = pl.subst(at_ratio(ref[name, cross], ratio), {xi: gaps[g]})
                        ck.same('table: %s, %s, gap %d, ratio %s' % (name, 'cross' if cross else 'self', g, ratio),
                                cell(it, tab, k, cross, g, r), w, Facts([]), sampler, where)
    return ck.finish(minimum=16)


def table_hooks(gaps, ratios):
    def loadtxt(it, a, k, e):
        n = a[0] if isinstance(a[0], str) else ''
        if 'lambda' in n:
            return it.b_array([lst(it, [P(x) for x in ratios])], {}, e)
        if 's_dash' in n:
            return it.b_array([lst(it, [2 + g for g in gaps])], {}, e)
        return NotImplemented
    return {'extern:numpy.loadtxt': loadtxt}

"""Lubrication tables as symbols, and the reference pair resistance."""
from .common import *

NSD, NL = sym('nsd', isint=True), sym('nl', isint=True)
cf = sym('cf', pos=True)
SD = base_arr('sdash', (NSD,), pos=True)
LAM = base_arr('lamr', (NL,), pos=True)
TAB = base_arr('XYZ', (11, 2, NSD, NL))
TABLES = {'resistance_scalars.data.s_dash_range': SD,
          'resistance_scalars.data.lam_range_with_reciprocals': LAM,
          'resistance_scalars.data.XYZ_raw': TAB}
XA, YA, YB, XC, YC, XG, YG, YH, XM, YM, ZM = range(11)
SDV = (2.0, 2.4, 2.9, 3.5, 4.2)
LAMV = (0.25, 0.5, 1.0, 2.0, 4.0)


def lam_pos(lam):
    """Position of a size ratio in the table."""
    n0 = sym('@n0', isint=True)
    return pl.app('nth', ZERO, ((ZERO, NL),), cmp_eq(elem('lamr', (n0,)) - lam), n0, isint=True)


def scalar(k, gamma, s, lam):
    """Tabulated resistance function number k at scaled distance s."""
    ix = vl._IX[0]
    return pl.app('interp', s, vl.arr_key(SD), ('arr', (NSD,), elem('XYZ', (P(k), P(gamma), ix, lam_pos(lam)))))


def res_tensors(gamma, d, s, lam, a):
    """Blocks TU, SU, SO, FU, TO, SE of the resistance of particle 1 (radius a) to the
    motion of particle 2 (gamma=1) or of itself near 2 (gamma=0); d points from 1 to 2."""
    f = lambda k: scalar(k, gamma, s, lam)
    out = {}
    R3 = range(3)
    dd = lambda i, j: d[i] * d[j]
    for i in R3:
        for j in R3:
            out['FU', i, j] = 6 * PI * a * (f(XA) * dd(i, j) + f(YA) * (delta(i, j) - dd(i, j)))
            out['TO', i, j] = 8 * PI * a ** 3 * (f(XC) * dd(i, j) + f(YC) * (delta(i, j) - dd(i, j)))
            out['TU', i, j] = 4 * PI * a ** 2 * f(YB) * pl.addn([P(eps(i, j, k)) * d[k] for k in R3])
    tr = lambda i, j: dd(i, j) - delta(i, j) / 3
    ix = [(i, j) for i in R3 for j in R3]
    for m in range(5):
        B = BASIS[m]
        for k in R3:
            out['SU', m, k] = 4 * PI * a ** 2 * pl.addn([
                B[i][j] * (f(XG) * tr(i, j) * d[k]
                           + f(YG) * (d[i] * delta(j, k) + d[j] * delta(i, k) - 2 * d[i] * d[j] * d[k]))
                for i, j in ix])
            out['SO', m, k] = 8 * PI * a ** 3 * f(YH) * pl.addn([
                B[i][j] * P(eps(i, k, l)) * d[l] * d[j] + B[i][j] * P(eps(j, k, l)) * d[l] * d[i]
                for i, j in ix for l in R3])
        for n in range(5):
            C = BASIS[n]
            dBd = lambda T: pl.addn([T[i][j] * dd(i, j) for i, j in ix])
            Bd = [pl.addn([B[i][j] * d[j] for j in R3]) for i in R3]
            Cd = [pl.addn([C[i][j] * d[j] for j in R3]) for i in R3]
            BdCd = pl.addn([Bd[i] * Cd[i] for i in R3])
            BC = pl.addn([B[i][j] * C[i][j] for i, j in ix])
            x = dBd(B) * dBd(C)
            # axisymmetric, transverse and in-plane projections of a traceless symmetric tensor
            out['SE', m, n] = F(20, 3) * PI * a ** 3 * (F(3, 2) * f(XM) * x + 2 * f(YM) * (BdCd - x)
                                                       + f(ZM) * (BC - 2 * BdCd + x / 2))
    return out


def pair_cell(pr, k1, k2, i, j):
    """Cell coupling load k1 of particle p to motion k2 of particle q; pr.b(x, y) gives the
    tensors with x first; pr.first is True when p comes before q in the bead order."""
    load = {'U': 'F', 'O': 'T', 'E': 'S', 'B': 'F', 'H': 'F'}
    mot = {'U': 'U', 'O': 'O', 'E': 'E', 'B': 'U', 'H': 'U'}
    l, m = load[k1], mot[k2]
    if l + m in ('FU', 'TO', 'SE'):
        return pr.pq[l + m, i, j] if pr.first else pr.qp[l + m, j, i]
    if l + m in ('TU', 'SU', 'SO'):
        return pr.pq[l + m, i, j]
    # F-O, F-E, T-E: reciprocal of the other particle's T-U, S-U, S-O
    back = {'FO': 'TU', 'FE': 'SU', 'TE': 'SO'}[l + m]
    return pr.qp[back, j, i]


class Pair:
    def __init__(self, R, a1, a2, first=True):
        """R = x_q - x_p (Polys), radii of p and q."""
        s = pl.power(R[0] ** 2 + R[1] ** 2 + R[2] ** 2, F(1, 2))
        d = [x / s for x in R]
        sd = 2 * s / (a1 + a2)
        self.first = first
        self.pq = res_tensors(1, d, sd, a2 / a1, a1)
        self.qp = res_tensors(1, [-x for x in d], sd, a1 / a2, a2)


def table_elem(seed):
    def get(name, idx):
        if name == 'sdash':
            return SDV[idx[0]]
        if name == 'lamr':
            return LAMV[idx[0]]
        return None
    return get


TENV = {'nsd': float(len(SDV)), 'nl': float(len(LAMV))}

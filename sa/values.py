"""Abstract containers: arrays as index functions, stores, sequences."""
from fractions import Fraction as F
from . import poly as pl
from .facts import Facts
from .poly import (Poly, Cond, P, ZERO, ONE, TRUE, FALSE, c_and, c_not, c_or, cmp_ge, cmp_gt,
                   cmp_eq, ite, sym, opaque, opaque_cond, Mapper)


HITS = {}            # store sites that contributed to the reads of the current query

CUR = [Facts()]      # facts in force for the computation in progress


class OpaqueV:
    """A non-scalar value the analysis does not interpret."""
    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return "OpaqueV(%s)" % self.reason


class _Unbound:
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


class IteV:
    """Gated choice between two values that cannot be merged structurally."""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "IteV(%r, %r, %r)" % (self.c, self.a, self.b)


class SymStr:
    """String with symbolic parts."""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                out.extend(p.parts)
            else:
                out.append(p)
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            else:
                m.append(p)
        self.parts = tuple(m)

    def __eq__(self, o):
        return isinstance(o, SymStr) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "SymStr%r" % (self.parts,)


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Ref:
    """Reference to mutable heap content."""
    __slots__ = ("id", "kind")
    _n = 0

    def __init__(self, kind):
        Ref._n += 1
        self.id = Ref._n
        self.kind = kind

    def __repr__(self):
        return "<%s #%d>" % (self.kind, self.id)


class ViewRef:
    """Basic-slice view of an array Ref.  dims: per base dimension
    ('fix', Poly) or ('sl', start Poly, step int, length Poly)."""
    def __init__(self, ref, dims):
        self.ref, self.dims = ref, dims

    @property
    def shape(self):
        return tuple(d[3] for d in self.dims if d[0] == 'sl')

    def to_base(self, idx):
        out, k = [], 0
        for d in self.dims:
            if d[0] == 'fix':
                out.append(d[1])
            else:
                out.append(d[1] + idx[k] * d[2])
                k += 1
        return tuple(out)


# --------------------------------------------------------------------------
# generic merge / substitution on values

def merge(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, bool):
        a = pl.C(a)
    if isinstance(b, bool):
        b = pl.C(b)
    if isinstance(a, Cond) and isinstance(b, Poly):
        a = P(a)
    if isinstance(b, Cond) and isinstance(a, Poly):
        b = P(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return c_or(c_and(c, a), c_and(c_not(c), b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.shape == b.shape:
        return MergeArr(c, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and OF_LIST[0]:
        # arrays made from lists of different lengths
        la, lb = list_rows(a), list_rows(b)
        if la is not None and lb is not None:
            r = OF_LIST[0](merge(c, la, lb))
            if r is not None:
                return r
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and a == b:
        return a
    if isinstance(a, (str, type(None))) and a == b:
        return a
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return a
    if isinstance(a, ViewRef) and isinstance(b, ViewRef) and a.ref is b.ref and a.dims == b.dims:
        return a
    if isinstance(a, ListC) and isinstance(b, ListC):
        if a.parts == b.parts:
            return a
        # common prefix + differing concrete suffixes of equal length
        if a.concrete() is not None and b.concrete() is not None:
            x, y = a.concrete(), b.concrete()
            if len(x) == len(y):
                return ListC.of([merge(c, i, j) for i, j in zip(x, y)])
        # common prefix of parts; remainder becomes guarded comps with no variables
        n = 0
        while n < len(a.parts) and n < len(b.parts) and _same_part(a.parts[n], b.parts[n]):
            n += 1
        pa, pb = list(a.parts[n:]), list(b.parts[n:])
        pre = list(a.parts[:n])
        # items parts may share a prefix
        if pa and pb and pa[0][0] == 'items' and pb[0][0] == 'items':
            k = 0
            while k < len(pa[0][1]) and k < len(pb[0][1]) and _same_item(pa[0][1][k], pb[0][1][k]):
                k += 1
            if k:
                pre.append(('items', pa[0][1][:k]))
                pa[0] = ('items', pa[0][1][k:])
                pb[0] = ('items', pb[0][1][k:])
                pa = [x for x in pa if x[0] != 'items' or x[1]]
                pb = [x for x in pb if x[0] != 'items' or x[1]]
        elif pre and pre[-1][0] == 'items':
            pass
        return ListC(tuple(pre) + tuple(_guard_part(p, c) for p in pa) +
                     tuple(_guard_part(p, c_not(c)) for p in pb))
    return IteV(c, a, b)


def _same_item(x, y):
    if x is y:
        return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        return x == y
    if isinstance(x, Arr) and isinstance(y, Arr) and OF_LIST[0] and x.shape == y.shape:
        ix = x.indices()
        return ix is not None and all(_same_item(x.get(i), y.get(i)) for i in ix)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(_same_item(i, j) for i, j in zip(x, y))
    return False


def _same_part(p, q):
    if p == q:
        return True
    if not OF_LIST[0] or p[0] != q[0]:
        return False
    if p[0] == 'items':
        return len(p[1]) == len(q[1]) and all(_same_item(x, y) for x, y in zip(p[1], q[1]))
    if p[0] == 'comp':
        return (not p[1].vars and not q[1].vars and p[1].guard == q[1].guard and len(p[2]) == len(q[2])
                and all(g == h and _same_item(x, y) for (g, x), (h, y) in zip(p[2], q[2])))
    return False


OF_LIST = [None]       # list -> array, while lists with guarded members are taken apart


def list_rows(a):
    """An array as the list of its entries along the first axis."""
    if a.listc is not None:
        return a.listc
    if a.rows is not None:
        return a.rows
    n = a.shape[0].as_int()
    if n is None:
        return None
    if a.ndim == 1:
        a.rows = ListC.of([a.get((P(k),)) for k in range(n)])
    else:
        a.rows = ListC.of([Arr(a.shape[1:], lambda idx, k=k: a.get((P(k),) + tuple(idx))) for k in range(n)])
    return a.rows


def _guard_part(p, g):
    if p[0] == 'items':
        return ('comp', Domain([], TRUE), tuple((g, v) for v in p[1]))
    if p[0] == 'comp':
        d = p[1]
        return ('comp', d, tuple((c_and(g, gg), v) for gg, v in p[2]))
    return p


def map_value(v, m):
    """Apply a poly.Mapper to every scalar inside a value."""
    if isinstance(v, Poly):
        return m.poly(v)
    if isinstance(v, Cond):
        return m.cond(v)
    if isinstance(v, tuple):
        return tuple(map_value(x, m) for x in v)
    if isinstance(v, Arr):
        return MapArr(v, m)
    if isinstance(v, IteV):
        return merge(m.cond(v.c), map_value(v.a, m), map_value(v.b, m))
    if isinstance(v, SymStr):
        return SymStr([map_value(x, m) if not isinstance(x, str) else x for x in v.parts])
    if isinstance(v, RangeV):
        return RangeV(map_value(v.lo, m), map_value(v.hi, m), map_value(v.step, m))
    if isinstance(v, ListC):
        return v.mapped(m)
    return v


def subst_value(v, mp):
    if not mp:
        return v
    ids = {pl.atom_of(k).id: x for k, x in mp.items()}
    return map_value(v, Mapper(lambda at: ids.get(at.id)))


# --------------------------------------------------------------------------
# arrays

class Arr:
    sparse = False
    listc = None           # the list of unknown length it was made from
    rows = None            # its entries, once taken apart
    cuts = None

    def __init__(self, shape, fn, name=None):
        self.shape = tuple(P(s) for s in shape)
        self.fn = fn
        self.memo = {}
        self.name = name

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        idx = tuple(idx)
        key = (idx, CUR[0].uid)      # reads may be simplified under the current facts
        r = self.memo.get(key)
        if r is None:
            r = self._get(idx)
            self.memo[key] = r
        return r

    def _get(self, idx):
        return self.fn(idx)

    def cshape(self):
        """Concrete shape tuple of ints, or None."""
        out = []
        for s in self.shape:
            k = s.as_int()
            if k is None:
                return None
            out.append(k)
        return tuple(out)

    def indices(self):
        cs = self.cshape()
        if cs is None:
            return None
        out = [()]
        for n in cs:
            out = [o + (P(i),) for o in out for i in range(n)]
        return out

    def __repr__(self):
        return "%s%r" % (type(self).__name__, self.shape)


class MapArr(Arr):
    """Elementwise substitution under the index."""
    def __init__(self, base, m):
        Arr.__init__(self, [m.poly(s) for s in base.shape], None)
        self.base, self.m = base, m

    def _get(self, idx):
        return map_value(self.base.get(idx), self.m)


class MergeArr(Arr):
    def __init__(self, c, a, b):
        Arr.__init__(self, a.shape, None)
        self.c, self.a, self.b = c, a, b

    def _get(self, idx):
        return merge(self.c, self.a.get(idx), self.b.get(idx))


def base_arr(name, shape, pos=False, isint=False):
    if pos:
        pl.POS_ARRAYS.add(name)
    if isint:
        pl.INT_ARRAYS.add(name)
    return Arr(shape, lambda idx: pl.elem(name, idx), name=name)


LETS = {}


def let_arr(shape, terms):
    """Array of let-bound sums of products; terms(idx) -> [(p, q)].  Only for closed terms."""
    name = 'let:%d' % len(LETS)
    memo = {}

    def cell(idx):
        if idx not in memo:
            memo[idx] = terms(tuple(P(i) for i in idx))
        return memo[idx]
    LETS[name] = cell
    return base_arr(name, shape)


SCALAR_LETS = {}


def let_scalar(p):
    """Let-bound name of a closed term, one name per normal form."""
    if p not in SCALAR_LETS:
        SCALAR_LETS[p] = let_arr((), lambda idx: [(p, ONE)])
    return SCALAR_LETS[p].get(())


def const_arr(nested):
    """Python nested list of values -> Arr."""
    def shp(x):
        if isinstance(x, (list, tuple)):
            if not x:
                return (0,)
            return (len(x),) + shp(x[0])
        return ()
    sh = shp(nested)

    def get(idx):
        x = nested
        for n, i in enumerate(idx):
            k = i.as_int()
            if k is None:
                return _select(nested, idx, sh)
            x = x[k]
        return x
    return Arr(sh, get)


def _select(nested, idx, sh):
    """Element at symbolic index of a small concrete array."""
    if not idx:
        return nested
    i = idx[0]
    k = i.as_int()
    if k is not None:
        return _select(nested[k], idx[1:], sh[1:])
    r = _select(nested[sh[0] - 1], idx[1:], sh[1:])
    for n in range(sh[0] - 2, -1, -1):
        r = merge(cmp_eq(i - n), _select(nested[n], idx[1:], sh[1:]), r)
    return r


class Upd:
    """One (possibly quantified) region update.

    vars: [(sym, lo, hi)] iteration variables; guard: Cond over them; starts,
    widths: region; val(local_idx) -> value (may mention vars); mode 'set' or
    'add' (add: contributes val to what is already there, once per iteration)."""
    __slots__ = ("vars", "guard", "starts", "widths", "val", "mode", "where", "order")

    def __init__(self, vars_, guard, starts, widths, val, mode='set', where=None):
        self.vars, self.guard, self.starts, self.widths = vars_, guard, starts, widths
        self.val, self.mode, self.where = val, mode, where


class Store(Arr):
    """Base array plus ordered updates; reads consult the latest first."""
    def __init__(self, interp, base, upds):
        Arr.__init__(self, base.shape, None)
        self.interp = interp
        self.base = base
        self.upds = upds

    def _get(self, idx):
        return self._read(idx, len(self.upds) - 1)

    def _read(self, idx, n):
        facts = CUR[0]
        pending = []       # (cond, value, mode)
        res = None
        while n >= 0:
            u = self.upds[n]
            n -= 1
            hit = match_update(u, idx, facts)
            if hit is None:
                continue
            if HITS is not None and u.where:
                HITS[u.where] = True
            cond, val, sumvars = hit
            if cond is TRUE and u.mode == 'set' and not sumvars:
                res = val() if callable(val) else val
                break
            pending.append((cond, val, u.mode, sumvars))
        if res is None:
            res = self.base.get(idx)
        for cond, val, mode, sumvars in reversed(pending):
            v = val() if callable(val) else val
            if sumvars:
                if mode == 'set':
                    res = opaque("overlapping writes in a loop")
                    continue
                res = _plus(res, pl.mk_sum(sumvars, cond, P(v)))
            elif mode == 'add':
                res = _plus(res, merge(cond, v, ZERO))
            else:
                res = merge(cond, v, res)
        return res


def _plus(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a + b
    return opaque("non-numeric accumulate")


def match_update(u, idx, facts):
    """Can update u touch cell idx?  None if not; else (cond, value thunk, sumvars)."""
    if not u.vars:
        cond = u.guard
        loc = []
        for i, s, w in zip(idx, u.starts, u.widths):
            d = i - s
            dc, wc = d.as_int(), (w.as_int() if w is not None else None)
            loc.append(d)
            if w is None:
                continue
            if dc is not None and wc is not None:
                if 0 <= dc < wc:
                    continue
                return None
            c = c_and(cmp_ge(d), cmp_gt(w - d))
            dec = facts.decide(c)
            if dec is False:
                return None
            if dec is None:
                cond = c_and(cond, c)
        dec = facts.decide(cond)
        if dec is False:
            return None
        if dec is True:
            cond = TRUE
        loc = tuple(loc)
        return cond, (lambda: u.val(loc)), []
    # quantified update: solve the region start for the variables
    sol = {}
    vids = {pl.atom_of(v).id: v for v, _, _ in u.vars}
    conds = []
    loc = [None] * len(idx)
    todo = list(range(len(idx)))
    progress = True
    while todo and progress:
        progress = False
        for d in list(todo):
            s = pl.subst(u.starts[d], sol) if sol else u.starts[d]
            vs = [v for a, v in vids.items() if a in pl.free_of(s)]
            if not vs:
                df = idx[d] - s
                w = u.widths[d]
                if w is not None:
                    w = pl.subst(w, sol) if sol else w
                    conds.append(c_and(cmp_ge(df), cmp_gt(w - df)))
                loc[d] = df
                todo.remove(d)
                progress = True
                continue
            if len(vs) > 1:
                continue
            v = vs[0]
            a = pl.atom_of(v)
            m = F(0)
            rest = {}
            ok = True
            for mono, c in s.t.items():
                if mono == ((a.id, 1),):
                    m = c
                elif a.id in [x for x, _ in mono] or a.id in pl.free_of(Poly({mono: F(1)})):
                    ok = False
                else:
                    rest[mono] = c
            w = u.widths[d]
            wi = w.as_int() if w is not None else None
            if not ok or m.denominator != 1 or m <= 0 or wi is None or wi > m:
                return (TRUE, (lambda: opaque("unsolvable update region")), [])
            df = idx[d] - Poly(rest)
            q = pl.floordiv(df, P(m))
            sol[v] = q
            loc[d] = df - q * P(m)
            conds.append(cmp_gt(P(wi) - loc[d]))
            todo.remove(d)
            progress = True
    if todo:
        return (TRUE, (lambda: opaque("unsolvable update region")), [])
    unsolved = []
    for v, lo, hi in u.vars:
        lo2, hi2 = pl.subst(lo, sol), pl.subst(hi, sol)
        if v in sol:
            conds.append(c_and(cmp_ge(sol[v] - lo2), cmp_gt(hi2 - sol[v])))
        else:
            unsolved.append((v, lo2, hi2))
    g = pl.subst_cond(u.guard, sol)
    cond = TRUE
    for c in conds + [g]:
        dec = facts.decide(c)
        if dec is False:
            return None
        if dec is None:
            cond = c_and(cond, c)
    if cond is not TRUE:
        dec = facts.decide(cond)
        if dec is False:
            return None
        if dec is True:
            cond = TRUE
    loc = tuple(loc)

    def val():
        return subst_value(u.val(loc), sol)
    return cond, val, unsolved


# --------------------------------------------------------------------------
# sequences

class Domain:
    """Iteration space: vars [(sym, lo, hi)] with a guard."""
    def __init__(self, vars_, guard):
        self.vars, self.guard = list(vars_), guard

    def canon(self):
        mp, out = {}, []
        for k, (v, lo, hi) in enumerate(self.vars):
            out.append((pl.subst(lo, mp), pl.subst(hi, mp)))
            mp[v] = sym('@%d' % k, isint=True)
        return tuple(out), pl.subst_cond(self.guard, mp), mp

    def freshen(self):
        """(vars, guard, mapping) with fresh variables."""
        mp, vs = {}, []
        for v, lo, hi in self.vars:
            w = pl.fresh('k', isint=True)
            vs.append((w, pl.subst(lo, mp), pl.subst(hi, mp)))
            mp[v] = w
        return vs, pl.subst_cond(self.guard, mp), mp


POSINFO = {}     # position symbol -> (signature, {canonical var: fresh var}, item index)
LENINFO = {}     # length Poly -> ListC


class ListC:
    """List content: parts ('items', tuple) | ('comp', Domain, ((guard, value),...))."""
    def __init__(self, parts):
        self.parts = tuple(p for p in parts if not (p[0] == 'items' and not p[1]))

    @staticmethod
    def of(items):
        return ListC((('items', tuple(items)),))

    def concrete(self):
        out = []
        for p in self.parts:
            if p[0] != 'items':
                return None
            out.extend(p[1])
        return out

    def mapped(self, m):
        parts = []
        for p in self.parts:
            if p[0] == 'items':
                parts.append(('items', tuple(map_value(v, m) for v in p[1])))
            elif p[0] == 'comp':
                d = p[1]
                nd = Domain([(v, m.poly(lo), m.poly(hi)) for v, lo, hi in d.vars],
                            m.cond(d.guard))
                parts.append(('comp', nd, tuple((m.cond(g), map_value(v, m)) for g, v in p[2])))
            else:
                parts.append(p)
        return ListC(parts)

    def plus(self, other):
        a, b = list(self.parts), list(other.parts)
        if a and b and a[-1][0] == 'items' and b[0][0] == 'items':
            a[-1] = ('items', a[-1][1] + b[0][1])
            b = b[1:]
        return ListC(a + b)

    @staticmethod
    def part_len(p):
        if p[0] == 'items':
            return P(len(p[1]))
        if p[0] == 'comp':
            tot = ZERO
            for g, _ in p[2]:
                tot = tot + pl.mk_sum(list(p[1].vars), c_and(p[1].guard, g), ONE)
            return tot
        return opaque("length of unsummarised list")

    def length(self):
        tot = ZERO
        for p in self.parts:
            tot = tot + ListC.part_len(p)
        if tot.as_int() is None:
            LENINFO[tot] = self
        return tot

    @staticmethod
    def regular(p):
        """Comp part whose element is a plain function of its position."""
        d = p[1]
        return (len(d.vars) == 1 and d.guard is TRUE and all(g is TRUE for g, _ in p[2]))

    @staticmethod
    def sig(p):
        dom, g, mp = p[1].canon()
        return (dom, g, tuple(pl.subst_cond(gg, mp) for gg, _ in p[2]))

    def at(self, k, facts):
        start = ZERO
        for p in self.parts:
            # exactly at the start of a part that is certainly there
            if start == k and k.as_int() is None:
                if p[0] == 'items':
                    return p[1][0]
                if p[0] == 'comp' and not p[1].vars and len(p[2]) == 1 and facts.decide(
                        c_and(p[1].guard, p[2][0][0])) is True:
                    return p[2][0][1]
            start = start + ListC.part_len(p)
        start = ZERO
        res = []
        for p in self.parts:
            n = ListC.part_len(p)
            off = k - start
            if not off.t and p[0] == 'comp' and not p[1].vars and len(p[2]) == 1 and facts.decide(
                    c_and(p[1].guard, p[2][0][0])) is True:
                return p[2][0][1]
            start = start + n
            if p[0] == 'comp':
                a = pl.is_atom(off)
                if a is not None and a.id in POSINFO:
                    sig, fm, t = POSINFO[a.id]
                    if sig == ListC.sig(p):
                        mp = {v: fm[n_] for n_, (v, _, _) in enumerate(p[1].vars)}
                        return subst_value(p[2][t][1], mp)
            inr = c_and(cmp_ge(off), cmp_gt(n - off))
            dec = facts.decide(inr)
            if dec is False:
                continue
            if p[0] == 'items':
                items = p[1]
                ki = off.as_int()
                if ki is not None:
                    v = items[ki]
                else:
                    v = items[-1]
                    for t in range(len(items) - 2, -1, -1):
                        v = merge(cmp_eq(off - t), items[t], v)
            elif p[0] == 'comp' and ListC.regular(p):
                d = p[1]
                w, lo, hi = d.vars[0]
                m = len(p[2])
                if m == 1:
                    v = subst_value(p[2][0][1], {w: lo + off})
                else:
                    q, r = pl.floordiv(off, P(m)), pl.mod(off, P(m))
                    vs = [subst_value(x, {w: lo + q}) for _, x in p[2]]
                    ri = r.as_int()
                    if ri is not None:
                        v = vs[ri]
                    else:
                        v = vs[-1]
                        for t in range(m - 2, -1, -1):
                            v = merge(cmp_eq(r - t), vs[t], v)
            else:
                v = nth(p, off) if len(self.parts) == 1 else None
                if v is not None:
                    return v
                v = OpaqueV("element of irregular list")
            if dec is True:
                res.append((TRUE, v))
                break
            res.append((inr, v))
        if not res:
            return OpaqueV("list index out of known range")
        out = res[-1][1]
        for c, v in reversed(res[:-1]):
            out = merge(c, v, out)
        return out


def nth(p, off):
    """Element number `off` of a filtered list: the operation is kept by name."""
    k = off.as_int()
    if k is None or k < 0 or len(p[2]) != 1 or not isinstance(p[2][0][1], Poly):
        return None
    mp, dom = {}, []
    for n, (v, lo, hi) in enumerate(p[1].vars):
        dom.append((pl.subst(lo, mp), pl.subst(hi, mp)))
        mp[v] = sym('@n%d' % n, isint=True)
    g = pl.subst_cond(c_and(p[1].guard, p[2][0][0]), mp)
    val = pl.subst(p[2][0][1], mp)
    return pl.app('nth', P(k), tuple(dom), g, val, isint=val.isint)


class CooArr(Arr):
    """Sparse matrix given by parallel row / column / data sequences."""
    sparse = True

    def __init__(self, interp, shape, data, rows, cols):
        Arr.__init__(self, shape, None)
        self.interp = interp
        self.data, self.rows, self.cols = data, rows, cols    # ListC each

    def transpose(self):
        return CooArr(self.interp, self.shape[::-1], self.data, self.cols, self.rows)

    def entries(self, i, by_row=True):
        """Nonzeros of row (column) i: [(cond, other index, value)] or None."""
        facts = CUR[0]
        keyl, othl = (self.rows, self.cols) if by_row else (self.cols, self.rows)
        out = []
        start = ZERO
        for p in keyl.parts:
            n = ListC.part_len(p)
            if p[0] == 'items':
                for t, v in enumerate(p[1]):
                    if not isinstance(v, Poly):
                        return None
                    c = facts.cond(cmp_eq(v - i))
                    if c is not FALSE:
                        out.append((c, othl.at(start + t, facts), self.data.at(start + t, facts)))
            elif p[0] == 'comp' and ListC.regular(p):
                w, lo, hi = p[1].vars[0]
                m = len(p[2])
                for t, (_, v) in enumerate(p[2]):
                    if not isinstance(v, Poly):
                        return None
                    u = Upd([(w, lo, hi)], TRUE, (v,), (ONE,), lambda loc: ZERO)
                    # solve v(w) == i
                    a = pl.atom_of(w)
                    coef = v.t.get(((a.id, 1),))
                    rest = Poly({mo: c for mo, c in v.t.items() if mo != ((a.id, 1),)})
                    if coef is None or a.id in pl.free_of(rest) or coef.denominator != 1 or coef <= 0:
                        return None
                    df = i - rest
                    q = pl.floordiv(df, P(coef))
                    c = c_and(cmp_eq(df - q * P(coef)), cmp_ge(q - lo), cmp_gt(hi - q))
                    c = facts.cond(c)
                    if c is not FALSE:
                        k = start + (q - lo) * m + t
                        out.append((c, othl.at(k, facts), self.data.at(k, facts)))
            else:
                return None
            start = start + n
        for c, o, d in out:
            if not isinstance(o, Poly) or not isinstance(d, Poly):
                return None
        return out

    def _get(self, idx):
        es = self.entries(idx[0])
        if es is None:
            return opaque("sparse pattern not understood")
        tot = ZERO
        for c, o, d in es:
            tot = tot + ite(CUR[0].cond(c_and(c, cmp_eq(o - idx[1]))), d, ZERO)
        return tot


class LinArr(Arr):
    """Result of a linear-algebra primitive kept symbolic (inverse, solve)."""
    def __init__(self, op, ops, shape):
        Arr.__init__(self, shape, None)
        self.op, self.ops = op, ops
        self.key = (op,) + tuple(arr_key(o) for o in ops)
        LIN[self.key] = self

    def _get(self, idx):
        return pl.app('lin', self.key, *idx)


LIN = {}
_AK = {}
_AKN = [0]
_IX = [sym('ix%d' % k, isint=True) for k in range(6)]


def arr_key(a):
    """Structural key of an array: its element at generic indices."""
    k = _AK.get(id(a))
    if k is not None:
        return k[0]
    try:
        e = a.get(tuple(_IX[:a.ndim]))
    except Exception:
        e = None
    if isinstance(e, Poly) and not e.bad:
        key = ('arr', a.shape, e)
    else:
        _AKN[0] += 1
        key = ('arrid', _AKN[0])
    ARRS[key] = a
    _AK[id(a)] = (key, a)
    return key


ARRS = {}

"""Models of Python operators, builtins and the numpy/scipy vocabulary."""
import ast
import itertools
import math
import re
from fractions import Fraction as F
from . import poly as pl
from . import values as vl
from .poly import (Poly, Cond, P, ZERO, ONE, TRUE, FALSE, c_and, c_not, c_or, cmp_ge, cmp_gt,
                   cmp_eq, ite, sym, opaque, opaque_cond)
from .values import (Arr, Ref, ViewRef, OpaqueV, UNBOUND, IteV, SymStr, RangeV, SliceV, ListC,
                     Domain, Store, Upd, merge, subst_value, base_arr, const_arr, CooArr, LinArr)

PI = sym('pi', pos=True)


class ConcatArr(Arr):
    def __init__(self, interp, parts, axis):
        sh = list(parts[0].shape)
        tot = ZERO
        self.starts = []
        for p in parts:
            self.starts.append(tot)
            tot = tot + p.shape[axis]
        sh[axis] = tot
        Arr.__init__(self, sh, None)
        self.parts, self.axis = parts, axis
        self.cuts = {axis: tuple(self.starts) + (tot,)}

    def _get(self, idx):
        facts = vl.CUR[0]
        k = idx[self.axis]
        res = []
        for p, s in zip(self.parts, self.starts):
            off = k - s
            n = p.shape[self.axis]
            oc, nc = off.as_int(), n.as_int()
            if oc is not None and nc is not None:
                if not (0 <= oc < nc):
                    continue
                c = TRUE
            else:
                c = facts.cond(c_and(cmp_ge(off), cmp_gt(n - off)))
            if c is FALSE:
                continue
            j = idx[:self.axis] + (off,) + idx[self.axis + 1:]
            res.append((c, p, j))
            if c is TRUE:
                break
        if not res:
            return opaque("index outside concatenated array")
        out = res[-1][1].get(res[-1][2])
        for c, p, j in reversed(res[:-1]):
            out = merge(c, p.get(j), out)
        return out


class UnknownArr(Arr):
    def __init__(self, reason, shape):
        Arr.__init__(self, shape, lambda idx: opaque(reason))


def num(x):
    """Scalar element as Poly."""
    if isinstance(x, Poly):
        return x
    if isinstance(x, Cond):
        return P(x)
    if isinstance(x, bool):
        return P(x)
    if isinstance(x, IteV):
        a, b = num(x.a), num(x.b)
        return ite(x.c, a, b)
    if isinstance(x, Arr) and x.ndim == 0:
        return num(x.get(()))
    if isinstance(x, Arr) and all(s == ONE for s in x.shape):
        return num(x.get(tuple(ZERO for _ in x.shape)))
    if isinstance(x, OpaqueV):
        return opaque(x.reason)
    return opaque("non-numeric value %s" % type(x).__name__)


class NumpyModel:
    # -- conversion --------------------------------------------------------
    def arr(self, v):
        """Value -> Arr (None if not array-like)."""
        if isinstance(v, Arr):
            return v
        if isinstance(v, (Poly, Cond)):
            return Arr((), lambda idx: v)
        if isinstance(v, (Ref, ViewRef)):
            if isinstance(v, Ref) and v.kind in ('dict', 'obj'):
                return None
            return self.arr(self.unbox(v))
        if isinstance(v, ListC):
            return self.list_arr(v)
        if isinstance(v, tuple):
            return self.list_arr(ListC.of(v))
        if isinstance(v, RangeV):
            r = self.regular_iter(v)
            if r is None:
                return None
            return Arr((r[0],), lambda idx: r[1](idx[0]))
        if isinstance(v, IteV):
            a, b = self.arr(v.a), self.arr(v.b)
            if a is not None and b is not None and a.shape == b.shape:
                return merge(v.c, a, b)
            return None
        if isinstance(v, (str, SymStr)) or v is None:
            return None
        return None

    def list_arr(self, c):
        conc = c.concrete()
        if conc is not None:
            items = []
            for x in conc:
                a = self.arr(x)
                items.append(a if a is not None else x)
            if not items:
                return Arr((0,), lambda idx: opaque("element of empty array"))
            if all(isinstance(a, Arr) for a in items):
                sh = items[0].shape
                for a in items[1:]:
                    if a.shape != sh:
                        if len(a.shape) != len(sh):
                            return None
            else:
                sh = ()

            def get(idx):
                k = idx[0].as_int()
                if k is not None:
                    if not (-len(items) <= k < len(items)):
                        return opaque("index out of range")
                    x = items[k]
                    return x.get(idx[1:]) if isinstance(x, Arr) else x
                r = None
                for t in range(len(items) - 1, -1, -1):
                    x = items[t]
                    x = x.get(idx[1:]) if isinstance(x, Arr) else x
                    r = x if r is None else merge(cmp_eq(idx[0] - t), x, r)
                return r
            a = Arr((len(items),) + tuple(sh), get)
            a.rows = ListC.of(items) if self.split_guarded else None
            return a
        if any(p[0] not in ('items', 'comp') for p in c.parts):
            return None
        # symbolic length: element shape from the first element
        sh = None
        for p in c.parts:
            v = p[1][0] if p[0] == 'items' else (p[2][0][1] if p[2] else None)
            if v is None:
                continue
            a = self.arr(v)
            if a is None:
                return None
            sh = a.shape
            break

        def get(idx):
            v = c.at(idx[0], vl.CUR[0])
            if isinstance(v, OpaqueV):
                return opaque(v.reason)
            a = self.arr(v)
            if a is None:
                return opaque("element of list")
            return a.get(idx[1:])
        a = Arr((c.length(),) + tuple(sh), get)
        a.listc = c
        return a

    def gseq(self, a):
        """[(guard, position, entry)] of a sequence with few, individually guarded members; else None."""
        if not self.split_guarded:
            return None
        if isinstance(a, Arr):
            lc = a.listc
            if lc is None:
                n = a.shape[0].as_int()
                if n is not None and n <= self.split_guarded:
                    lc = vl.list_rows(a)
                else:
                    lc = vl.LENINFO.get(a.shape[0])
        else:
            lc, a = a, None
        if lc is None:
            return None
        out, start = [], ZERO
        for p in lc.parts:
            if p[0] == 'items':
                ent = [(TRUE, v) for v in p[1]]
            elif p[0] == 'comp':
                ent = self.cases(p[1].vars, p[1].guard, p[2], None)
            else:
                return None
            if ent is None or len(out) + len(ent) > self.split_guarded:
                return None
            for g, v in ent:
                if a is not None and a.listc is None:
                    saved = self.facts
                    if g is not TRUE:
                        self.facts = saved.extend(g)
                    if a.ndim == 1:
                        v = a.get((start,))
                    else:
                        row = [a.get((start, *ix)) for ix in Arr(a.shape[1:], None).indices()]
                        v = self.reshape(const_arr(row), list(a.shape[1:])) if a.ndim > 2 else const_arr(row)
                    self.facts = saved
                out.append((g, start, v))
                start = start + ite(g, ONE, ZERO)
        return out

    def guarded_list(self, entries):
        return ListC(tuple(('items', (v,)) if g is TRUE else ('comp', Domain([], TRUE), ((g, v),)) for g, v in entries))

    def to_list(self, v):
        """Value -> ListC (None if not list-like)."""
        if isinstance(v, Ref) and v.kind == 'list':
            c = self.content(v)
            return c if isinstance(c, ListC) else None
        if isinstance(v, ListC):
            return v
        if isinstance(v, tuple):
            return ListC.of(v)
        c = self.concrete_iter(v)
        if c is not None:
            return ListC.of(c)
        u = self.unbox(v)
        if isinstance(u, Arr):
            if getattr(u, 'listc', None) is not None:
                return u.listc
            if isinstance(u, ConcatArr) and u.axis == 0:
                out = ListC(())
                for p in u.parts:
                    l = self.to_list(p)
                    if l is None:
                        return None
                    out = out.plus(l)
                return out
        sp = None
        try:
            sp = self.symbolic_iter(v, None)
        except Exception:
            sp = None
        if sp is None:
            return None
        parts = []
        for seg in sp.segs:
            if seg[0] == 'items':
                parts.append(seg)
            else:
                _, vars_, g, items, pos = seg
                parts.append(('comp', Domain(vars_, g), tuple((ig, self.deep(x)) for ig, x in items)))
        return ListC(parts)

    # -- operators ---------------------------------------------------------
    def scalar_op(self, op, a, b):
        a, b = num(a), num(b)
        t = type(op)
        if t is ast.Add:
            return a + b
        if t is ast.Sub:
            return a - b
        if t is ast.Mult:
            lim = self.bind_mul
            if lim is not None and len(a.t) * len(b.t) > lim and not a.bad and not b.bad:
                a, b = self._named(a), self._named(b)
            return a * b
        if t is ast.Div:
            if self.bind_mul is not None and len(b.t) > 1 and not b.bad:
                b = self._named(b)
            return a / b
        if t is ast.FloorDiv:
            return pl.floordiv(a, b)
        if t is ast.Mod:
            return pl.mod(a, b)
        if t is ast.Pow:
            if self.bind_norms is not None and len(a.t) > self.bind_norms and not a.bad and (
                    self.bind_mul is None or pl.has_elem(a)):
                a = vl.let_scalar(a)
            return scalar_pow(a, b)
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
            return opaque("bit operation")
        return opaque("operator %s" % t.__name__)

    def _named(self, p):
        """A sum that multiplies another one gets a name unless it is constant."""
        if len(p.t) <= 1 or not pl.has_elem(p):
            return p
        return vl.let_scalar(p)

    def binop(self, op, a, b, node=None):
        if isinstance(a, IteV):
            return self.lift1(a, lambda x: self.binop(op, x, b, node))
        if isinstance(b, IteV):
            return self.lift1(b, lambda x: self.binop(op, a, x, node))
        if isinstance(a, OpaqueV):
            return OpaqueV(a.reason)
        if isinstance(b, OpaqueV):
            return OpaqueV(b.reason)
        t = type(op)
        if isinstance(a, (Poly, Cond)) and isinstance(b, (Poly, Cond)):
            if t is ast.BitAnd:
                return c_and(self.truth(a), self.truth(b))
            if t is ast.BitOr:
                return c_or(self.truth(a), self.truth(b))
            return self.scalar_op(op, a, b)
        if isinstance(a, (str, SymStr)):
            if t is ast.Add and isinstance(b, (str, SymStr)):
                return self.mkstr([a, b])
            if t is ast.Mod:
                return self.str_percent(a, b)
            if t is ast.Mult and isinstance(a, str) and isinstance(b, Poly) and b.as_int() is not None:
                return a * b.as_int()
            return self.opq('string operator', node)
        if isinstance(a, tuple) and isinstance(b, tuple) and t is ast.Add:
            return a + b
        al = a if isinstance(a, ListC) else (self.content(a) if isinstance(a, Ref) and a.kind == 'list' else None)
        bl = b if isinstance(b, ListC) else (self.content(b) if isinstance(b, Ref) and b.kind == 'list' else None)
        if al is not None and bl is not None and t is ast.Add:
            return al.plus(bl)
        if t is ast.Mult and (al is not None or bl is not None) and (
                isinstance(a, Poly) or isinstance(b, Poly)):
            l, n = (al, b) if al is not None else (bl, a)
            return self.repeat_list(l, n)
        if t is ast.Mult and isinstance(a, tuple) and isinstance(b, Poly) and b.as_int() is not None:
            return a * b.as_int()
        x, y = self.arr(a), self.arr(b)
        if x is None or y is None:
            return self.opq('operator %s on %s and %s' % (t.__name__, type(a).__name__, type(b).__name__), node)
        if t is ast.MatMult or (t is ast.Mult and (x.sparse or y.sparse) and x.ndim == 2 and y.ndim >= 1):
            return self.matmul(x, y)
        if t in (ast.BitAnd, ast.BitOr):
            f = c_and if t is ast.BitAnd else c_or
            return self.ew2(lambda p, q: f(self.truth(p), self.truth(q)), x, y)
        if x.sparse and y.ndim == 0 and t in (ast.Mult, ast.Div) or \
                y.sparse and x.ndim == 0 and t is ast.Mult:
            s, k = (x, y) if x.sparse else (y, x)
            if isinstance(s, CooArr):
                kk = num(k.get(()))
                if t is ast.Div:
                    kk = ONE / kk
                m = []
                parts = []
                for p in s.data.parts:
                    if p[0] == 'items':
                        parts.append(('items', tuple(num(v) * kk for v in p[1])))
                    else:
                        parts.append(('comp', p[1], tuple((g, num(v) * kk) for g, v in p[2])))
                return CooArr(self, s.shape, ListC(parts), s.rows, s.cols)
        r = self.ew2(lambda p, q: self.scalar_op(op, p, q), x, y)
        return r

    def repeat_list(self, l, n):
        k = n.as_int()
        c = l.concrete()
        if k is not None and c is not None and k * len(c) <= 4000:
            return ListC.of(list(c) * k)
        if c is not None:
            v = pl.fresh('r', isint=True)
            return ListC((('comp', Domain([(v, ZERO, n)], TRUE), tuple((TRUE, self.deep(x)) for x in c)),))
        if k is not None and k <= 8:
            return ListC(l.parts * k)
        return ListC((('unknown',),))

    def str_percent(self, a, b):
        if not isinstance(a, str):
            return SymStr([a, ('percent', self.freeze(b))])
        args = list(b) if isinstance(b, tuple) else [b]
        import re
        out, pos, k = [], 0, 0
        for m in re.finditer(r'%[-+0-9.]*[a-zA-Z]', a):
            out.append(a[pos:m.start()])
            if k < len(args):
                out.append(self.to_str(args[k], m.group(0)))
            k += 1
            pos = m.end()
        out.append(a[pos:])
        return self.mkstr(out)

    def bshape(self, a, b):
        n = max(a.ndim, b.ndim)
        sa = (ONE,) * (n - a.ndim) + a.shape
        sb = (ONE,) * (n - b.ndim) + b.shape
        out = []
        for x, y in zip(sa, sb):
            if x == ONE:
                out.append(y)
            elif y == ONE or x == y:
                out.append(x)
            else:
                xi, yi = x.as_int(), y.as_int()
                if xi is not None and yi is not None and xi != yi:
                    return None
                out.append(x)
        return tuple(out), sa, sb

    def ew2(self, f, a, b):
        s = self.bshape(a, b)
        if s is None:
            why = self.note('shape mismatch')
            return UnknownArr(why, a.shape)
        sh, sa, sb = s
        if not sh:
            return f(a.get(()), b.get(()))
        n = len(sh)

        def get(idx):
            ia = tuple(ZERO if (sa[k] == ONE and sh[k] != ONE) else idx[k] for k in range(n))[n - a.ndim:]
            ib = tuple(ZERO if (sb[k] == ONE and sh[k] != ONE) else idx[k] for k in range(n))[n - b.ndim:]
            return f(a.get(ia), b.get(ib))
        r = Arr(sh, get)
        cuts = {}
        for src, ss in ((a, sa), (b, sb)):
            if src.cuts:
                for ax, c in src.cuts.items():
                    cuts.setdefault(ax + n - src.ndim, c)
        r.cuts = cuts or None
        return r

    def ew1(self, f, a):
        if a.ndim == 0:
            return f(a.get(()))
        r = Arr(a.shape, lambda idx: f(a.get(idx)))
        r.cuts = a.cuts
        return r

    bind_products = None
    bind_norms = None
    bind_mul = None

    def matmul(self, a, b):
        if isinstance(a, CooArr) and b.ndim in (1, 2):
            def get(idx):
                es = a.entries(idx[0])
                if es is None:
                    return opaque("sparse pattern not understood")
                tot = ZERO
                for c, o, d in es:
                    tot = tot + ite(c, d * num(b.get((o,) + idx[1:])), ZERO)
                return tot
            return Arr((a.shape[0],) + b.shape[1:], get)
        if isinstance(b, CooArr) and a.ndim in (1, 2):
            def get(idx):
                es = b.entries(idx[-1], by_row=False)
                if es is None:
                    return opaque("sparse pattern not understood")
                tot = ZERO
                for c, o, d in es:
                    tot = tot + ite(c, num(a.get(idx[:-1] + (o,))) * d, ZERO)
                return tot
            return Arr(a.shape[:-1] + (b.shape[1],), get)
        if a.ndim == 0 or b.ndim == 0:
            return self.ew2(lambda p, q: num(p) * num(q), a, b)
        if b.ndim == 1:
            bi = lambda k, idx: (k,)
            bsh = ()
        elif b.ndim == 2:
            bi = lambda k, idx: (k, idx[-1])
            bsh = (b.shape[1],)
        else:
            return UnknownArr(self.note('matmul of rank %d' % b.ndim), a.shape)
        n = a.shape[-1]
        m = b.shape[0]
        if n.as_int() is None and m.as_int() is not None:
            n = m
        if n.as_int() is not None and m.as_int() is not None and n != m:
            return UnknownArr(self.note('matmul shape mismatch'), a.shape[:-1] + bsh)
        ac = (a.cuts or {}).get(a.ndim - 1)
        bc = (b.cuts or {}).get(0)
        cuts = ac or bc

        def get(idx):
            la = idx[:a.ndim - 1]
            lb = idx[a.ndim - 1:]
            k = n.as_int()
            if k is not None and k <= 60:
                return pl.addn([num(a.get(la + (P(t),))) * num(b.get(bi(P(t), lb))) for t in range(k)])
            rngs = [(ZERO, n)]
            if cuts:
                rngs = [(cuts[t], cuts[t + 1]) for t in range(len(cuts) - 1)]
            tot = ZERO
            for lo, hi in rngs:
                v = pl.fresh('m', isint=True)
                saved = vl.CUR[0]
                vl.CUR[0] = saved.extend(cmp_ge(v - lo), cmp_gt(hi - v))
                try:
                    body = num(a.get(la + (v,))) * num(b.get(bi(v, lb)))
                finally:
                    vl.CUR[0] = saved
                # shift to a zero-based variable so equal sums coincide
                w = pl.fresh('m', isint=True)
                body = pl.subst(body, {v: lo + w})
                tot = tot + pl.mk_sum([(w, ZERO, hi - lo)], TRUE, body)
            return tot
        sh = a.shape[:-1] + bsh
        if not sh:
            return get(())
        lim = self.bind_products
        if lim is not None and n.as_int() is not None and n.as_int() > lim and all(x.as_int() is not None for x in sh):
            # name the product: cells are let-bound instead of distributed
            return vl.let_arr(sh, lambda idx: [(num(a.get(idx[:a.ndim - 1] + (P(t),))),
                                                num(b.get(bi(P(t), idx[a.ndim - 1:])))) for t in range(n.as_int())])
        return Arr(sh, get)

    # -- comparison --------------------------------------------------------
    def compare(self, op, a, b, node=None):
        t = type(op)
        if isinstance(a, IteV):
            return self.lift1(a, lambda x: self.compare(op, x, b, node))
        if isinstance(b, IteV):
            return self.lift1(b, lambda x: self.compare(op, a, x, node))
        if t in (ast.Is, ast.IsNot):
            r = None
            if a is None or b is None:
                if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
                    r = opaque_cond((a if isinstance(a, OpaqueV) else b).reason)
                else:
                    r = TRUE if a is b else FALSE
            elif isinstance(a, (Poly, Cond)) and isinstance(b, (Poly, Cond)):
                r = self.compare(ast.Eq(), a, b)
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = TRUE if a.id == b.id else FALSE
            else:
                r = opaque_cond('identity comparison')
            return r if t is ast.Is else c_not(r)
        if t in (ast.In, ast.NotIn):
            r = self.contains(a, b, node)
            return r if t is ast.In else c_not(r)
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return opaque_cond((a if isinstance(a, OpaqueV) else b).reason)
        strs = (str, SymStr)
        if isinstance(a, strs) or isinstance(b, strs) or a is None or b is None:
            if t not in (ast.Eq, ast.NotEq):
                return opaque_cond('string ordering')
            if isinstance(a, str) and isinstance(b, str) or a is None or b is None:
                r = TRUE if a == b and type(a) == type(b) else FALSE
            elif isinstance(a, strs) and isinstance(b, strs):
                if a == b:
                    r = TRUE
                else:
                    from .interp import str_key
                    k1, k2 = str_key(a), str_key(b)
                    if repr(k2) < repr(k1):
                        k1, k2 = k2, k1
                    r = pl.truth_atom(('streq', k1, k2))
            else:
                r = FALSE
            return r if t is ast.Eq else c_not(r)
        if isinstance(a, Cond) and isinstance(b, Cond) and t in (ast.Eq, ast.NotEq):
            r = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
            return r if t is ast.Eq else c_not(r)
        if isinstance(a, (Poly, Cond)) and isinstance(b, (Poly, Cond)):
            return scalar_cmp(t, P(a), P(b))
        la = self.content(a) if isinstance(a, Ref) and a.kind == 'list' else (a if isinstance(a, (ListC, tuple)) else None)
        lb = self.content(b) if isinstance(b, Ref) and b.kind == 'list' else (b if isinstance(b, (ListC, tuple)) else None)
        if la is not None and lb is not None and t in (ast.Eq, ast.NotEq):
            x = la.concrete() if isinstance(la, ListC) else list(la)
            y = lb.concrete() if isinstance(lb, ListC) else list(lb)
            if x is not None and y is not None:
                if len(x) != len(y):
                    r = FALSE
                else:
                    r = TRUE
                    for p, q in zip(x, y):
                        r = c_and(r, self.truth(self.compare(ast.Eq(), p, q)))
                return r if t is ast.Eq else c_not(r)
            if isinstance(la, ListC) and isinstance(lb, ListC):
                # emptiness tests
                for p, q in ((la, lb), (lb, la)):
                    if q.concrete() == []:
                        r = cmp_eq(p.length())
                        return r if t is ast.Eq else c_not(r)
            return opaque_cond(self.note('list comparison'))
        x, y = self.arr(a), self.arr(b)
        if x is None or y is None:
            return opaque_cond(self.note('comparison'))
        return self.ew2(lambda p, q: self.compare_elem(t, p, q), x, y)

    def compare_elem(self, t, p, q):
        if isinstance(p, (str, SymStr)) or isinstance(q, (str, SymStr)):
            r = TRUE if p == q else FALSE
            return r if t is ast.Eq else c_not(r)
        if isinstance(p, IteV):
            return c_or(c_and(p.c, self.compare_elem(t, p.a, q)), c_and(c_not(p.c), self.compare_elem(t, p.b, q)))
        return scalar_cmp(t, num(p), num(q))

    def contains(self, a, b, node):
        if isinstance(b, str) and isinstance(a, str):
            return TRUE if a in b else FALSE
        if isinstance(b, Ref) and b.kind == 'dict':
            k = self.hashable(a)
            d = self.content(b)
            if isinstance(k, (str, Poly)):
                if k in d:
                    return TRUE
                if isinstance(k, str) or k.const() is not None:
                    return FALSE
            return opaque_cond(self.note('dict membership'))
        c = self.concrete_iter(b)
        if c is None:
            if isinstance(b, RangeV) and isinstance(a, Poly) and b.step == ONE:
                return c_and(cmp_ge(a - b.lo), cmp_gt(b.hi - a))
            return opaque_cond(self.note('membership', node))
        r = FALSE
        for x in c:
            r = c_or(r, self.truth(self.compare(ast.Eq(), a, x)))
        return r

    # -- indexing ----------------------------------------------------------
    def norm_index(self, i, n):
        k = i.as_int()
        if k is not None and k < 0:
            return n + i
        # n-relative negatives such as -m with m symbolic positive are left alone
        return i

    def slice_bounds(self, s, n):
        """(start, step int, length) of a slice of a dimension n; None if unsupported."""
        st = 1 if s.step is None else num(s.step).as_int()
        if st is None or st == 0:
            return None
        if st < 0:
            if s.lo is None and s.hi is None and st == -1:
                return n - 1, -1, n
            return None
        lo = ZERO if s.lo is None else self.clip_index(num(s.lo), n)
        hi = n if s.hi is None else self.clip_index(num(s.hi), n)
        ln = hi - lo
        if ln.as_int() is not None and ln.as_int() < 0:
            ln = ZERO
        if st != 1:
            ln = pl.floordiv(ln + (st - 1), P(st))
        return lo, st, ln

    def clip_index(self, i, n):
        k, m = i.as_int(), n.as_int()
        if k is not None and k < 0:
            i = n + i
            k = i.as_int()
        if k is not None and m is not None:
            return P(max(0, min(k, m)))
        if k is None:
            d = self.facts.decide(cmp_gt(-i))
            if d is True:
                i = n + i
        return i

    def subscript(self, obj, idx, node=None):
        if isinstance(obj, IteV):
            return self.lift1(obj, lambda x: self.subscript(x, idx, node))
        if isinstance(idx, IteV):
            return self.lift1(idx, lambda x: self.subscript(obj, x, node))
        if isinstance(obj, OpaqueV):
            return OpaqueV(obj.reason)
        if isinstance(idx, OpaqueV):
            return OpaqueV(idx.reason)
        if isinstance(obj, tuple):
            return self.seq_index(obj, idx, node)
        if isinstance(obj, Ref) and obj.kind == 'dict':
            k = self.hashable(idx)
            d = self.content(obj)
            if k in d:
                return d[k]
            if isinstance(idx, str) and all(isinstance(x, str) for x in d):
                self.raise_now('KeyError', node)
            return self.opq('dict key', node)
        if isinstance(obj, (ListC,)) or (isinstance(obj, Ref) and obj.kind == 'list'):
            c = obj if isinstance(obj, ListC) else self.content(obj)
            if isinstance(idx, Poly):
                k = idx.as_int()
                conc = c.concrete()
                if k is not None and conc is not None:
                    if -len(conc) <= k < len(conc):
                        if isinstance(obj, Ref):
                            conc = self.own_items(obj)
                        return conc[k]
                    self.raise_now('IndexError', node)
                    return self.opq('list index out of range', node)
                if k is not None and k < 0:
                    # from the end
                    if c.parts and c.parts[-1][0] == 'items' and -k <= len(c.parts[-1][1]):
                        return c.parts[-1][1][k]
                    idx = c.length() + idx
                r = self.box(c.at(idx, self.facts))
                if isinstance(r, Ref) and isinstance(obj, Ref):
                    self.derived[r.id] = obj
                return r
            if isinstance(idx, SliceV):
                return self.list_slice(c, idx, node)
            if isinstance(idx, Cond):
                return self.subscript(obj, P(idx), node)
            return self.opq('list index', node)
        if isinstance(obj, (str, SymStr)):
            if isinstance(obj, str) and isinstance(idx, Poly) and idx.as_int() is not None:
                try:
                    return obj[idx.as_int()]
                except IndexError:
                    return self.opq('string index', node)
            if isinstance(obj, str) and isinstance(idx, SliceV):
                g = [None if x is None else num(x).as_int() for x in (idx.lo, idx.hi, idx.step)]
                return obj[slice(*g)]
            return self.opq('string index', node)
        if isinstance(obj, RangeV) and isinstance(idx, Poly):
            r = self.regular_iter(obj)
            return r[1](self.norm_index(idx, r[0]))
        # arrays
        base = self.unbox(obj)
        if not isinstance(base, Arr):
            a = self.arr(obj)
            if a is None:
                return self.opq('subscript of %s' % type(obj).__name__, node)
            base = a
            obj = a
        ix = list(idx) if isinstance(idx, tuple) else [idx]
        if len(ix) == 1 and isinstance(ix[0], Ref) and ix[0].kind == 'list' and base.ndim > 1:
            pass
        if Ellipsis in [x for x in ix if x is Ellipsis]:
            k = [n for n, x in enumerate(ix) if x is Ellipsis][0]
            real = len([x for x in ix if x is not Ellipsis and x is not None])
            ix = ix[:k] + [SliceV(None, None, None)] * (base.ndim - real) + ix[k + 1:]
        return self.array_index(obj, base, ix, node)

    def own_items(self, ref):
        """Items of a concrete list, containers among them given identity in place."""
        conc = self.content(ref).concrete()
        if any(isinstance(x, (ListC, Arr)) for x in conc):
            conc = [self.box(x) for x in conc]
            if ref.id in self.st.heap:
                self.st.heap[ref.id] = ListC.of(conc)
            else:
                self.modheap[ref.id] = ListC.of(conc)
        return conc

    def taint_parent(self, ref, node=None):
        """A store through a copy of an element: the list it came from is no longer known."""
        while isinstance(ref, Ref) and ref.id in self.derived:
            ref = self.derived[ref.id]
            if ref.kind == 'list':
                self.note('store through an element at an unresolved position', node)
                self.st.heap[ref.id] = ListC((('unknown',),))

    def seq_index(self, t, idx, node):
        if isinstance(idx, Poly):
            k = idx.as_int()
            if k is not None:
                if -len(t) <= k < len(t):
                    return t[k]
                return self.opq('tuple index out of range', node)
            r = t[-1]
            for n in range(len(t) - 2, -1, -1):
                r = merge(cmp_eq(idx - n), t[n], r)
            return r
        if isinstance(idx, SliceV):
            g = [None if x is None else num(x).as_int() for x in (idx.lo, idx.hi, idx.step)]
            return t[slice(*g)]
        return self.opq('tuple index', node)

    def list_slice(self, c, idx, node):
        conc = c.concrete()
        g = [None if x is None else num(x).as_int() for x in (idx.lo, idx.hi, idx.step)]
        if conc is not None and all(x is None or y is not None for x, y in
                                    zip((idx.lo, idx.hi, idx.step), g)):
            return ListC.of(conc[slice(*g)])
        a = self.list_arr(c)
        if a is None:
            return self.opq('list slice', node)
        b = self.slice_bounds(idx, a.shape[0])
        if b is None:
            return self.opq('list slice', node)
        lo, st, n = b
        v = pl.fresh('sl', isint=True)
        return ListC((('comp', Domain([(v, ZERO, n)], TRUE), ((TRUE, self.deep(c.at(lo + v * st, self.facts))),)),))

    def array_index(self, obj, base, ix, node):
        basic = all(isinstance(x, (Poly, SliceV)) or x is None for x in ix)
        nreal = len([x for x in ix if x is not None])
        if nreal > base.ndim:
            return self.opq('too many indices', node)
        if basic:
            dims = []
            d = 0
            hasnew = any(x is None for x in ix)
            for x in ix:
                if x is None:
                    dims.append(('new',))
                    continue
                n = base.shape[d]
                if isinstance(x, Poly):
                    dims.append(('fix', self.norm_index(x, n)))
                else:
                    b = self.slice_bounds(x, n)
                    if b is None:
                        return self.opq('slice form', node)
                    dims.append(('sl', b[0], b[1], b[2]))
                d += 1
            while d < base.ndim:
                dims.append(('sl', ZERO, 1, base.shape[d]))
                d += 1
            if all(x[0] == 'fix' for x in dims):
                return base.get(tuple(x[1] for x in dims))
            if not hasnew and isinstance(obj, Ref) and obj.kind == 'array':
                return ViewRef(obj, dims)
            if not hasnew and isinstance(obj, ViewRef):
                return ViewRef(obj.ref, self.compose(obj.dims, dims))
            sh, maps = [], []
            for x in dims:
                if x[0] == 'new':
                    sh.append(ONE)
                elif x[0] == 'sl':
                    sh.append(x[3])

            def get(idx):
                out, k = [], 0
                for x in dims:
                    if x[0] == 'new':
                        k += 1
                    elif x[0] == 'fix':
                        out.append(x[1])
                    else:
                        out.append(x[1] + idx[k] * x[2])
                        k += 1
                return base.get(tuple(out))
            return Arr(sh, get)
        # advanced indexing
        if any(isinstance(x, OpaqueV) for x in ix):
            return self.opq('index', node)
        ix = [self.box(ListC.of(list(x))) if isinstance(x, tuple) else x for x in ix]
        if len(ix) == 1:
            i = ix[0]
            lst = self.to_list(i) if isinstance(i, (Ref, ListC)) else None
            a = self.arr(i)
            if a is None:
                return self.opq('advanced index', node)
            probe = self.probe(a)
            if isinstance(probe, Cond):
                return self.mask_select(base, a, node)
            sh = a.shape + base.shape[1:]
            n = a.ndim
            return Arr(sh, lambda idx: base.get((num(a.get(idx[:n])),) + idx[n:]))
        # mixture of index arrays (broadcast 1-D) and slices / scalars
        arrs = []
        for x in ix:
            if isinstance(x, (Ref, ViewRef, ListC, Arr)):
                a = self.arr(x)
                if a is None:
                    return self.opq('advanced index', node)
                p = self.probe(a)
                if isinstance(p, Cond):
                    if sum(isinstance(y, (Ref, ViewRef, ListC, Arr)) for y in ix) == 1 and a.ndim == 1:
                        # boolean mask along one axis
                        return self.opq('boolean mask with other indices', node)
                    return self.opq('boolean mask', node)
                arrs.append(a)
            else:
                arrs.append(x)
        ia = [a for a in arrs if isinstance(a, Arr)]
        if all(a.ndim == 1 for a in ia):
            n = ia[0].shape[0]
            if all(a.shape[0] == n or a.shape[0] == ONE for a in ia):
                first = [k for k, a in enumerate(arrs) if isinstance(a, Arr)][0]
                sh = []
                plan = []
                for k, x in enumerate(arrs + [SliceV(None, None, None)] * (base.ndim - len(arrs))):
                    if isinstance(x, Arr):
                        if k == first:
                            sh.append(n)
                            plan.append(('a', x, len(sh) - 1))
                        else:
                            plan.append(('a', x, None))
                    elif isinstance(x, SliceV):
                        b = self.slice_bounds(x, base.shape[k])
                        if b is None:
                            return self.opq('slice form', node)
                        sh.append(b[2])
                        plan.append(('s', b, len(sh) - 1))
                    else:
                        plan.append(('f', self.norm_index(x, base.shape[k]), None))
                pos = [p[2] for p in plan if p[0] == 'a' and p[2] is not None][0]

                def get(idx):
                    out = []
                    for kind, x, k in plan:
                        if kind == 'a':
                            out.append(num(x.get((idx[pos],))))
                        elif kind == 's':
                            out.append(x[0] + idx[k] * x[1])
                        else:
                            out.append(x)
                    return base.get(tuple(out))
                return Arr(sh, get)
        if len(ia) == 2 and len(arrs) == 2:
            # np.ix_-style (n,1) and (1,m)
            a, b = ia
            s = self.bshape(a, b)
            if s is not None:
                x = self.ew2(lambda p, q: (p, q), a, b)
                return Arr(x.shape, lambda idx: base.get((num(x.get(idx)[0]), num(x.get(idx)[1]))))
        return self.opq('advanced index', node)

    def compose(self, outer, inner):
        res, k = [], 0
        for d in outer:
            if d[0] == 'fix':
                res.append(d)
            else:
                i = inner[k]
                k += 1
                if i[0] == 'fix':
                    res.append(('fix', d[1] + i[1] * d[2]))
                else:
                    res.append(('sl', d[1] + i[1] * d[2], d[2] * i[2], i[3]))
        return res

    def probe(self, a):
        try:
            cs = a.cshape()
            if cs is not None and any(n == 0 for n in cs):
                return ZERO
            return a.get(tuple(ZERO for _ in a.shape))
        except Exception:
            return None

    def mask_select(self, base, mask, node):
        if mask.ndim == 1:
            if mask.shape[0].as_int() is None:
                gs = self.gseq(mask)
                if gs is not None:
                    ent = []
                    for g, k, m in gs:
                        saved = self.facts
                        self.facts = saved.extend(g) if g is not TRUE else saved
                        m = self.facts.cond(self.truth(m))
                        if m is not FALSE:
                            g = c_and(g, m)
                            self.facts = saved.extend(g) if g is not TRUE else saved
                            ent.append((g, base.get((k,)) if base.ndim == 1 else
                                        const_arr([base.get((k, *ix)) for ix in Arr(base.shape[1:], None).indices()])))
                        self.facts = saved
                    a = self.list_arr(self.guarded_list(ent))
                    if a is not None:
                        return a
            n = mask.shape[0]

            def entry(v):
                el = Arr(base.shape[1:], lambda idx: base.get((v,) + idx)) if base.ndim > 1 else base.get((v,))
                return self.truth(mask.get((v,))), el
            if n.as_int() is not None:
                l = ListC(())
                for k in range(n.as_int()):
                    g, el = entry(P(k))
                    g = self.facts.cond(g)
                    if g is FALSE:
                        continue
                    l = l.plus(ListC((('comp', Domain([], TRUE), ((g, el),)) if g is not TRUE else ('items', (el,)),)))
            else:
                v = pl.fresh('q', isint=True)
                saved = self.facts
                self.facts = saved.extend(cmp_ge(v), cmp_gt(n - v))
                g, el = entry(v)
                self.facts = saved
                l = ListC((('comp', Domain([(v, ZERO, n)], g), ((TRUE, el),)),))
            a = self.list_arr(l)
            return a if a is not None else self.opq('mask selection', node)
        return self.opq('mask selection', node)

    # -- stores ------------------------------------------------------------
    def store_view(self, view, val):
        self.store_region(view.ref, view.dims, val)

    def store_region(self, ref, dims, val):
        base = self.content(ref)
        if any(d[0] == 'sl' and d[2] not in (1,) for d in dims):
            # strided: unroll when concrete
            ns = [d[3].as_int() if d[0] == 'sl' else 1 for d in dims]
            if any(n is None for n in ns):
                self.st.heap[ref.id] = UnknownArr(self.note('strided store'), base.shape)
                return
            a = self.arr(val)
            import itertools
            slk = [k for k, d in enumerate(dims) if d[0] == 'sl']
            for combo in itertools.product(*[range(ns[k]) for k in slk]):
                cell = []
                c = 0
                for d in dims:
                    if d[0] == 'fix':
                        cell.append(('fix', d[1]))
                    else:
                        cell.append(('fix', d[1] + P(combo[c]) * d[2]))
                        c += 1
                n = len(combo)
                loc = tuple(P(x) for x in combo)[n - a.ndim:] if a.ndim <= n else None
                self.store_region(ref, cell, a.get(loc) if a.ndim else a.get(()))
            return
        starts = tuple(d[1] for d in dims)
        widths = tuple(ONE if d[0] == 'fix' else d[3] for d in dims)
        keep = [k for k, d in enumerate(dims) if d[0] == 'sl']
        a = val if isinstance(val, Arr) else self.arr(val)
        if a is None:
            if isinstance(val, (str, SymStr)) or val is None:
                a = Arr((), lambda idx: val)
            elif isinstance(val, IteV):
                a = Arr((), lambda idx: val)
            else:
                why = val.reason if isinstance(val, OpaqueV) else self.note('stored value %s' % type(val).__name__)
                a = Arr((), lambda idx: opaque(why))
        tsh = tuple(dims[k][3] for k in keep)
        an = a.ndim
        # broadcast a to the region shape
        ash = a.shape
        off = len(tsh) - an
        if off < 0:
            extra = -off
            ok = all(s == ONE for s in ash[:extra])
            if not ok:
                self.note('store shape mismatch')
                a2 = UnknownArr('store shape mismatch', tsh)
                a, an, ash, off = a2, len(tsh), tsh, 0

        def val_at(loc):
            l = tuple(loc[k] for k in keep)
            if off >= 0:
                l = l[off:]
                l = tuple(ZERO if (s == ONE and t != ONE) else i for s, i, t in zip(ash, l, tsh[off:]))
                return a.get(l)
            return a.get(tuple(ZERO for _ in range(-off)) + l)
        # small concrete regions are evaluated on demand, under the facts of this path
        wc = [w.as_int() for w in widths]
        if all(w is not None for w in wc) and _prod(wc) <= 64:
            import itertools
            table = {}
            here = vl.CUR[0]

            def cell(ks):
                if ks not in table:
                    saved = vl.CUR[0]
                    vl.CUR[0] = here
                    try:
                        table[ks] = val_at(tuple(P(x) for x in ks))
                    finally:
                        vl.CUR[0] = saved
                return table[ks]

            def fn(loc, wc=tuple(wc)):
                ks = tuple(l.as_int() for l in loc)
                if None not in ks and all(0 <= k < w for k, w in zip(ks, wc)):
                    return cell(ks)
                if None in ks:
                    r = None
                    for combo in itertools.product(*[range(w) for w in wc]):
                        v = cell(combo)
                        c = c_and(*[cmp_eq(l - k) for l, k in zip(loc, combo)])
                        r = v if r is None else merge(c, v, r)
                    return r
                return opaque('outside store region')
        else:
            fn = val_at
        u = Upd([], TRUE, starts, widths, fn, 'set', self.where(self.cur_node))
        if isinstance(base, Store):
            ups = base.upds
            # an identical region overwritten unconditionally makes the old one dead
            ups = tuple(x for x in ups if not (not x.vars and x.starts == starts and x.widths == widths
                                               and x.guard is TRUE))
            self.st.heap[ref.id] = Store(self, base.base, ups + (u,))
        else:
            self.st.heap[ref.id] = Store(self, base, (u,))

    def store_sub(self, obj, idx, v, node=None):
        if isinstance(obj, Ref) and obj.id in self.derived:
            self.taint_parent(obj, node)
        if isinstance(obj, IteV):
            return
        if isinstance(obj, Ref) and obj.kind == 'dict':
            d = dict(self.content(obj))
            d[self.hashable(idx)] = self.box(v)
            self.st.heap[obj.id] = d
            return
        if isinstance(obj, Ref) and obj.kind == 'list':
            c = self.content(obj)
            conc = c.concrete() if isinstance(c, ListC) else None
            if conc is not None and isinstance(idx, Poly) and idx.as_int() is not None:
                conc = list(conc)
                try:
                    conc[idx.as_int()] = self.box(v)
                except IndexError:
                    self.note('list store out of range', node)
                    return
                self.st.heap[obj.id] = ListC.of(conc)
                return
            if conc is not None and isinstance(idx, Poly) and len(conc) <= 16:
                self.st.heap[obj.id] = ListC.of([merge(cmp_eq(idx - k), self.deep(v), self.deep(x))
                                                 for k, x in enumerate(conc)])
                return
            if conc is not None and isinstance(idx, SliceV):
                bnd = [None if x is None else num(x).as_int() if isinstance(x, (Poly, int)) else 'x'
                       for x in (idx.lo, idx.hi, idx.step)]
                given = [x is not None for x in (idx.lo, idx.hi, idx.step)]
                new = self.concrete_iter(v)
                if new is not None and 'x' not in bnd and all((b is not None) == g for b, g in zip(bnd, given)):
                    conc = list(conc)
                    conc[slice(*bnd)] = [self.box(x) for x in new]
                    self.st.heap[obj.id] = ListC.of(conc)
                    return
            # treat a numeric list like an array
            a = self.list_arr(c) if isinstance(c, ListC) else None
            self.note('list element store', node)
            self.st.heap[obj.id] = ListC((('unknown',),))
            return
        if isinstance(obj, (Ref, ViewRef)):
            ref = obj if isinstance(obj, Ref) else obj.ref
            base = self.unbox(obj)
            if not isinstance(base, Arr):
                return
            ix = list(idx) if isinstance(idx, tuple) else [idx]
            if any(x is Ellipsis for x in ix):
                k = [n for n, x in enumerate(ix) if x is Ellipsis][0]
                ix = ix[:k] + [SliceV(None, None, None)] * (base.ndim - len(ix) + 1) + ix[k + 1:]
            if all(isinstance(x, (Poly, SliceV)) for x in ix) and len(ix) <= base.ndim:
                dims = []
                for d, x in enumerate(ix):
                    n = base.shape[d]
                    if isinstance(x, Poly):
                        dims.append(('fix', self.norm_index(x, n)))
                    else:
                        b = self.slice_bounds(x, n)
                        if b is None:
                            self.st.heap[ref.id] = UnknownArr(self.note('slice form', node), self.content(ref).shape)
                            return
                        dims.append(('sl', b[0], b[1], b[2]))
                for d in range(len(ix), base.ndim):
                    dims.append(('sl', ZERO, 1, base.shape[d]))
                if isinstance(obj, ViewRef):
                    dims = self.compose(obj.dims, dims)
                v = self.unbox(v)
                self.store_region(ref, dims, v)
                return
            # boolean mask / fancy store on a whole array
            if len(ix) == 1 and isinstance(obj, Ref):
                m = self.arr(ix[0])
                val = self.arr(v)
                if m is not None and isinstance(self.probe(m), Cond) and m.shape == base.shape \
                        and val is not None and val.ndim == 0:
                    old = base
                    self.st.heap[ref.id] = Arr(base.shape, lambda i: merge(self.truth(m.get(i)), val.get(()), old.get(i)))
                    return
                if m is not None and m.ndim == 1 and m.cshape() is not None and val is not None:
                    n = m.cshape()[0]
                    for t in range(n):
                        k = num(m.get((P(t),)))
                        vv = val.get(()) if val.ndim == 0 else (
                            Arr(val.shape[1:], (lambda t: lambda i: val.get((P(t),) + i))(t)) if val.ndim == base.ndim else val)
                        if isinstance(vv, Arr) and vv.ndim == 0:
                            vv = vv.get(())
                        self.store_sub(obj, k, vv, node)
                    return
            # fancy index with scalar columns, e.g. A[rows, j] = ...
            self.st.heap[ref.id] = UnknownArr(self.note('advanced store', node), self.content(ref).shape)

    # -- attributes --------------------------------------------------------
    def array_attr(self, obj, attr, node):
        if attr in ('T', 'shape', 'size', 'ndim', 'real', 'imag', 'flat', 'dtype'):
            a = self.arr(obj) if not (isinstance(obj, (str, SymStr)) or obj is None) else None
            if a is None:
                return self.opq('attribute ' + attr, node)
            if attr == 'T':
                return self.transpose(a)
            if attr == 'shape':
                return tuple(a.shape)
            if attr == 'size':
                r = ONE
                for s in a.shape:
                    r = r * s
                return r
            if attr == 'ndim':
                return P(a.ndim)
            if attr == 'real':
                return a
            if attr == 'flat':
                return self.reshape(a, [P(-1)])
            return self.opq('attribute ' + attr, node)
        return NotImplemented

    def transpose(self, a, axes=None):
        if isinstance(a, CooArr):
            return a.transpose()
        if a.ndim < 2:
            return a
        n = a.ndim
        ax = list(range(n))[::-1] if axes is None else axes
        inv = [ax.index(k) for k in range(n)]
        r = Arr([a.shape[k] for k in ax], lambda idx: a.get(tuple(idx[inv[k]] for k in range(n))))
        if a.cuts:
            r.cuts = {inv[k]: c for k, c in a.cuts.items()}
        return r

    def reshape(self, a, shape):
        tot = ONE
        for s in a.shape:
            tot = tot * s
        shape = list(shape)
        if any(s.as_int() == -1 for s in shape):
            k = [n for n, s in enumerate(shape) if s.as_int() == -1][0]
            rest = ONE
            for n, s in enumerate(shape):
                if n != k:
                    rest = rest * s
            shape[k] = tot / rest
        sh_in = a.shape
        if tuple(shape) == tuple(sh_in):
            return a

        def get(idx):
            flat = ZERO
            for s, i in zip(shape, idx):
                flat = flat * s + i
            out = []
            for s in reversed(sh_in[1:]):
                q = pl.floordiv(flat, s) if s != ONE else flat
                out.append(flat - q * s if s != ONE else ZERO)
                flat = q
            out.append(flat)
            return a.get(tuple(reversed(out)))
        if len(sh_in) == 0:
            return Arr(shape, lambda idx: a.get(()))
        r = Arr(shape, get)
        if len(sh_in) == 2 and len(shape) == 1 and a.cuts and 0 in a.cuts:
            r.cuts = {0: tuple(c * sh_in[1] for c in a.cuts[0])}
        if len(sh_in) == 1 and len(shape) == 2 and a.cuts and 0 in a.cuts:
            r.cuts = {0: tuple(c / shape[1] for c in a.cuts[0])}
        return r

    # -- names outside the program -------------------------------------------
    def extern(self, name):
        if name in self.overrides:
            return self.overrides[name]
        from .interp import Builtin
        if name in ('numpy.pi', 'math.pi', 'scipy.pi', 'numpy.math.pi'):
            return PI
        if name in ('math.e', 'numpy.e'):
            return pl.app('exp', ONE, pos=True)
        if name in ('numpy.newaxis',):
            return None
        if name in ('numpy.inf', 'math.inf', 'numpy.Inf'):
            return sym('inf')
        if name in ('numpy.nan', 'numpy.NaN', 'math.nan'):
            return sym('nan')
        return Builtin(name)

    def concat(self, items, axis, node=None):
        arrs = []
        for x in items:
            a = self.arr(x)
            if a is None:
                return self.opq('concatenate of %s' % type(x).__name__, node)
            arrs.append(a)
        arrs = [a for a in arrs if not (a.ndim == 1 and a.shape[0] == ZERO)] or arrs
        if len(arrs) == 1:
            return arrs[0]
        if axis is None:
            arrs = [self.reshape(a, [P(-1)]) if a.ndim != 1 else a for a in arrs]
            axis = 0
        nd = max(a.ndim for a in arrs)
        if any(a.ndim != nd for a in arrs) or nd == 0:
            return self.opq('concatenate ranks', node)
        if axis < 0:
            axis += nd
        # drop empty parts
        arrs2 = [a for a in arrs if a.shape[axis] != ZERO]
        if not arrs2:
            return arrs[0]
        if len(arrs2) == 1:
            return arrs2[0]
        if axis == 0 and self.split_guarded:
            gs = [self.gseq(a) for a in arrs2]
            if None not in gs:
                a = self.list_arr(self.guarded_list([(g, v) for x in gs for g, _, v in x]))
                if a is not None:
                    return a
        return ConcatArr(self, arrs2, axis)

    # -- builtin calls ------------------------------------------------------
    def call_builtin(self, name, args, kwargs, e):
        hook = self.hooks.get('extern:' + name)
        if hook is not None:
            r = hook(self, args, kwargs, e)
            if r is not NotImplemented:
                return r
        for v in args:
            if isinstance(v, IteV):
                if v.a is UNBOUND or v.b is UNBOUND:
                    continue
                k = [n for n, x in enumerate(args) if x is v][0]
                return self.lift1(v, lambda x: self.call_builtin(
                    name, args[:k] + [x] + args[k + 1:], kwargs, e))
        short = name.split('.')[-1]
        for key in ('b_' + name.replace('.', '_'), 'b_' + short):
            m = getattr(self, key, None)
            if m is not None:
                ops = [v for v in args if isinstance(v, OpaqueV)]
                if ops and short not in ('print', 'isinstance', 'type', 'hasattr', 'save', 'savez',
                                         'savez_compressed', 'dump', 'str', 'remove', 'exit'):
                    return OpaqueV(ops[0].reason)
                try:
                    r = m(args, kwargs, e)
                except (TypeError, IndexError, KeyError, ValueError, AttributeError) as ex:
                    return self.opq('call %s not modelled (%s)' % (name, ex), e)
                if r is NotImplemented:
                    return self.opq('call %s form' % name, e)
                return r
        return self.opq('call ' + name, e)

    def kw(self, kwargs, name, default=None):
        return kwargs.get(name, default)

    def need(self, v):
        a = self.arr(v)
        if a is None:
            raise ValueError('array expected, got %s' % type(v).__name__)
        return a

    def unwrap(self, a):
        if isinstance(a, Arr) and a.ndim == 0:
            return a.get(())
        return a

    # python builtins
    def b_len(self, args, kw, e):
        v = args[0]
        if isinstance(v, (tuple, str)):
            return P(len(v))
        if isinstance(v, RangeV):
            return self.regular_iter(v)[0]
        c = self.unbox(v)
        if isinstance(c, ListC):
            return c.length()
        if isinstance(c, dict):
            return P(len(c))
        if isinstance(c, Arr) and c.ndim:
            if getattr(c, 'listc', None) is not None:
                return c.listc.length()
            return c.shape[0]
        if isinstance(v, SymStr):
            return pl.app('strlen', (repr(v.parts),), isint=True)
        return NotImplemented

    def b_range(self, args, kw, e):
        a = [num(x) for x in args]
        if len(a) == 1:
            return self.series_range(RangeV(ZERO, a[0], ONE))
        if len(a) == 2:
            return self.series_range(RangeV(a[0], a[1], ONE))
        return self.series_range(RangeV(a[0], a[1], a[2]))

    def b_print(self, args, kw, e):
        return None

    def b_zip(self, args, kw, e):
        from .interp import ZipV
        return ZipV(list(args))

    def b_enumerate(self, args, kw, e):
        from .interp import EnumV
        return EnumV(args[0], args[1] if len(args) > 1 else kw.get('start', ZERO))

    def b_list(self, args, kw, e):
        if not args:
            return ListC(())
        l = self.to_list(args[0])
        return l if l is not None else NotImplemented

    def b_tolist(self, args, kw, e):
        return self.b_list(args, kw, e)

    def b_tuple(self, args, kw, e):
        if not args:
            return ()
        c = self.concrete_iter(args[0])
        if c is not None:
            return tuple(c)
        return self.b_list(args, kw, e)

    def b_dict(self, args, kw, e):
        r = Ref('dict')
        self.st.heap[r.id] = dict(kw)
        return r

    def b_set(self, args, kw, e):
        if not args:
            return ListC(())
        c = self.concrete_iter(args[0])
        if c is None:
            return NotImplemented
        out = []
        for x in c:
            if x not in out:
                out.append(x)
        return ListC.of(out)

    def b_sorted(self, args, kw, e):
        c = self.concrete_iter(args[0])
        if c is not None and all(isinstance(x, str) for x in c):
            return ListC.of(sorted(c))
        order = self.sort_order(c) if not set(kw) - {'reverse'} else None
        if order is None:
            return NotImplemented
        if kw.get('reverse') is TRUE:
            order = order[::-1]
        return ListC.of([c[k] for k in order])

    def sort_order(self, c):
        """Stable ascending order of a short list of numbers, or None if it depends on unknowns."""
        if c is None or len(c) > 60 or not all(isinstance(x, Poly) for x in c):
            return None
        out = []
        for k, x in enumerate(c):
            at = len(out)
            while at > 0:
                t = self.facts.decide(cmp_gt(c[out[at - 1]] - x))
                if t is None:
                    return None
                if t is False:
                    break
                at -= 1
            out.insert(at, k)
        return out

    def b_sort(self, args, kw, e):
        a = self.need(args[0])
        order = self.sort_order(self.concrete_iter(a)) if a.ndim == 1 else None
        if order is None:
            return self.opq('call numpy.sort', e)
        v = [num(a.get((P(k),))) for k in order]
        return self.list_arr(ListC.of(v))

    def b_argsort(self, args, kw, e):
        a = self.need(args[0])
        order = self.sort_order(self.concrete_iter(a)) if a.ndim == 1 else None
        if order is None:
            return self.opq('call numpy.argsort', e)
        return self.list_arr(ListC.of([P(k) for k in order]))

    def b_reversed(self, args, kw, e):
        c = self.concrete_iter(args[0])
        if c is None:
            return NotImplemented
        return ListC.of(list(reversed(c)))

    def b_map(self, args, kw, e):
        c = self.concrete_iter(args[1])
        if c is None:
            return NotImplemented
        return ListC.of([self.box(self.call(args[0], [x], {}, e)) for x in c])

    def b_int(self, args, kw, e):
        v = args[0]
        if isinstance(v, Poly):
            if v.isint:
                return v
            c = v.const()
            if c is not None:
                return P(int(c))
            return pl.apply_fn('trunc', (v,))
        if isinstance(v, Cond):
            return P(v)
        if isinstance(v, str):
            try:
                return P(int(v))
            except ValueError:
                self.raise_now('ValueError', e)
                return self.opq('no number', e)
        if isinstance(v, SymStr):
            from .interp import str_key
            return pl.app('int', str_key(v), isint=True)
        if isinstance(v, Arr):
            return self.b_int([num(v)], kw, e)
        return NotImplemented

    def b_float(self, args, kw, e):
        v = args[0]
        if isinstance(v, (Poly, Cond)):
            return P(v)
        if isinstance(v, str):
            try:
                return P(float(v))
            except ValueError:
                self.raise_now('ValueError', e)
                return self.opq('no number', e)
        if isinstance(v, SymStr):
            if len(v.parts) == 1 and v.parts[0][0] == 'num' and not v.parts[0][2]:
                return v.parts[0][1]
            from .interp import str_key
            return pl.app('float', str_key(v))
        return num(v) if isinstance(v, Arr) else NotImplemented

    def b_bool(self, args, kw, e):
        return self.truth(args[0])

    def b_str(self, args, kw, e):
        s = self.to_str(args[0]) if args else ''
        return s

    b_repr = b_str

    def b_round(self, args, kw, e):
        if isinstance(args[0], Poly) and len(args) == 1:
            c = args[0].const()
            if c is not None:
                return P(round(c))
            return pl.apply_fn('round', (args[0],))
        return pl.app('roundn', num(args[0]), num(args[1])) if len(args) > 1 else NotImplemented

    def b_isinstance(self, args, kw, e):
        v = args[0]
        from .interp import Builtin
        t = args[1]
        ts = list(t) if isinstance(t, tuple) else [t]
        names = [x.name.split('.')[-1] for x in ts if isinstance(x, Builtin)]
        if isinstance(v, OpaqueV):
            return opaque_cond(v.reason)
        if isinstance(v, str) or isinstance(v, SymStr):
            return TRUE if 'str' in names else FALSE
        if isinstance(v, tuple):
            return TRUE if 'tuple' in names else FALSE
        if isinstance(v, Ref) and v.kind == 'list':
            return TRUE if 'list' in names else FALSE
        if isinstance(v, (Ref, ViewRef, Arr)):
            return TRUE if 'ndarray' in names else FALSE
        if isinstance(v, Poly):
            if 'float' in names and 'int' in names:
                return TRUE
        return opaque_cond('isinstance')

    def b_type(self, args, kw, e):
        return OpaqueV('type()')

    def b_hasattr(self, args, kw, e):
        return opaque_cond('hasattr')

    def b_any(self, args, kw, e):
        a = self.need(args[0])
        return self.quant(a, c_or, FALSE, 'any')

    def b_all(self, args, kw, e):
        a = self.need(args[0])
        return self.quant(a, c_and, TRUE, 'all')

    def quant(self, a, op, unit, nm):
        idx = a.indices()
        if idx is not None and len(idx) <= 400:
            r = unit
            for i in idx:
                r = op(r, self.truth(a.get(i)))
            return r
        # symbolic: named quantifier over the generic element
        vs = [sym('@q%d' % k, isint=True) for k in range(a.ndim)]
        g = self.truth(a.get(tuple(vs)))
        if g is TRUE or g is FALSE:
            return g
        return pl.truth_atom((nm, tuple(a.shape), g), bad=g.bad)

    def b_sum(self, args, kw, e):
        l = None
        if isinstance(args[0], (Ref, ListC)):
            c = self.unbox(args[0])
            if isinstance(c, ListC) and (len(args) == 1 or isinstance(args[1], Poly)) and 'axis' not in kw:
                l = c
        if l is not None:
            tot = args[1] if len(args) > 1 else ZERO
            for p in l.parts:
                if p[0] == 'items':
                    for v in p[1]:
                        tot = self.binop(ast.Add(), tot, v, e)
                elif p[0] == 'comp':
                    for g, v in p[2]:
                        a = self.arr(v)
                        if a is None:
                            return NotImplemented
                        if a.ndim == 0:
                            add = pl.mk_sum(list(p[1].vars), c_and(p[1].guard, g), num(a.get(())))
                        else:
                            add = Arr(a.shape, (lambda a, g, p: lambda idx: pl.mk_sum(
                                list(p[1].vars), c_and(p[1].guard, g), num(a.get(idx))))(a, g, p))
                        tot = self.binop(ast.Add(), tot, add, e)
                else:
                    return NotImplemented
            return tot
        a = self.need(args[0])
        ax = kw.get('axis', args[1] if len(args) > 1 else None)
        return self.reduce_sum(a, ax, kw)

    def reduce_sum(self, a, ax, kw=None):
        kd = kw.get('keepdims') if kw else None
        if ax is None:
            axes = list(range(a.ndim))
        elif isinstance(ax, tuple):
            axes = [num(x).as_int() % a.ndim for x in ax]
        else:
            axes = [num(ax).as_int() % a.ndim]
        keep = [k for k in range(a.ndim) if k not in axes]

        def get(idx):
            vars_ = []
            full = [None] * a.ndim
            if kd is TRUE:
                idx = tuple(idx[k] for k in keep)
            for k, i in zip(keep, idx):
                full[k] = i
            lists = [[]]
            symb = []
            for k in axes:
                n = a.shape[k].as_int()
                if n is not None and n <= 64:
                    lists = [l + [(k, P(t))] for l in lists for t in range(n)]
                else:
                    v = pl.fresh('s', isint=True)
                    symb.append((v, ZERO, a.shape[k]))
                    lists = [l + [(k, v)] for l in lists]
            parts = []
            saved = vl.CUR[0]
            if symb:
                vl.CUR[0] = saved.extend(*[x for v, lo, hi in symb for x in (cmp_ge(v - lo), cmp_gt(hi - v))])
            try:
                for l in lists:
                    f = list(full)
                    for k, i in l:
                        f[k] = i
                    parts.append(num(a.get(tuple(f))))
            finally:
                vl.CUR[0] = saved
            body = pl.addn(parts)
            if symb:
                la = getattr(a, 'listc', None)
                return pl.mk_sum(symb, TRUE, body)
            return body
        la = getattr(a, 'listc', None)
        if la is not None and 0 in axes and len(axes) == 1:
            # sum over the elements of a list with irregular domain
            def getl(idx):
                tot = ZERO
                for p in la.parts:
                    if p[0] == 'items':
                        for v in p[1]:
                            tot = tot + num(self.arr(v).get(idx))
                    else:
                        for g, v in p[2]:
                            tot = tot + pl.mk_sum(list(p[1].vars), c_and(p[1].guard, g),
                                                  num(self.arr(v).get(idx)))
                return tot
            sh = [a.shape[k] for k in keep]
            return getl(()) if not sh else Arr(sh, getl)
        sh = [a.shape[k] for k in keep]
        if kd is TRUE:
            sh = [ONE if k in axes else a.shape[k] for k in range(a.ndim)]
        if not sh:
            return get(())
        return Arr(sh, get)

    def b_prod(self, args, kw, e):
        a = self.need(args[0])
        idx = a.indices()
        if idx is None or kw:
            return NotImplemented
        r = ONE
        for i in idx:
            r = r * num(a.get(i))
        return r

    def minmax(self, name, args, kw, e):
        if len(args) > 1 and name in ('min', 'max'):
            vals = [num(x) for x in args]
        else:
            a = self.need(args[0])
            idx = a.indices()
            ax = kw.get('axis', args[1] if len(args) > 1 else None)
            if ax is not None:
                ax = num(ax).as_int()
                if ax is None or a.ndim < 2:
                    return NotImplemented
                ax %= a.ndim
                m = a.shape[ax].as_int()
                if m is None:
                    return NotImplemented
                return Arr(a.shape[:ax] + a.shape[ax + 1:], lambda idx: scalar_minmax(
                    name, [num(a.get(tuple(idx[:ax]) + (P(k),) + tuple(idx[ax:]))) for k in range(m)]))
            if idx is None:
                from .values import arr_key
                return pl.app(name + 'of', arr_key(a))
            vals = [num(a.get(i)) for i in idx]
            if kw.get('initial') is not None:
                v = num(kw['initial'])
                pos = name == 'max' and v == ZERO and vals and all(pl.is_positive(x) for x in vals)
                vals = vals if pos else vals + [v]
        return scalar_minmax(name, vals)

    def b_min(self, args, kw, e):
        return self.minmax('min', args, kw, e)

    def b_max(self, args, kw, e):
        return self.minmax('max', args, kw, e)

    b_amin, b_amax = b_min, b_max

    def b_minimum(self, args, kw, e):
        return self.unwrap(self.ew2(lambda p, q: scalar_minmax('min', [num(p), num(q)]), self.need(args[0]), self.need(args[1])))

    def b_maximum(self, args, kw, e):
        return self.unwrap(self.ew2(lambda p, q: scalar_minmax('max', [num(p), num(q)]), self.need(args[0]), self.need(args[1])))

    # elementwise functions
    def _ew(self, f, args):
        return self.ew1(f, self.need(args[0]))

    def b_sqrt(self, args, kw, e):
        return self._ew(lambda x: pl.power(num(x), F(1, 2)), args)

    def b_abs(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('abs', (num(x),)), args)

    b_fabs = b_absolute = b_abs

    def b_exp(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('exp', (num(x),)), args)

    def b_log(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('log', (num(x),)), args)

    def b_log10(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('log10', (num(x),)), args)

    def b_sin(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('sin', (num(x),)), args)

    def b_cos(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('cos', (num(x),)), args)

    def b_tan(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('sin', (num(x),)) / pl.apply_fn('cos', (num(x),)), args)

    def b_arccos(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('arccos', (num(x),)), args)

    b_acos = b_arccos

    def b_arcsin(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('arcsin', (num(x),)), args)

    b_asin = b_arcsin

    def b_arctan(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('arctan', (num(x),)), args)

    def b_arctan2(self, args, kw, e):
        return self.unwrap(self.ew2(lambda p, q: pl.apply_fn('arctan2', (num(p), num(q))),
                                    self.need(args[0]), self.need(args[1])))

    b_atan2 = b_arctan2

    def b_hypot(self, args, kw, e):
        return self.unwrap(self.ew2(lambda p, q: pl.power(num(p) * num(p) + num(q) * num(q), F(1, 2)),
                                    self.need(args[0]), self.need(args[1])))

    def b_tanh(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('tanh', (num(x),)), args)

    def b_cosh(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('cosh', (num(x),)), args)

    def b_sinh(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('sinh', (num(x),)), args)

    def b_erfc(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('erfc', (num(x),)), args)

    def b_erf(self, args, kw, e):
        return self._ew(lambda x: ONE - pl.apply_fn('erfc', (num(x),)), args)

    def b_zeta(self, args, kw, e):
        if len(args) == 1:
            args = [args[0], ONE]
        return self.unwrap(self.ew2(lambda p, q: pl.apply_fn('zeta', (num(p), num(q))),
                                    self.need(args[0]), self.need(args[1])))

    def b_comb(self, args, kw, e):
        n, k = num(args[0]).as_int(), num(args[1]).as_int()
        if n is None or k is None or n < 0 or k < 0:
            return self.opq('binomial coefficient', e)
        return P(math.comb(n, k))

    b_binom = b_comb

    def b_factorial(self, args, kw, e):
        n = num(args[0]).as_int()
        if n is None or n < 0:
            return self.opq('factorial', e)
        return P(math.factorial(n))

    def b_floor(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('floor', (num(x),)), args)

    def b_ceil(self, args, kw, e):
        return self._ew(lambda x: -pl.apply_fn('floor', (-num(x),)), args)

    def b_square(self, args, kw, e):
        return self._ew(lambda x: num(x) * num(x), args)

    def b_negative(self, args, kw, e):
        return self._ew(lambda x: -num(x), args)

    def b_sign(self, args, kw, e):
        return self._ew(lambda x: pl.apply_fn('sign', (num(x),)), args)

    def b_radians(self, args, kw, e):
        return self._ew(lambda x: num(x) * PI / 180, args)

    b_deg2rad = b_radians

    def b_mod(self, args, kw, e):
        return self.binop(ast.Mod(), args[0], args[1], e)

    b_remainder = b_mod

    def b_fmod(self, args, kw, e):
        return NotImplemented

    def b_add(self, args, kw, e):
        return self.binop(ast.Add(), args[0], args[1], e)

    def b_subtract(self, args, kw, e):
        return self.binop(ast.Sub(), args[0], args[1], e)

    def b_multiply(self, args, kw, e):
        return self.unwrap(self.ew2(lambda p, q: num(p) * num(q), self.need(args[0]), self.need(args[1])))

    def b_divide(self, args, kw, e):
        return self.binop(ast.Div(), args[0], args[1], e)

    b_true_divide = b_divide

    def b_floor_divide(self, args, kw, e):
        return self.binop(ast.FloorDiv(), args[0], args[1], e)

    def b_power(self, args, kw, e):
        return self.binop(ast.Pow(), args[0], args[1], e)

    b_pow = b_power

    def b_isclose(self, args, kw, e):
        return self.unwrap(self.ew2(lambda p, q: cmp_eq(num(p) - num(q)), self.need(args[0]), self.need(args[1])))

    def b_allclose(self, args, kw, e):
        return self.b_all([self.b_isclose(args, kw, e)], {}, e)

    def b_array_equal(self, args, kw, e):
        a, b = self.need(args[0]), self.need(args[1])
        if a.shape != b.shape:
            return FALSE
        return self.b_all([self.ew2(lambda p, q: cmp_eq(num(p) - num(q)), a, b)], {}, e)

    def b_logical_and(self, args, kw, e):
        return self.unwrap(self.ew2(lambda p, q: c_and(self.truth(p), self.truth(q)), self.need(args[0]), self.need(args[1])))

    def b_logical_or(self, args, kw, e):
        return self.unwrap(self.ew2(lambda p, q: c_or(self.truth(p), self.truth(q)), self.need(args[0]), self.need(args[1])))

    def b_logical_not(self, args, kw, e):
        return self._ew(lambda p: c_not(self.truth(p)), args)

    def b_less(self, args, kw, e):
        return self.compare(ast.Lt(), args[0], args[1], e)

    def b_greater(self, args, kw, e):
        return self.compare(ast.Gt(), args[0], args[1], e)

    def b_clip(self, args, kw, e):
        lo = args[1] if len(args) > 1 else kw.get('a_min')
        hi = args[2] if len(args) > 2 else kw.get('a_max')

        def f(x):
            x = num(x)
            if lo is not None:
                x = scalar_minmax('max', [x, num(lo)])
            if hi is not None:
                x = scalar_minmax('min', [x, num(hi)])
            return x
        return self._ew(f, args)

    # construction
    def shape_arg(self, v):
        if isinstance(v, Poly):
            return (v,)
        if isinstance(v, tuple):
            return tuple(num(x) for x in v)
        c = self.concrete_iter(v)
        if c is None:
            raise ValueError('shape')
        return tuple(num(x) for x in c)

    def b_zeros(self, args, kw, e):
        sh = self.shape_arg(args[0] if args else kw['shape'])
        return Arr(sh, lambda idx: ZERO)

    def b_ones(self, args, kw, e):
        sh = self.shape_arg(args[0] if args else kw['shape'])
        return Arr(sh, lambda idx: ONE)

    def b_empty(self, args, kw, e):
        sh = self.shape_arg(args[0] if args else kw['shape'])
        return UnknownArr('uninitialised element', sh)

    def b_full(self, args, kw, e):
        sh = self.shape_arg(args[0])
        v = args[1] if len(args) > 1 else kw['fill_value']
        a = self.arr(v)
        if a is None:
            return Arr(sh, lambda idx: v)
        return Arr(sh, lambda idx: a.get(()))

    def b_zeros_like(self, args, kw, e):
        return Arr(self.need(args[0]).shape, lambda idx: ZERO)

    def b_ones_like(self, args, kw, e):
        return Arr(self.need(args[0]).shape, lambda idx: ONE)

    def b_empty_like(self, args, kw, e):
        return UnknownArr('uninitialised element', self.need(args[0]).shape)

    def b_full_like(self, args, kw, e):
        v = num(args[1])
        return Arr(self.need(args[0]).shape, lambda idx: v)

    def b_eye(self, args, kw, e):
        n = num(args[0])
        m = num(args[1]) if len(args) > 1 and args[1] is not None else n
        k = num(kw.get('k', args[2] if len(args) > 2 else ZERO))
        return Arr((n, m), lambda idx: P(vl.CUR[0].cond(cmp_eq(idx[1] - idx[0] - k))))

    def b_identity(self, args, kw, e):
        return self.b_eye([args[0]], {}, e)

    def b_arange(self, args, kw, e):
        a = [num(x) for x in args]
        lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
        if st.as_int() is not None and lo.isint and hi.isint:
            r = self.regular_iter(self.series_range(RangeV(lo, hi, st)))
            return Arr((r[0],), lambda idx: r[1](idx[0]))
        return Arr((-pl.apply_fn('floor', ((lo - hi) / st,)),), lambda idx: lo + idx[0] * st)

    def b_linspace(self, args, kw, e):
        lo, hi = num(args[0]), num(args[1])
        n = num(args[2] if len(args) > 2 else kw.get('num', P(50)))
        if kw.get('endpoint') is FALSE:
            return Arr((n,), lambda idx: lo + idx[0] * (hi - lo) / n)
        return Arr((n,), lambda idx: lo + idx[0] * (hi - lo) / (n - 1))

    def b_array(self, args, kw, e):
        v = args[0]
        if isinstance(v, (Poly, Cond)):
            return v
        u = self.unbox(v)
        a = self.arr(u)
        return a if a is not None else NotImplemented

    b_asarray = b_copy = b_asfarray = b_ascontiguousarray = b_array

    def b_deepcopy(self, args, kw, e):
        return self.deep(args[0])

    def b_mat(self, args, kw, e):
        return NotImplemented

    b_matrix = b_mat

    def b_toarray(self, args, kw, e):
        a = self.need(args[0])
        return Arr(a.shape, lambda idx: a.get(idx))

    b_todense = b_toarray

    def b_concatenate(self, args, kw, e):
        items = self.concrete_iter(args[0])
        ax = kw.get('axis', args[1] if len(args) > 1 else ZERO)
        if items is None:
            return NotImplemented
        return self.concat(items, None if ax is None else num(ax).as_int(), e)

    def b_append(self, args, kw, e):
        ax = kw.get('axis', args[2] if len(args) > 2 else None)
        return self.concat([args[0], args[1]], None if ax is None else num(ax).as_int(), e)

    def b_vstack(self, args, kw, e):
        items = self.concrete_iter(args[0])
        if items is None:
            return NotImplemented
        out = []
        for x in items:
            a = self.need(x)
            if a.ndim == 1:
                a = (lambda a: Arr((ONE,) + a.shape, lambda idx: a.get(idx[1:])))(a)
            out.append(a)
        return self.concat(out, 0, e)

    b_row_stack = b_vstack

    def b_hstack(self, args, kw, e):
        items = self.concrete_iter(args[0])
        if items is None:
            return NotImplemented
        a = [self.need(x) for x in items]
        return self.concat(a, 0 if all(x.ndim == 1 for x in a) else 1, e)

    def b_column_stack(self, args, kw, e):
        items = self.concrete_iter(args[0])
        out = []
        for x in items:
            a = self.need(x)
            if a.ndim == 1:
                a = (lambda a: Arr(a.shape + (ONE,), lambda idx: a.get(idx[:1])))(a)
            out.append(a)
        return self.concat(out, 1, e)

    def b_numpy_split(self, args, kw, e):
        a, where = self.need(args[0]), args[1]
        ax = num(kw.get('axis', args[2] if len(args) > 2 else ZERO)).as_int()
        if ax is None or not 0 <= ax < a.ndim:
            return NotImplemented
        if isinstance(where, Poly):
            n, k = a.shape[ax].as_int(), where.as_int()
            if n is None or not k or n % k:
                return NotImplemented
            cuts = [P(n // k * i) for i in range(1, k)]
        else:
            cuts = self.concrete_iter(where)
            if cuts is None:
                return NotImplemented
        whole, out = self.box(a), []
        for lo, hi in zip([None] + cuts, cuts + [None]):
            out.append(self.subscript(whole, (SliceV(None, None, None),) * ax + (SliceV(lo, hi, None),), e))
        return self.box(ListC.of(out))

    def b_itertools_product(self, args, kw, e):
        lists = [self.concrete_iter(x) for x in args]
        k = num(kw.get('repeat', ONE)).as_int()
        if k is None or any(x is None for x in lists):
            return NotImplemented
        return ListC.of([tuple(x) for x in itertools.product(*lists, repeat=k)])

    def b_stack(self, args, kw, e):
        ax = num(kw.get('axis', args[1] if len(args) > 1 else ZERO)).as_int()
        a = self.need(args[0])
        if ax == 0:
            return a
        order = list(range(1, a.ndim))
        order.insert(ax, 0)
        return self.transpose(a, order)

    def b_block(self, args, kw, e):
        rows = self.concrete_iter(args[0])
        if rows is None:
            return NotImplemented
        out = []
        for r in rows:
            c = self.concrete_iter(r) if not isinstance(self.unbox(r), Arr) else None
            if c is None:
                out.append(self.need(r))
            else:
                x = self.concat(c, self.need(c[0]).ndim - 1, e)
                if isinstance(x, OpaqueV):
                    return x
                out.append(x)
        if out[0].ndim == 1:
            return self.concat(out, 0, e)
        r = self.concat(out, 0, e)
        return r

    def b_repeat(self, args, kw, e):
        a = self.need(args[0])
        n = num(args[1] if len(args) > 1 else kw.get('repeats'))
        ax = kw.get('axis', args[2] if len(args) > 2 else None)
        if ax is None:
            f = self.reshape(a, [P(-1)]) if a.ndim != 1 else a
            if a.ndim == 0:
                return Arr((n,), lambda idx: a.get(()))
            return Arr((f.shape[0] * n,), lambda idx: f.get((pl.floordiv(idx[0], n),)))
        k = num(ax).as_int()
        sh = list(a.shape)
        sh[k] = sh[k] * n
        return Arr(sh, lambda idx: a.get(idx[:k] + (pl.floordiv(idx[k], n),) + idx[k + 1:]))

    def b_tile(self, args, kw, e):
        a = self.need(args[0])
        r = args[1]
        reps = (num(r),) if isinstance(r, Poly) else tuple(num(x) for x in self.concrete_iter(r))
        n = max(len(reps), a.ndim)
        reps = (ONE,) * (n - len(reps)) + reps
        sh = (ONE,) * (n - a.ndim) + a.shape

        def get(idx):
            out = []
            for k in range(n):
                if sh[k] == ONE:
                    out.append(ZERO)
                elif reps[k] == ONE:
                    out.append(idx[k])
                else:
                    out.append(pl.mod(idx[k], sh[k]))
            return a.get(tuple(out[n - a.ndim:]))
        return Arr([s * t for s, t in zip(sh, reps)], get)

    def b_roll(self, args, kw, e):
        a = self.need(args[0])
        s = num(args[1])
        if a.ndim != 1:
            return NotImplemented
        return Arr(a.shape, lambda idx: a.get((pl.mod(idx[0] - s, a.shape[0]),)))

    def b_flip(self, args, kw, e):
        a = self.need(args[0])
        if a.ndim != 1:
            return NotImplemented
        return Arr(a.shape, lambda idx: a.get((a.shape[0] - 1 - idx[0],)))

    def b_meshgrid(self, args, kw, e):
        arrs = [self.need(x) for x in args]
        ij = kw.get('indexing') == 'ij'
        n = len(arrs)
        order = list(range(n))
        if not ij and n >= 2:
            order[0], order[1] = 1, 0
        sh = [arrs[order[k]].shape[0] for k in range(n)]
        out = []
        for k in range(n):
            pos = order.index(k)
            out.append(Arr(sh, (lambda k, pos: lambda idx: arrs[k].get((idx[pos],)))(k, pos)))
        return ListC.of([self.box(x) for x in out])

    def b_mgrid(self, args, kw, e):
        return NotImplemented

    def b_expand_dims(self, args, kw, e):
        a = self.need(args[0])
        k = num(args[1] if len(args) > 1 else kw['axis']).as_int() % (a.ndim + 1)
        sh = list(a.shape)
        sh.insert(k, ONE)
        return Arr(sh, lambda idx: a.get(idx[:k] + idx[k + 1:]))

    def b_squeeze(self, args, kw, e):
        a = self.need(args[0])
        keep = [k for k in range(a.ndim) if a.shape[k] != ONE]
        if not keep:
            return a.get(tuple(ZERO for _ in a.shape))

        def get(idx):
            full = [ZERO] * a.ndim
            for k, i in zip(keep, idx):
                full[k] = i
            return a.get(tuple(full))
        return Arr([a.shape[k] for k in keep], get)

    def b_atleast_1d(self, args, kw, e):
        a = self.need(args[0])
        return a if a.ndim else Arr((1,), lambda idx: a.get(()))

    def b_ravel(self, args, kw, e):
        a = self.need(args[0])
        return self.reshape(a, [P(-1)]) if a.ndim != 1 else Arr(a.shape, a.get)

    b_flatten = b_ravel

    def b_reshape(self, args, kw, e):
        a = self.need(args[0])
        sh = args[1:] if len(args) > 2 else [args[1]]
        if len(sh) == 1 and not isinstance(sh[0], Poly):
            sh = self.shape_arg(sh[0])
        return self.reshape(a, [num(s) for s in sh])

    def b_transpose(self, args, kw, e):
        a = self.need(args[0])
        if len(args) > 1:
            ax = args[1:] if len(args) > 2 else self.concrete_iter(args[1])
            return self.transpose(a, [num(x).as_int() for x in ax])
        return self.transpose(a)

    def b_swapaxes(self, args, kw, e):
        a = self.need(args[0])
        i, j = num(args[1]).as_int(), num(args[2]).as_int()
        ax = list(range(a.ndim))
        ax[i], ax[j] = ax[j], ax[i]
        return self.transpose(a, ax)

    def b_triu(self, args, kw, e):
        a = self.need(args[0])
        k = num(kw.get('k', args[1] if len(args) > 1 else ZERO))
        return Arr(a.shape, lambda idx: self.gate(cmp_ge(idx[1] - idx[0] - k), lambda: num(a.get(idx))))

    def b_tril(self, args, kw, e):
        a = self.need(args[0])
        k = num(kw.get('k', args[1] if len(args) > 1 else ZERO))
        return Arr(a.shape, lambda idx: self.gate(cmp_ge(idx[0] + k - idx[1]), lambda: num(a.get(idx))))

    def gate(self, c, thunk):
        c = vl.CUR[0].cond(c)
        if c is FALSE:
            return ZERO
        v = thunk()
        return v if c is TRUE else ite(c, v, ZERO)

    def b_diag(self, args, kw, e):
        a = self.need(args[0])
        if len(args) > 1 or kw:
            return NotImplemented
        if a.ndim == 1:
            return Arr((a.shape[0], a.shape[0]),
                       lambda idx: self.gate(cmp_eq(idx[0] - idx[1]), lambda: num(a.get((idx[0],)))))
        return Arr((a.shape[0],), lambda idx: a.get((idx[0], idx[0])))

    b_diagflat = b_diag

    def b_diagonal(self, args, kw, e):
        a = self.need(args[0])
        return Arr((a.shape[0],), lambda idx: a.get((idx[0], idx[0])))

    def b_trace(self, args, kw, e):
        a = self.need(args[0])
        return self.reduce_sum(Arr((a.shape[0],), lambda idx: a.get((idx[0], idx[0]))), None)

    def b_dot(self, args, kw, e):
        return self.unwrap(self.matmul(self.need(args[0]), self.need(args[1])))

    b_matmul = b_dot

    def b_inner(self, args, kw, e):
        a, b = self.need(args[0]), self.need(args[1])
        if a.ndim == 1 and b.ndim == 1:
            return self.matmul(a, b)
        if b.ndim == 2:
            return self.unwrap(self.matmul(a, self.transpose(b)))
        return self.unwrap(self.matmul(a, b))

    def b_vdot(self, args, kw, e):
        return self.b_inner(args, kw, e)

    def b_outer(self, args, kw, e):
        a, b = self.need(args[0]), self.need(args[1])
        if a.ndim != 1:
            a = self.reshape(a, [P(-1)])
        if b.ndim != 1:
            b = self.reshape(b, [P(-1)])
        return Arr((a.shape[0], b.shape[0]), lambda idx: num(a.get(idx[:1])) * num(b.get(idx[1:])))

    def b_kron(self, args, kw, e):
        a, b = self.need(args[0]), self.need(args[1])
        if a.ndim != 2 or b.ndim != 2:
            return NotImplemented

        def get(idx):
            q = [pl.floordiv(idx[k], b.shape[k]) for k in range(2)]
            r = [idx[k] - q[k] * b.shape[k] for k in range(2)]
            return num(a.get(tuple(q))) * num(b.get(tuple(r)))
        return Arr([s * t for s, t in zip(a.shape, b.shape)], get)

    def b_cross(self, args, kw, e):
        a, b = self.need(args[0]), self.need(args[1])
        if a.shape[-1].as_int() != 3 and b.shape[-1].as_int() != 3:
            return NotImplemented
        s = self.bshape(a, b)
        sh, sa, sb = s
        n = len(sh)

        def comp(x, sx, idx, k):
            i = tuple(ZERO if (sx[t] == ONE and sh[t] != ONE) else idx[t] for t in range(n - 1)) + (P(k),)
            return num(x.get(i[n - x.ndim:]))

        def get(idx):
            k = idx[-1].as_int()
            if k is None:
                r = None
                for t in (2, 1, 0):
                    v = get(idx[:-1] + (P(t),))
                    r = v if r is None else ite(cmp_eq(idx[-1] - t), v, r)
                return r
            i, j = (k + 1) % 3, (k + 2) % 3
            return comp(a, sa, idx, i) * comp(b, sb, idx, j) - comp(a, sa, idx, j) * comp(b, sb, idx, i)
        return Arr(sh, get)

    def b_einsum(self, args, kw, e):
        spec = args[0]
        if not isinstance(spec, str):
            return NotImplemented
        spec = spec.replace(' ', '')
        if '...' in spec:
            return NotImplemented
        if '->' in spec:
            ins, out = spec.split('->')
        else:
            ins = spec
            out = ''.join(sorted(c for c in set(ins.replace(',', '')) if ins.count(c) == 1))
        ins = ins.split(',')
        ops = [self.need(x) for x in args[1:]]
        dims = {}
        for s, a in zip(ins, ops):
            if len(s) != a.ndim:
                return NotImplemented
            for c, d in zip(s, a.shape):
                if c not in dims or dims[c].as_int() is None:
                    dims[c] = d
        summed = [c for c in dims if c not in out]

        def get(idx):
            env = dict(zip(out, idx))

            def rec(k, env):
                if k == len(summed):
                    r = ONE
                    for s, a in zip(ins, ops):
                        r = r * num(a.get(tuple(env[c] for c in s)))
                        if not r.t:
                            return r
                    return r
                c = summed[k]
                n = dims[c].as_int()
                if n is not None:
                    return pl.addn([rec(k + 1, dict(env, **{c: P(t)})) for t in range(n)])
                v = pl.fresh('e', isint=True)
                return pl.mk_sum([(v, ZERO, dims[c])], TRUE, rec(k + 1, dict(env, **{c: v})))
            return rec(0, env)
        if not out:
            return get(())
        return Arr([dims[c] for c in out], get)

    def b_tensordot(self, args, kw, e):
        return NotImplemented

    def b_norm(self, args, kw, e):
        a = self.need(args[0])
        ax = kw.get('axis', args[2] if len(args) > 2 else None)
        if len(args) > 1 and args[1] is not None or 'ord' in kw:
            return NotImplemented
        def square(idx):
            x = num(a.get(idx))
            if self.bind_norms is not None and len(x.t) > self.bind_norms and (
                    self.bind_mul is None or pl.has_elem(x)):
                x = vl.let_scalar(x)
            return x * x
        sq = Arr(a.shape, square) if a.ndim else None
        if sq is None:
            return pl.apply_fn('abs', (num(a.get(())),))
        s = self.reduce_sum(sq, ax, kw)
        if isinstance(s, Poly):
            return pl.power(s, F(1, 2))
        return Arr(s.shape, lambda idx: pl.power(num(s.get(idx)), F(1, 2)))

    def b_mean(self, args, kw, e):
        a = self.need(args[0])
        ax = kw.get('axis', args[1] if len(args) > 1 else None)
        s = self.reduce_sum(a, ax, kw)
        n = ONE
        if ax is None:
            for d in a.shape:
                n = n * d
        else:
            n = a.shape[num(ax).as_int()]
        return self.binop(ast.Div(), s, n, e)

    b_average = b_mean

    def b_cumsum(self, args, kw, e):
        a = self.need(args[0])
        if a.ndim != 1:
            return NotImplemented
        n = a.cshape()
        if n is None:
            return NotImplemented
        return Arr(a.shape, lambda idx: pl.addn([num(a.get((P(t),))) for t in range(idx[0].as_int() + 1)])
                   if idx[0].as_int() is not None else opaque('cumsum'))

    def b_where(self, args, kw, e):
        if len(args) == 3:
            c = self.need(args[0])
            a, b = self.need(args[1]), self.need(args[2])
            ab = self.ew2(lambda p, q: (p, q), a, b)
            if isinstance(ab, tuple):
                ab = (lambda t: Arr((), lambda idx: t))(ab)
            r = self.ew2(lambda g, t: merge(self.truth(g), t[0], t[1]), c, ab)
            return self.unwrap(r) if isinstance(r, Arr) else r
        a = self.need(args[0])
        n = [x.as_int() for x in a.shape]
        if None not in n and a.ndim >= 1 and math.prod(n) <= 64:
            hits = []
            for ix in itertools.product(*[range(x) for x in n]):
                t = self.facts.decide(self.truth(a.get(tuple(P(i) for i in ix))))
                if t is None:
                    break
                if t:
                    hits.append(ix)
            else:
                return tuple(self.list_arr(ListC.of([P(h[k]) for h in hits])) for k in range(a.ndim))
        if a.ndim == 1:
            gs = self.gseq(a)
            if gs is not None:
                ent = [(self.facts.cond(c_and(g, self.truth(m))), k) for g, k, m in gs]
                return (self.list_arr(self.guarded_list([x for x in ent if x[0] is not FALSE])),)
        if self.split_guarded and None not in n and math.prod(n) <= self.split_guarded:
            # a few concrete positions: each one is a member under its own condition
            cells = []
            for ix in itertools.product(*[range(x) for x in n]):
                g = self.truth(a.get(tuple(P(i) for i in ix)))
                if self.facts.decide(g) is not False:
                    cells.append((g, ix))
            dom = Domain([], TRUE)
            return tuple(self.list_arr(ListC((('comp', dom, tuple((g, P(ix[k])) for g, ix in cells)),)))
                         for k in range(a.ndim))
        vars_, ix = [], []
        for k in range(a.ndim):
            v = pl.fresh('w', isint=True)
            vars_.append((v, ZERO, a.shape[k]))
            ix.append(v)
        saved = self.facts
        self.facts = saved.extend(*[x for v, lo, hi in vars_ for x in (cmp_ge(v - lo), cmp_gt(hi - v))])
        g = self.truth(a.get(tuple(ix)))
        self.facts = saved
        dom = Domain(vars_, g)
        return tuple(self.list_arr(ListC((('comp', dom, ((TRUE, v),)),))) for v in ix)

    def b_nonzero(self, args, kw, e):
        return self.b_where(args, kw, e)

    def b_flatnonzero(self, args, kw, e):
        a = self.need(args[0])
        return self.b_where([a], {}, e)[0] if a.ndim == 1 else NotImplemented

    def b_argwhere(self, args, kw, e):
        a = self.need(args[0])
        if a.ndim < 1:
            return NotImplemented
        w = self.b_where([a], {}, e)

        def get(idx):
            k = idx[1].as_int()
            return w[k].get(idx[:1]) if k is not None else opaque('argwhere column')
        return Arr((w[0].shape[0], P(a.ndim)), get)

    def b_argmin(self, args, kw, e):
        return NotImplemented

    def b_ix_(self, args, kw, e):
        a, b = self.need(args[0]), self.need(args[1])
        return (Arr((a.shape[0], ONE), lambda idx: a.get(idx[:1])),
                Arr((ONE, b.shape[0]), lambda idx: b.get(idx[1:])))

    def b_inv(self, args, kw, e):
        a = self.need(args[0])
        return LinArr('inv', (a,), a.shape)

    b_pinv = b_inv

    def b_solve(self, args, kw, e):
        a, b = self.need(args[0]), self.need(args[1])
        return LinArr('solve', (a, b), b.shape)

    def b_cho_factor(self, args, kw, e):
        return ('cho', self.box(self.need(args[0])))

    def b_cho_solve(self, args, kw, e):
        f = args[0]
        if isinstance(f, tuple) and f and f[0] == 'cho':
            return LinArr('solve', (self.need(f[1]), self.need(args[1])), self.need(args[1]).shape)
        return NotImplemented

    def b_lu_factor(self, args, kw, e):
        return ('cho', self.box(self.need(args[0])))

    b_lu_solve = b_cho_solve

    def b_spsolve(self, args, kw, e):
        return self.b_solve(args, kw, e)

    def b_det(self, args, kw, e):
        a = self.need(args[0])
        cs = a.cshape()
        if cs != (3, 3) and cs != (2, 2):
            return NotImplemented
        g = lambda i, j: num(a.get((P(i), P(j))))
        if cs == (2, 2):
            return g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0)
        return (g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1))
                - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0))
                + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)))

    def b_coo_matrix(self, args, kw, e):
        v = args[0]
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and len(v[1]) == 2:
            sh = kw.get('shape', args[1] if len(args) > 1 else None)
            if sh is None:
                return NotImplemented
            sh = self.shape_arg(sh)
            d, r, c = self.to_list(v[0]), self.to_list(v[1][0]), self.to_list(v[1][1])
            if d is None or r is None or c is None:
                return NotImplemented
            return CooArr(self, sh, d, r, c)
        a = self.arr(v)
        if a is None:
            return NotImplemented
        b = Arr(a.shape, lambda idx: a.get(idx))
        b.sparse = True
        return b

    b_csr_matrix = b_csc_matrix = b_lil_matrix = b_coo_array = b_csr_array = b_coo_matrix

    def b_issparse(self, args, kw, e):
        a = self.arr(args[0])
        return TRUE if a is not None and a.sparse else FALSE

    def b_interp(self, args, kw, e):
        """Piecewise-linear table lookup kept as a named operation on its arguments."""
        x, xp, fp = [self.need(v) for v in args[:3]]
        from .values import arr_key
        k1, k2 = arr_key(xp), arr_key(fp)
        return self.ew1(lambda q: pl.app('interp', num(q), k1, k2), x)

    # shapes of distance tables
    def b_pdist(self, args, kw, e):
        x = self.need(args[0])
        if len(args) > 1 and args[1] != 'euclidean' or kw.get('metric', 'euclidean') != 'euclidean':
            return NotImplemented
        r = Arr((x.shape[0] * (x.shape[0] - 1) / 2,), lambda idx: opaque('condensed distance'))
        r.pd = x
        return r

    def b_squareform(self, args, kw, e):
        a = self.arr(args[0])
        x = getattr(a, 'pd', None)
        if x is None:
            return NotImplemented
        d = x.shape[1].as_int()

        def get(idx):
            s = pl.addn([(num(x.get((idx[0], P(k)))) - num(x.get((idx[1], P(k))))) ** 2 for k in range(d)])
            return pl.power(s, F(1, 2))
        return Arr((x.shape[0], x.shape[0]), get)

    def b_cdist(self, args, kw, e):
        x, y = self.need(args[0]), self.need(args[1])
        d = x.shape[1].as_int()

        def get(idx):
            s = pl.addn([(num(x.get((idx[0], P(k)))) - num(y.get((idx[1], P(k))))) ** 2 for k in range(d)])
            return pl.power(s, F(1, 2))
        return Arr((x.shape[0], y.shape[0]), get)

    # effects
    def b_savez_compressed(self, args, kw, e):
        self.event('save', (self.deep(args[0]), {k: self.deep(v) for k, v in kw.items()},
                            tuple(self.deep(a) for a in args[1:])), e)
        return None

    b_savez = b_savez_compressed

    def b_numpy_save(self, args, kw, e):
        self.event('save', (self.deep(args[0]), {}, tuple(self.deep(a) for a in args[1:])), e)
        return None

    def b_savetxt(self, args, kw, e):
        self.event('savetxt', (self.deep(args[0]), {}, tuple(self.deep(a) for a in args[1:])), e)
        return None

    def b_os_remove(self, args, kw, e):
        self.event('remove', (self.deep(args[0]),), e)
        return None

    b_unlink = b_os_remove

    def b_exit(self, args, kw, e):
        self.event('exit', tuple(self.deep(a) for a in args), e)
        self.dead = True
        return None

    b_quit = b_sys_exit = b__exit = b_exit

    def b_time(self, args, kw, e):
        return pl.fresh('time')

    b_perf_counter = b_time

    def b_isnan(self, args, kw, e):
        return self._ew(lambda x: pl.truth_atom(('isnan', num(x))), args)

    def b_format(self, args, kw, e):
        return self.to_str(args[0], args[1] if len(args) > 1 else '')

    # -- methods -----------------------------------------------------------
    def call_method(self, obj, name, args, kwargs, e):
        if isinstance(obj, IteV):
            return self.lift1(obj, lambda x: self.call_method(x, name, args, kwargs, e))
        if isinstance(obj, OpaqueV):
            return OpaqueV(obj.reason)
        if isinstance(obj, Ref) and obj.kind == 'list':
            c = self.content(obj)
            if name == 'append':
                self.st.heap[obj.id] = c.plus(ListC.of([self.box(args[0])]))
                return None
            if name == 'extend':
                l = self.to_list(args[0])
                self.st.heap[obj.id] = c.plus(l) if l is not None else ListC((('unknown',),))
                return None
            if name in ('insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
                conc = c.concrete()
                if name == 'pop' and conc is not None and (not args or num(args[0]).as_int() is not None):
                    conc = list(conc)
                    v = conc.pop(num(args[0]).as_int() if args else -1)
                    self.st.heap[obj.id] = ListC.of(conc)
                    return v
                if name == 'insert' and conc is not None and num(args[0]).as_int() is not None:
                    conc = list(conc)
                    conc.insert(num(args[0]).as_int(), self.box(args[1]))
                    self.st.heap[obj.id] = ListC.of(conc)
                    return None
                if name == 'reverse' and conc is not None:
                    self.st.heap[obj.id] = ListC.of(conc[::-1])
                    return None
                if name == 'sort' and conc is not None:
                    r = self.b_sorted([obj], kwargs, e)
                    if r is not NotImplemented:
                        self.st.heap[obj.id] = r
                        return None
                self.st.heap[obj.id] = ListC((('unknown',),))
                return self.opq('list.' + name, e)
            if name == 'copy':
                return ListC(c.parts)
            if name == 'count':
                conc = c.concrete()
                if conc is not None:
                    return pl.addn([P(self.truth(self.compare(ast.Eq(), x, args[0]))) for x in conc] or [ZERO])
            if name == 'index':
                conc = c.concrete()
                if conc is not None:
                    for k, x in enumerate(conc):
                        t = self.facts.decide(self.truth(self.compare(ast.Eq(), x, args[0])))
                        if t is True:
                            return P(k)
                        if t is None:
                            break
            return self.opq('list.' + name, e)
        if isinstance(obj, Ref) and obj.kind == 'dict':
            d = self.content(obj)
            if name == 'items':
                return ListC.of([(k, v) for k, v in d.items()])
            if name == 'keys':
                return ListC.of(list(d))
            if name == 'values':
                return ListC.of(list(d.values()))
            if name == 'get':
                k = self.hashable(args[0])
                if k in d:
                    return d[k]
                return args[1] if len(args) > 1 else None
            if name == 'update':
                dd = dict(d)
                if args and isinstance(args[0], Ref):
                    dd.update(self.content(args[0]))
                dd.update(kwargs)
                self.st.heap[obj.id] = dd
                return None
            return self.opq('dict.' + name, e)
        if isinstance(obj, (str, SymStr)):
            return self.str_method(obj, name, args, kwargs, e)
        if isinstance(obj, (Ref, ViewRef, Arr, ListC, Poly, Cond)):
            if name in ('fill',):
                self.store_sub(obj, SliceV(None, None, None), args[0], e)
                return None
            if name == 'sort' and isinstance(obj, (Ref, ViewRef)):
                self.store_sub(obj, SliceV(None, None, None), self.b_sort([obj], kwargs, e), e)
                return None
            if name in ('astype', 'tocsr', 'tocsc', 'tocoo', 'view', 'conj', 'item'):
                a = self.arr(obj)
                if name == 'item':
                    return num(a)
                if name == 'astype' and args and getattr(args[0], 'name', '') in ('float', 'numpy.float64'):
                    return self.ew1(lambda x: self.b_float([x], {}, e) if isinstance(x, (str, SymStr)) else x, a)
                if name == 'astype' and args and getattr(args[0], 'name', '') in ('int', 'numpy.int64', 'numpy.int32'):
                    return self.ew1(lambda x: x if (isinstance(x, Poly) and x.isint) else pl.apply_fn('trunc', (num(x),)), a)
                return a
            if name == 'tolist':
                return self.b_list([obj], {}, e)
            if name in ('sum', 'dot', 'transpose', 'flatten', 'ravel', 'reshape', 'copy', 'mean',
                        'min', 'max', 'any', 'all', 'repeat', 'squeeze', 'diagonal', 'trace', 'prod',
                        'toarray', 'todense', 'swapaxes', 'round', 'clip', 'nonzero', 'cumsum', 'argsort'):
                return self.call_builtin('numpy.' + name, [obj] + list(args), kwargs, e)
        return self.opq('method .%s' % name, e)

    def str_method(self, s, name, args, kwargs, e):
        if name == 'format':
            return self.str_format(s, args, kwargs, e)
        if name == 'join':
            c = self.concrete_iter(args[0])
            if c is not None:
                parts = []
                for k, x in enumerate(c):
                    if k:
                        parts.append(s)
                    parts.append(x)
                return self.mkstr(parts)
        if isinstance(s, str) and all(isinstance(a, str) or (isinstance(a, Poly) and a.as_int() is not None)
                                      for a in args) and not kwargs:
            a2 = [a if isinstance(a, str) else a.as_int() for a in args]
            if name in ('split', 'rsplit', 'splitlines'):
                return ListC.of(getattr(s, name)(*a2))
            if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'ljust', 'rjust',
                        'zfill', 'center', 'title', 'capitalize'):
                return getattr(s, name)(*a2)
            if name in ('startswith', 'endswith', 'isdigit'):
                return TRUE if getattr(s, name)(*a2) else FALSE
            if name in ('find', 'count', 'index', 'rfind'):
                try:
                    return P(getattr(s, name)(*a2))
                except ValueError:
                    pass
        if name == 'split' and isinstance(s, SymStr) and not args and not kwargs:
            toks, cur = [], []
            for q in s.parts:
                if not isinstance(q, str):
                    cur.append(q)
                    continue
                for piece in re.split(r'(\s+)', q):
                    if piece.isspace():
                        toks.append(cur)
                        cur = []
                    elif piece:
                        cur.append(piece)
            toks.append(cur)
            return ListC.of([self.mkstr(t) for t in toks if t])
        if name in ('replace', 'ljust', 'rjust', 'strip', 'lower', 'upper', 'rstrip', 'lstrip', 'zfill'):
            return SymStr([('strm', name, s if isinstance(s, str) else s.parts, tuple(self.freeze(a) if not isinstance(a, SymStr) else a.parts for a in args))])
        return self.opq('string method ' + name, e)

    def str_format(self, s, args, kwargs, e):
        if not isinstance(s, str):
            return SymStr([s, ('fmt', tuple(self.freeze(a) for a in args))])
        import string
        out = []
        k = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    out.append(lit)
                if field is None:
                    continue
                if field == '':
                    v = args[k]
                    k += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    return self.opq('format field', e)
                out.append(self.to_str(v, spec or ''))
        except (IndexError, ValueError):
            return self.opq('format', e)
        return self.mkstr(out)


def _prod(t):
    r = 1
    for x in t:
        r *= x
    return r


def scalar_pow(a, b):
    c = b.const()
    if c is not None:
        if c.denominator > 12:
            return pl.app('pow', a, b, pos=pl.is_positive(a))
        return pl.power(a, c)
    ac = a.const()
    if ac == 1:
        return ONE
    if ac == -1 and b.isint:
        # (-1)**n
        return pl.app('altsign', b)
    return pl.app('pow', a, b, pos=pl.is_positive(a))


def scalar_cmp(t, a, b):
    if t is ast.Eq:
        return cmp_eq(a - b)
    if t is ast.NotEq:
        return c_not(cmp_eq(a - b))
    if t is ast.Lt:
        return cmp_gt(b - a)
    if t is ast.LtE:
        return cmp_ge(b - a)
    if t is ast.Gt:
        return cmp_gt(a - b)
    if t is ast.GtE:
        return cmp_ge(a - b)
    return opaque_cond('comparison %s' % t.__name__)


def scalar_minmax(name, vals):
    r = vals[0]
    for v in vals[1:]:
        c = cmp_ge(r - v) if name == 'max' else cmp_ge(v - r)
        r = ite(vl.CUR[0].cond(c), r, v)
    return r


def _mk_exp(x):
    if not x.t:
        return ONE
    return pl.from_atom(pl.mk_atom('app', ('exp', x), pos=True))


def _mk_log(x):
    c = x.const()
    if c == 1:
        return ZERO
    if c is not None and 0 < c < 1:
        return -_mk_log(P(1 / c))
    # log of a monomial: log(1/x) = -log(x)
    if len(x.t) == 1:
        (m, k), = x.t.items()
        if k == 1 and len(m) == 1 and m[0][1] != 1:
            at = pl.atom_by_id(m[0][0])
            e = F(m[0][1])
            if at.kind == 'poly':
                return pl.scale(_mk_log(at.args[0]), e)
            return pl.scale(_mk_log(pl.from_atom(at)), e)
        if k == 1 and len(m) > 1:
            return pl.addn([pl.scale(_mk_log(pl.from_atom(pl.atom_by_id(a)) if pl.atom_by_id(a).kind != 'poly'
                                             else pl.atom_by_id(a).args[0]), F(e_)) for a, e_ in m])
    return pl.from_atom(pl.mk_atom('app', ('log', x)))


def _odd(name):
    def f(x):
        if not x.t:
            return ZERO
        lead = max(x.t, key=lambda m: (len(m), m))
        if x.t[lead] < 0:
            return -pl.from_atom(pl.mk_atom('app', (name, -x)))
        return pl.from_atom(pl.mk_atom('app', (name, x)))
    return f


def _even(name, at0):
    def f(x):
        if not x.t:
            return at0
        lead = max(x.t, key=lambda m: (len(m), m))
        if x.t[lead] < 0:
            x = -x
        return pl.from_atom(pl.mk_atom('app', (name, x)))
    return f


pl.FN_TABLE['exp'] = _mk_exp
pl.FN_TABLE['log'] = _mk_log
pl.FN_TABLE['sin'] = _odd('sin')
pl.FN_TABLE['arcsin'] = _odd('arcsin')
pl.FN_TABLE['arctan'] = _odd('arctan')
pl.FN_TABLE['tanh'] = _odd('tanh')
pl.FN_TABLE['sinh'] = _odd('sinh')
pl.FN_TABLE['cos'] = _even('cos', ONE)
pl.FN_TABLE['cosh'] = _even('cosh', ONE)
pl.FN_TABLE['erfc'] = lambda x: ONE if not x.t else pl.from_atom(pl.mk_atom('app', ('erfc', x), pos=True))
pl.FN_TABLE['trunc'] = lambda x: x if x.isint else (
    P(int(x.const())) if x.const() is not None else pl.from_atom(pl.mk_atom('app', ('trunc', x), isint=True)))
pl.FN_TABLE['round'] = lambda x: x if x.isint else pl.from_atom(pl.mk_atom('app', ('round', x), isint=True))

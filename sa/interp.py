"""Abstract interpreter over Python syntax trees.

Builds value graphs (sa.poly / sa.values) for the functions of the program under
analysis.  Branches on undecided conditions are both followed and their states
joined with gated values; loops over symbolic ranges are summarised once for a
generic iteration.  No program code is imported or executed.
"""
import ast
import os
from fractions import Fraction as F
from . import poly as pl
from . import values as vl
from .poly import (Poly, Cond, P, ZERO, ONE, TRUE, FALSE, c_and, c_not, c_or, cmp_ge, cmp_gt,
                   cmp_eq, ite, sym, opaque, opaque_cond)
from .facts import Facts
from .values import (Arr, Ref, ViewRef, OpaqueV, UNBOUND, IteV, SymStr, RangeV, SliceV, ListC,
                     Domain, Store, Upd, merge, subst_value, base_arr, CUR, CooArr)


class AnalysisError(Exception):
    """The analysed construct (anchor) is missing or cannot be read."""


class Func:
    def __init__(self, mod, node, closure=None, name=None):
        self.mod, self.node, self.closure = mod, node, closure
        self.name = name or getattr(node, 'name', '<lambda>')

    def __repr__(self):
        return "<func %s.%s>" % (self.mod.name, self.name)


class Builtin:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<builtin %s>" % self.name


class ModuleV:
    def __init__(self, name):
        self.name = name


class Method:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ClassV:
    def __init__(self, mod, node):
        self.mod, self.node = mod, node


class ObjV:
    """Instance of an analysed class (attributes on the heap)."""
    def __init__(self, ref, cls):
        self.ref, self.cls = ref, cls


class IterSpec:
    """Symbolic iteration: list of (Domain vars, guard, items[(guard,value)], pos)."""
    def __init__(self, segs):
        self.segs = segs


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.defs = {}        # name -> node (last top-level binding)
        self.multi = set()    # names bound more than once / conditionally
        self.stars = []
        self._scan(self.tree.body, True)

    def _bind(self, name, node, top):
        if name in self.defs or not top:
            self.multi.add(name)
        self.defs[name] = node

    def _scan(self, body, top):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.defs[a.asname] = ('import', a.name)
                    else:
                        self.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(n.module)
                    else:
                        self.defs[a.asname or a.name] = ('from', n.module, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            self._bind(x.id, ('assign', t, n.value), top)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    self._bind(n.target.id, ('assign', n.target, n.value), top)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    self._bind(n.target.id, ('aug', n), top)
                    self.multi.add(n.target.id)
            elif isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for f in ('body', 'orelse', 'finalbody'):
                    self._scan(getattr(n, f, []) or [], False)
                for h in getattr(n, 'handlers', []) or []:
                    self._scan(h.body, False)


class State:
    __slots__ = ("locals", "heap", "globs")

    def __init__(self, locals_, heap, globs):
        self.locals, self.heap, self.globs = locals_, heap, globs

    def copy(self):
        return State(dict(self.locals), dict(self.heap), {m: dict(d) for m, d in self.globs.items()})


PARENTS = {'IndexError': 'LookupError', 'KeyError': 'LookupError', 'UnboundLocalError': 'NameError',
           'ZeroDivisionError': 'ArithmeticError', 'FileNotFoundError': 'OSError', 'UnicodeDecodeError': 'ValueError'}


def catches(t, kind):
    """Does an except clause of type t catch this exception?"""
    if t is None:
        return True
    if isinstance(t, ast.Tuple):
        return any(catches(x, kind) for x in t.elts)
    n = t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '')
    n = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}.get(n, n)
    return n in (kind, PARENTS.get(kind), 'Exception', 'BaseException') or not kind


class Frame:
    def __init__(self, func, base):
        self.func = func
        self.base = base            # length of interp.full at entry
        self.exits = []             # (kind, guard, value, state)
        self.globals_decl = set()
        self.loopdepth = 0


MAX_UNROLL = 16


def assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


def touched_names(s):
    """Names a statement binds or mutates in place."""
    out = set()
    for x in ast.walk(s):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
            b = x
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
                'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'fill', 'update'):
            b = x.func.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
    return out


from .npmodel import NumpyModel      # noqa: E402


_nn = {}


def never_negative(p):
    """Syntactic: every term is a product of things that are not negative, on every gate."""
    r = _nn.get(p)
    if r is None:
        r = _nn[p] = pl.is_positive(p) or all(
            k >= 0 and all(_low_atom(pl.atom_by_id(a), e) for a, e in m) for m, k in p.t.items())
    return r


def _low_atom(at, e):
    if at.pos or e > 0 and e % 2 == 0 or at.kind == 'sym' and at.args[0].startswith('carried_'):
        return True
    return at.kind == 'ite' and e > 0 and never_negative(at.args[1]) and never_negative(at.args[2])


class Interp(NumpyModel):
    def __init__(self, roots, overrides=None, hooks=None, facts=None):
        self.roots = roots
        self.modules = {}
        self.overrides = overrides or {}
        self.hooks = hooks or {}
        self.st = State({}, {}, {})
        self._facts = facts or Facts()
        self.facts0 = self._facts
        self.modheap = {}
        CUR[0] = self._facts
        self.full = ()
        self.frames = []
        self.cut_series = []
        self.events = []
        self.notes = {}
        self.funcs_seen = {}
        self.ncalls = 0
        self.nbranches = 0
        self.nloops = 0
        self.memo = {}
        self.derived = {}
        self.globcache = {}
        self.unbound_reads = []
        self.tries = []
        self.cur_node = None

    # -- facts -------------------------------------------------------------
    @property
    def facts(self):
        return self._facts

    @facts.setter
    def facts(self, f):
        self._facts = f
        CUR[0] = f

    def note(self, kind, node=None):
        n = node if node is not None else self.cur_node
        where = self.where(n)
        self.notes.setdefault(kind, set()).add(where)
        return "%s at %s" % (kind, where)

    def where(self, node):
        fn = self.frames[-1].func if self.frames else None
        path = os.path.relpath(fn.mod.path, '/repo') if fn else '?'
        return "%s:%s (%s)" % (path, getattr(node, 'lineno', '?'), fn.name if fn else 'module')

    def opq(self, kind, node=None):
        return OpaqueV(self.note(kind, node))

    # -- modules -----------------------------------------------------------
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            for r in self.roots:
                p = os.path.join(r, *name.split('.')) + '.py'
                if os.path.isfile(p):
                    m = Module(name, p)
                    break
            self.modules[name] = m
        return m

    def func(self, mod, name):
        m = self.module(mod)
        if m is None:
            raise AnalysisError("module %s not found" % mod)
        n = m.defs.get(name)
        if isinstance(n, tuple) and n[0] == 'from':
            return self.func(n[1], n[2])
        if n is None:
            for s in m.stars:
                sm = self.module(s)
                if sm is not None and name in sm.defs:
                    return self.func(s, name)
        if not isinstance(n, ast.FunctionDef):
            raise AnalysisError("function %s.%s not found" % (mod, name))
        return Func(m, n)

    def global_value(self, mod, name, depth=0):
        key = (mod.name, name)
        g = self.st.globs.get(mod.name)
        if g is not None and name in g:
            return g[name]
        for k in (mod.name + '.' + name,):
            if k in self.overrides:
                v = self.overrides[k]
                return v
        if key in self.globcache:
            return self.globcache[key]
        n = mod.defs.get(name)
        v = None
        if n is None:
            for s in mod.stars:
                sm = self.module(s)
                if sm is not None:
                    if (s + '.' + name) in self.overrides:
                        return self.overrides[s + '.' + name]
                    if depth < 6:
                        v = self.global_value(sm, name, depth + 1)
                        if v is not UNBOUND:
                            return v
            return UNBOUND
        if isinstance(n, ast.FunctionDef):
            v = Func(mod, n)
        elif isinstance(n, ast.ClassDef):
            v = ClassV(mod, n)
        elif n[0] == 'import':
            v = ModuleV(n[1])
        elif n[0] == 'from':
            sm = self.module(n[1]) if n[1] else None
            if sm is not None:
                v = self.global_value(sm, n[2], depth + 1)
            else:
                # a submodule of a package, or an external name
                if n[1] and self.module(n[1] + '.' + n[2]) is not None:
                    v = ModuleV(n[1] + '.' + n[2])
                else:
                    v = self.extern((n[1] or '') + '.' + n[2])
        else:
            self.globcache[key] = OpaqueV("module variable %s.%s" % key)
            v = self.module_slice(mod, name)
        self.globcache[key] = v
        return v

    def module_slice(self, mod, name):
        """Value of a module variable after the top-level statements that bear on it."""
        need, chosen = {name}, set()
        body = mod.tree.body
        grew = True
        while grew:
            grew = False
            for k, s in enumerate(body):
                if k in chosen or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                    continue
                if not (touched_names(s) & need):
                    continue
                chosen.add(k)
                grew = True
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in mod.multi:
                        need.add(x.id)
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        need.add(x.id)
        saved = (self.st, self.full, self.facts, self.frames, self.cur_node)
        self.st = State({}, self.modheap, {})
        self.full, self.facts = (), self.facts0
        self.frames = [Frame(Func(mod, ast.parse("def _m(): pass").body[0], name='<module>'), 0)]
        try:
            self.exec_block([body[k] for k in sorted(chosen)])
            self.modheap = self.st.heap
            v = self.st.locals.get(name, OpaqueV("module variable %s.%s" % (mod.name, name)))
        finally:
            self.st, self.full, self.facts, self.frames, self.cur_node = saved
        return v

    def run_module(self, name, preset=None):
        """Interpret a script from its first to its last statement; its variables are in st.globs."""
        mod = self.module(name)
        if mod is None:
            raise AnalysisError('module %s not found' % name)
        body = [s for s in mod.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import,
                                                               ast.ImportFrom))]
        names = assigned_names(body)
        g = self.st.globs.setdefault(name, {})
        for n in names:
            d = mod.defs.get(n)
            if not (isinstance(d, tuple) and d[0] in ('import', 'from')):
                g.setdefault(n, UNBOUND)
        g.update(preset or {})
        fn = ast.parse('def module(): pass').body[0]
        fn.body = [ast.Global(names=sorted(names))] + body
        fn.lineno = 1
        f = Func(mod, fn)
        self.call_func(f, [], {})
        return self.st.globs[name]

    # -- heap --------------------------------------------------------------
    def box(self, v):
        """Give identity to a freshly computed container."""
        if isinstance(v, Arr):
            if v.ndim == 0:
                return v.get(())
            r = Ref('array')
            self.st.heap[r.id] = v
            return r
        if isinstance(v, ListC):
            r = Ref('list')
            self.st.heap[r.id] = v
            return r
        if isinstance(v, tuple):
            return tuple(self.box(x) for x in v)
        return v

    def content(self, r):
        c = self.st.heap.get(r.id)
        return c if c is not None else self.modheap[r.id]

    def unbox(self, v):
        """Immutable snapshot of a value (arrays / lists dereferenced)."""
        if isinstance(v, Ref):
            c = self.content(v)
            if v.kind == 'list':
                return c
            return c
        if isinstance(v, ViewRef):
            return self.view_arr(v)
        return v

    def deep(self, v):
        v = self.unbox(v)
        if isinstance(v, tuple):
            return tuple(self.deep(x) for x in v)
        if isinstance(v, ListC):
            parts = []
            for p in v.parts:
                if p[0] == 'items':
                    parts.append(('items', tuple(self.deep(x) for x in p[1])))
                elif p[0] == 'comp':
                    parts.append(('comp', p[1], tuple((g, self.deep(x)) for g, x in p[2])))
                else:
                    parts.append(p)
            return ListC(parts)
        return v

    def view_arr(self, v):
        base = self.content(v.ref)
        return Arr(v.shape, lambda idx: base.get(v.to_base(idx)))

    # -- merging -----------------------------------------------------------
    def merge_values(self, c, a, b, heap):
        """Merge two local values; Refs to different arrays become a new array."""
        if a is b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_values(c, x, y, heap) for x, y in zip(a, b))

        def snap(v):
            if isinstance(v, Ref):
                return heap.get(v.id, self.modheap.get(v.id))
            if isinstance(v, ViewRef):
                base = heap.get(v.ref.id, self.modheap.get(v.ref.id))
                return Arr(v.shape, lambda idx: base.get(v.to_base(idx)))
            return v
        if isinstance(a, (Ref, ViewRef)) and isinstance(b, (Ref, ViewRef)):
            x, y = snap(a), snap(b)
            if isinstance(x, dict) or isinstance(y, dict):
                return IteV(c, a, b)
            m = merge(c, x, y)
            if isinstance(m, (Arr, ListC)):
                r = Ref('array' if isinstance(m, Arr) else 'list')
                heap[r.id] = m
                return r
            return IteV(c, a, b)
        return merge(c, a, b)

    def merge_states(self, c, sa, sb):
        heap = dict(sb.heap)
        for k, v in sa.heap.items():
            if k in sb.heap:
                w = sb.heap[k]
                if v is not w:
                    heap[k] = self.merge_content(c, v, w, sa.heap, sb.heap)
            elif k in self.modheap and v is not self.modheap[k]:
                heap[k] = self.merge_content(c, v, self.modheap[k], sa.heap, sb.heap)
            else:
                heap[k] = v
        for k, w in sb.heap.items():
            if k not in sa.heap and k in self.modheap and w is not self.modheap[k]:
                heap[k] = self.merge_content(c, self.modheap[k], w, sa.heap, sb.heap)
        loc = {}
        for k in set(sa.locals) | set(sb.locals):
            a, b = sa.locals.get(k, UNBOUND), sb.locals.get(k, UNBOUND)
            loc[k] = self.merge_values(c, a, b, heap)
        globs = {}
        for m in set(sa.globs) | set(sb.globs):
            da, db = sa.globs.get(m, {}), sb.globs.get(m, {})
            d = {}
            for k in set(da) | set(db):
                a = da.get(k, None)
                b = db.get(k, None)
                if k not in da or k not in db:
                    prior = self.prior_global(m, k)
                    a = da.get(k, prior)
                    b = db.get(k, prior)
                d[k] = self.merge_values(c, a, b, heap)
            globs[m] = d
        return State(loc, heap, globs)

    def prior_global(self, m, k):
        mod = self.module(m)
        return self.global_value(mod, k) if mod else UNBOUND

    def merge_content(self, c, v, w, ha, hb):
        if isinstance(v, Store) or isinstance(w, Store):
            # common base + suffixes guarded by the branch
            vu = v.upds if isinstance(v, Store) else ()
            wu = w.upds if isinstance(w, Store) else ()
            vb = v.base if isinstance(v, Store) else v
            wb = w.base if isinstance(w, Store) else w
            if vb is wb:
                n = 0
                while n < len(vu) and n < len(wu) and vu[n] is wu[n]:
                    n += 1
                ups = list(vu[:n])
                for u in vu[n:]:
                    ups.append(Upd(u.vars, c_and(u.guard, c), u.starts, u.widths, u.val, u.mode, u.where))
                nc = c_not(c)
                for u in wu[n:]:
                    ups.append(Upd(u.vars, c_and(u.guard, nc), u.starts, u.widths, u.val, u.mode, u.where))
                return Store(self, vb, tuple(ups))
        if isinstance(v, dict) and isinstance(w, dict):
            d = {}
            for k in list(v) + [k for k in w if k not in v]:
                d[k] = merge(c, v.get(k, UNBOUND), w.get(k, UNBOUND))
            return d
        return merge(c, v, w)

    # -- running functions -------------------------------------------------
    def call_func(self, f, args, kwargs, node=None):
        name = f.mod.name + '.' + f.name
        hook = self.hooks.get(name) or self.hooks.get(f.name)
        if hook is not None:
            bound = self.bind_args(f, args, kwargs, node)
            r = hook(self, bound, node)
            if r is not NotImplemented:
                return r
        if len(self.frames) > 80:
            return self.opq('recursion', node)
        self.ncalls += 1
        self.funcs_seen[name] = self.funcs_seen.get(name, 0) + 1
        bound = self.bind_args(f, args, kwargs, node)
        if isinstance(bound, OpaqueV):
            return bound
        key = self.memo_key(f, bound)
        if key is not None and key in self.memo:
            return self.memo[key]
        r, pure = self.run_body(f, bound)
        if key is not None and pure and isinstance(r, (Poly, Cond)):
            self.memo[key] = r
        return r

    def memo_key(self, f, bound):
        if f.closure is not None or isinstance(f.node, ast.Lambda):
            return None
        out = [f.mod.name, f.name, self.facts.uid]
        for k, v in bound.items():
            fz = self.freeze(v)
            if fz is None:
                return None
            out.append((k, fz))
        return tuple(out)

    def freeze(self, v):
        if isinstance(v, (Poly, Cond, str)) or v is None:
            return v
        if isinstance(v, tuple):
            out = []
            for x in v:
                y = self.freeze(x)
                if y is None and x is not None:
                    return None
                out.append(y)
            return tuple(out)
        if isinstance(v, (Ref, ViewRef, Arr)):
            if isinstance(v, Ref) and v.kind == 'list':
                c = self.content(v).concrete() if isinstance(self.content(v), ListC) else None
                if c is None:
                    return ('id', v.id, id(self.content(v)))
                return self.freeze(tuple(c))
            if isinstance(v, Ref) and v.kind == 'array':
                c = self.content(v)
                cs = c.cshape() if isinstance(c, Arr) else None
                if cs is None or _prod(cs) > 12:
                    KEEP.append(c)
                    return ('id', id(c))
            a = self.unbox(v)
            if not isinstance(a, Arr):
                return None
            cs = a.cshape()
            if cs is None or _prod(cs) > 12:
                return None
            out = []
            for i in a.indices():
                e = a.get(i)
                if not isinstance(e, (Poly, Cond)):
                    return None
                out.append(e)
            return ('A', cs, tuple(out))
        return None

    def bind_args(self, f, args, kwargs, node=None):
        a = f.node.args
        params = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        b = {}
        args = list(args)
        if len(args) > len(params):
            if a.vararg is None:
                return self.opq('call of %s with %d positional arguments for %d parameters'
                                % (f.name, len(args), len(params)), node)
            b[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            b[a.vararg.arg] = ()
        for n, v in zip(params, args):
            b[n] = v
        kwx = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in params or k in konly:
                if k in b:
                    return self.opq('duplicate argument %s for %s' % (k, f.name), node)
                b[k] = v
            elif a.kwarg is not None:
                kwx[k] = v
            else:
                return self.opq('unknown argument %s for %s' % (k, f.name), node)
        if a.kwarg is not None:
            r = Ref('dict')
            self.st.heap[r.id] = kwx
            b[a.kwarg.arg] = r
        nd = len(a.defaults)
        for k, p in enumerate(params):
            if p not in b:
                j = k - (len(params) - nd)
                if j < 0:
                    return self.opq('missing argument %s for %s' % (p, f.name), node)
                b[p] = self.eval_in(f, a.defaults[j])
        for k, p in enumerate(konly):
            if p not in b:
                if a.kw_defaults[k] is None:
                    return self.opq('missing argument %s for %s' % (p, f.name), node)
                b[p] = self.eval_in(f, a.kw_defaults[k])
        return {k: self.box(v) for k, v in b.items()}

    def eval_in(self, f, expr):
        saved, fr = self.st.locals, self.frames
        self.st.locals = dict(f.closure or {})
        self.frames = self.frames + [Frame(f, len(self.full))]
        try:
            return self.eval(expr)
        finally:
            self.st.locals, self.frames = saved, fr

    def run_body(self, f, bound):
        saved_locals = self.st.locals
        loc = dict(f.closure) if f.closure else {}
        loc.update(bound)
        heap_before = dict(self.st.heap)
        nev = len(self.events)
        self.st.locals = loc
        fr = Frame(f, len(self.full))
        fr.saved = saved_locals
        full0, facts0 = self.full, self.facts
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                live = True
                fr.exits.append(('return', TRUE, v, self.st))
                live = False
            else:
                live = self.exec_block(f.node.body)
            if live:
                g = c_and(*self.full[fr.base:])
                fr.exits.append(('return', g, None, self.st))
        finally:
            self.frames.pop()
        self.full, self.facts = full0, facts0
        rets = [e for e in fr.exits if e[0] == 'return']
        if not rets:
            # every path ends the program
            self.st = State(saved_locals, self.st.heap, self.st.globs)
            self.dead = True
            return OpaqueV("no return from %s" % f.name), False
        # fold: first exits have priority
        val, st = rets[-1][2], rets[-1][3]
        for kind, g, v, s in reversed(rets[:-1]):
            dec = self.facts.decide(g)
            if dec is True:
                val, st = v, s
                continue
            if dec is False:
                continue
            merged = self.merge_states(g, s, st)
            if isinstance(v, (Ref, ViewRef, tuple)) or isinstance(val, (Ref, ViewRef, tuple)):
                val = self.merge_values(g, v, val, merged.heap)
            else:
                val = merge(g, v, val)
            st = merged
        pure = len(self.events) == nev
        if pure:
            for k, v in heap_before.items():
                if st.heap.get(k) is not v:
                    pure = False
                    break
        self.st = State(saved_locals, st.heap, st.globs)
        return val, pure

    # -- statements --------------------------------------------------------
    def exec_block(self, stmts):
        for s in stmts:
            if not self.exec(s):
                return False
        return True

    def exec(self, s):
        self.cur_node = s
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.note('statement ' + type(s).__name__, s)
            for n in assigned_names([s]):
                self.setname(n, OpaqueV('unsupported statement'))
            return True
        r = m(s)
        return True if r is None else r

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            if a.asname:
                self.setname(a.asname, ModuleV(a.name))
            else:
                self.setname(a.name.split('.')[0], ModuleV(a.name.split('.')[0]))

    def x_ImportFrom(self, s):
        for a in s.names:
            if a.name == '*':
                continue
            sm = self.module(s.module) if s.module else None
            if sm is not None:
                self.setname(a.asname or a.name, self.global_value(sm, a.name))
            else:
                self.setname(a.asname or a.name, self.extern((s.module or '') + '.' + a.name))

    def x_Global(self, s):
        self.frames[-1].globals_decl |= set(s.names)

    def x_Nonlocal(self, s):
        pass

    def x_FunctionDef(self, s):
        f = Func(self.frames[-1].func.mod, s, closure=self.st.locals)
        self.setname(s.name, f)

    def x_ClassDef(self, s):
        self.setname(s.name, ClassV(self.frames[-1].func.mod, s))

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.dead = False
        self.eval(s.value)
        if self.dead:
            self.dead = False
            return False

    dead = False

    def x_Assign(self, s):
        self.dead = False
        v = self.eval(s.value)
        if self.dead:
            self.dead = False
            return False
        v = self.box(v)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.box(self.eval(s.value)))

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                if isinstance(o, Ref) and o.kind == 'list':
                    c = self.content(o).concrete()
                    k = self.eval(t.slice)
                    if c is not None and isinstance(k, Poly) and k.as_int() is not None:
                        c = list(c)
                        del c[k.as_int()]
                        self.st.heap[o.id] = ListC.of(c)
                        continue
                    self.st.heap[o.id] = ListC((('unknown',),))

    def x_Return(self, s):
        fr = self.frames[-1]
        self.dead = False
        v = self.eval(s.value) if s.value is not None else None
        if self.dead:
            self.dead = False
            return False
        v = self.box(v)
        fr.exits.append(('return', c_and(*self.full[fr.base:]), v, self.st))
        return False

    def x_Break(self, s):
        fr = self.frames[-1]
        fr.exits.append(('break', c_and(*self.full[fr.base:]), None, self.st))
        return False

    def x_Continue(self, s):
        fr = self.frames[-1]
        fr.exits.append(('continue', c_and(*self.full[fr.base:]), None, self.st))
        return False

    def x_Raise(self, s):
        x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        self.raise_now(x.id if isinstance(x, ast.Name) else '', s)
        return False

    def raise_now(self, kind, node):
        """An exception that certainly occurs on the current path."""
        self.dead = True
        self.reraise(kind, node, self.st.copy(), self.facts, self.full)

    def reraise(self, kind, node, st, facts, full):
        if not self.tries or self.tries[-1][0] not in self.frames:
            cur, self.full = self.full, full
            self.event('raise', (kind,), node)
            self.full = cur
            return
        frame, base, out = self.tries[-1]
        i = self.frames.index(frame)
        if i + 1 < len(self.frames):
            st = State(dict(self.frames[i + 1].saved), st.heap, st.globs)
        out.append((kind, c_and(*full[base:]), st, facts, full, node))

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        if self.facts.decide(c) is None and not c.bad:
            self.facts = self.facts.extend(c)

    def x_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.exec_block(s.body)

    def x_Try(self, s):
        # exceptional control flow is over-approximated: handlers that bind
        # names make those names gated on an unknown condition
        entry = (self.frames[-1], len(self.full), [])
        self.tries.append(entry)
        live = self.exec_block(s.body)
        self.tries.pop()
        if live and s.orelse:
            live = self.exec_block(s.orelse)
        for kind, guard, st, facts, full, node in entry[2]:
            h = next((h for h in s.handlers if catches(h.type, kind)), None)
            if h is None:
                self.reraise(kind, node, st, facts, full)
                continue
            cur = self.st, self.facts, self.full
            self.st, self.facts, self.full = st, facts, full
            if h.name:
                self.setname(h.name, OpaqueV('exception'))
            lh = self.exec_block(h.body)
            if lh and live:
                st = self.merge_states(guard, self.st, cur[0])
                self.st, self.facts, self.full = st, cur[1], cur[2]
            elif not lh:
                self.st, self.facts, self.full = cur
            live = live or lh
        if live and not entry[2]:
            for h in s.handlers:
                g = opaque_cond('exception handler')
                full0, facts0 = self.full, self.facts
                st0 = self.st
                self.st = st0.copy()
                self.full = full0 + (g,)
                lh = self.exec_block(h.body)
                sth = self.st
                self.full, self.facts = full0, facts0
                self.st = self.merge_states(g, sth, st0) if lh else st0
        if s.finalbody:
            l2 = self.exec_block(s.finalbody)
            live = live and l2
        return live

    def x_If(self, s):
        self.dead = False
        c = self.truth(self.eval(s.test))
        if self.dead:
            self.dead = False
            return False
        dec = self.facts.decide(c)
        if dec is True:
            return self.exec_block(s.body)
        if dec is False:
            return self.exec_block(s.orelse)
        self.nbranches += 1
        st0, facts0, full0 = self.st, self.facts, self.full
        fa, fb = facts0.extend(c), facts0.extend(c_not(c))
        self.st, self.facts, self.full = st0.copy(), fa, full0 + (c,)
        la = self.exec_block(s.body)
        sa, fa, ga = self.st, self.facts, self.full
        self.st, self.facts, self.full = st0.copy(), fb, full0 + (c_not(c),)
        lb = self.exec_block(s.orelse)
        sb, fb, gb = self.st, self.facts, self.full
        if la and lb:
            self.facts, self.full = facts0, full0
            self.st = self.merge_states(c, sa, sb)
            return True
        if la:
            self.st, self.facts, self.full = sa, fa, ga
            return True
        if lb:
            self.st, self.facts, self.full = sb, fb, gb
            return True
        return False

    def x_AugAssign(self, s):
        t = s.target
        self.dead = False
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, t)
            new = self.eval(s.value)
            if isinstance(old, Ref) and old.kind == 'array':
                r = self.binop(s.op, old, new, s)
                r = self.unbox(r)
                if isinstance(r, Arr):
                    self.st.heap[old.id] = r
                else:
                    self.setname(t.id, r)
                return
            if isinstance(old, ViewRef):
                r = self.unbox(self.binop(s.op, old, new, s))
                if isinstance(r, Arr):
                    self.store_view(old, r)
                    return
            if isinstance(old, Ref) and old.kind == 'list' and isinstance(s.op, ast.Add):
                c = self.to_list(new)
                if c is not None:
                    self.st.heap[old.id] = self.content(old).plus(c)
                else:
                    self.st.heap[old.id] = ListC((('unknown',),))
                return
            self.setname(t.id, self.box(self.binop(s.op, old, new, s)))
            return
        if isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            idx = self.eval(t.slice)
            old = self.subscript(obj, idx, t)
            new = self.eval(s.value)
            r = self.binop(s.op, old, new, s)
            self.store_sub(obj, idx, r, t)
            return
        if isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            old = self.attribute(obj, t.attr, t)
            self.set_attr(obj, t.attr, self.binop(s.op, old, self.eval(s.value), s))

    # -- loops -------------------------------------------------------------
    def x_For(self, s):
        it = self.eval(s.iter)
        conc = self.concrete_iter(it)
        if conc is not None:
            if self.retry and len(conc) > self.retry and any(isinstance(x, ast.Break) for x in ast.walk(s)):
                done = self.accepting_pass(s, None, conc)
                if done is not None:
                    return done
            return self.unroll(s, conc)
        spec = self.symbolic_iter(it, s)
        if spec is None:
            self.note('loop over uninterpreted iterable', s)
            self.havoc(s.body, s.target, 'loop over uninterpreted iterable')
            return True
        for seg in spec.segs:
            if seg[0] == 'items':
                if not self.unroll(s, list(seg[1]), orelse=False):
                    return False
            else:
                _, vars_, guard, items, pos = seg
                cases = self.cases(vars_, guard, items, pos)
                if cases is not None:
                    if not self.unroll(s, [v for g, v in cases], orelse=False,
                                       guards=[g for g, v in cases]):
                        return False
                    continue
                self.summarise(s, vars_, guard, items, pos)
        if s.orelse:
            return self.exec_block(s.orelse)
        return True

    cuts = {}              # (module, variable) -> function replacing what is stored there
    split_guarded = 0      # largest guarded domain with concrete bounds taken case by case

    def cases(self, vars_, guard, items, pos):
        """(guard, value) of each member of a small guarded domain, in order."""
        if not self.split_guarded:
            return None
        tup = [{}]
        for v, lo, hi in vars_:
            nxt = []
            for mp in tup:
                l, h = pl.subst(lo, mp).as_int(), pl.subst(hi, mp).as_int()
                if l is None or h is None:
                    return None
                nxt += [{**mp, v: P(i)} for i in range(l, h)]
                if len(nxt) > self.split_guarded:
                    return None
            tup = nxt
        out = []
        for mp in tup:
            for g, val in items:
                gg = c_and(pl.subst_cond(guard, mp), pl.subst_cond(g, mp))
                if self.facts.decide(gg) is False:
                    continue
                out.append((gg, subst_value(val, mp)))
        return out

    def guarded_body(self, s, v, c):
        dec = True if c is None else self.facts.decide(c)
        if dec is False:
            return True
        if dec is True:
            self.assign(s.target, self.box(v))
            return self.exec_block(s.body)
        self.nbranches += 1
        vl.OF_LIST[0] = self.list_arr
        st0, facts0, full0 = self.st, self.facts, self.full
        self.st, self.facts, self.full = st0.copy(), facts0.extend(c), full0 + (c,)
        self.assign(s.target, self.box(v))
        live = self.exec_block(s.body)
        if live:
            self.st = self.merge_states(c, self.st, st0)
            self.facts, self.full = facts0, full0
        else:
            self.st, self.facts, self.full = st0, facts0.extend(c_not(c)), full0 + (c_not(c),)
        return True

    def unroll(self, s, items, orelse=True, guards=None):
        fr = self.frames[-1]
        nbase = len(fr.exits)
        broke = []
        facts0, full0 = self.facts, self.full
        live = True
        for k, v in enumerate(items):
            live = self.guarded_body(s, v, guards[k] if guards else None)
            conts = [e for e in fr.exits[nbase:] if e[0] == 'continue']
            brks = [e for e in fr.exits[nbase:] if e[0] == 'break']
            fr.exits[nbase:] = [e for e in fr.exits[nbase:] if e[0] not in ('continue', 'break')]
            if conts:
                st = self.st if live else None
                for kind, g, _, es in reversed(conts):
                    st = es if st is None else self.merge_states(g, es, st)
                self.st = st
                if not live:
                    # facts of the last dead path no longer apply
                    pass
                live = True
                self.facts, self.full = facts0, full0
            if brks:
                broke.extend(brks)
                if not live:
                    break
                # some paths left the loop; the rest goes on under the negation
            if not live:
                break
        if broke:
            st = self.st if live else None
            for kind, g, _, es in reversed(broke):
                st = es if st is None else self.merge_states(g, es, st)
            self.st = st
            self.facts, self.full = facts0, full0
            return True
        if live and orelse and s.orelse:
            return self.exec_block(s.orelse)
        return live

    def x_While(self, s):
        n = 0
        fr = self.frames[-1]
        while True:
            c = self.truth(self.eval(s.test))
            dec = self.facts.decide(c)
            if dec is False:
                return True
            if self.retry and n == 0 and dec:
                done = self.accepting_pass(s, s.test)
                if done is not None:
                    return done
            if dec is None or n > 64:
                self.note('while loop not bounded', s)
                self.havoc(s.body, None, 'while loop')
                return True
            n += 1
            nbase = len(fr.exits)
            live = self.exec_block(s.body)
            ex = fr.exits[nbase:]
            if any(e[0] == 'break' for e in ex):
                if not live and len(ex) == 1:
                    fr.exits[nbase:] = []
                    self.st = ex[0][3]
                    return True
                fr.exits[nbase:] = [e for e in ex if e[0] == 'return']
                self.havoc(s.body, None, 'while loop with conditional break')
                return True
            if not live:
                return False

    retry = 0              # counting loops longer than this, and open loops, that end by break: see accepting_pass

    def one_pass(self, s, item):
        """(guard, state) where a pass over the body leaves the loop, and where it goes on."""
        fr = self.frames[-1]
        nbase, nfull = len(fr.exits), len(self.full)
        out, cont = [], []
        if item is not None:
            self.assign(s.target, self.box(item))
        live = self.exec_block(s.body)
        ex = fr.exits[nbase:]
        if any(e[0] == 'return' for e in ex):
            fr.exits[nbase:] = []
            return None
        fr.exits[nbase:] = []
        rel = lambda: c_and(*self.full[nfull:])
        if live:
            cont.append((rel(), self.st))
        for kind, g, _, es in ex:
            (out if kind == 'break' else cont).append((g, es))
        return out, cont

    def accepting_pass(self, s, test, items=None):
        """A loop that repeats until a pass breaks out. The last pass starts from whatever earlier passes left
        (names and cells they change are unknown; counters that no pass makes negative are not negative) and its
        exit condition holds afterwards. Loops with a count may also run out, leaving what a pass that goes on leaves."""
        fr = self.frames[-1]
        st0, facts0, full0 = self.st, self.facts, self.full
        nev, base0 = len(self.events), fr.base
        item = items[0] if items else None
        if isinstance(test, ast.Constant):
            test = None

        def trial(start):
            self.st, self.facts, self.full = start.copy(), facts0, full0
            fr.base = len(full0)
            try:
                r = self.one_pass(s, item)
            finally:
                fr.base = base0
            st = self.st
            self.st, self.facts, self.full = st0, facts0, full0
            if r is None:
                return None
            out, cont = r
            if test is not None:
                more = []
                for g, es in cont:
                    self.st = es.copy()
                    c = self.truth(self.eval(test))
                    out.append((c_and(g, c_not(c)), es))
                    more.append((c_and(g, c), es))
                self.st = st0
                cont = [x for x in more if x[0] is not FALSE]
                out = [x for x in out if x[0] is not FALSE]
            return out, cont

        def fold(pairs):
            st = None
            for g, es in reversed(pairs):
                st = es if st is None else self.merge_states(g, es, st)
            return st
        r = trial(st0)
        del self.events[nev:]
        if r is None or not r[0]:
            return None
        start, counters = st0.copy(), {}
        if r[1]:
            left = fold(r[1])
            self.nretry = getattr(self, 'nretry', 0) + 1
            for n, v in left.locals.items():
                old = st0.locals.get(n)
                if v is old or n not in st0.locals:
                    continue
                if isinstance(v, Poly) and isinstance(old, Poly):
                    if v == old:
                        continue
                    if never_negative(old) and never_negative(v):
                        start.locals[n] = counters[n] = sym('carried_%s_%d' % (n, self.nretry), isint=True)
                    else:
                        start.locals[n] = opaque('left by an earlier pass')
                    continue
                start.locals[n] = OpaqueV('left by an earlier pass')
            for i, v in left.heap.items():
                if i in st0.heap and st0.heap[i] is not v:
                    c = st0.heap[i]
                    start.heap[i] = (Arr(c.shape, lambda idx: opaque('left by an earlier pass')) if isinstance(c, Arr)
                                     else ListC((('unknown',),)) if isinstance(c, ListC) else c)
            for m, d in left.globs.items():
                if m in st0.globs:
                    for n, v in d.items():
                        if st0.globs[m].get(n) is not v:
                            start.globs[m][n] = OpaqueV('left by an earlier pass')
        r = trial(start)
        if r is None or not r[0]:
            return None
        out, cont = r
        left = fold(cont)
        for n in counters:
            # what holds before a pass must hold after it
            if left is not None and not (isinstance(left.locals[n], Poly) and never_negative(left.locals[n])):
                return None
        self.carried += counters.values()
        acc, g = fold(out), pl.c_or(*[q for q, _ in out])
        if items is None:
            self.st = acc
            self.facts = facts0.extend(g)
            self.assumed.append(g)
        else:
            self.st = self.merge_states(g, acc, left) if cont else acc
        return True

    assumed = ()           # exit conditions of open loops
    carried = ()           # counters an earlier pass may have left

    def havoc(self, body, target, reason):
        names = assigned_names(body)
        if target is not None:
            names |= {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        mut = set()
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    b = n
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        mut.add(b.id)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'sort'):
                    b = n.func.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        mut.add(b.id)
                if isinstance(n, ast.Call):
                    # arrays handed to calls inside the loop may be written there
                    for a in n.args:
                        if isinstance(a, ast.Name):
                            mut.add(a.id)
        w = self.where(self.cur_node)
        for n in mut - names:
            try:
                v = self.lookup(n, None, quiet=True)
            except Exception:
                continue
            if isinstance(v, ViewRef):
                v = v.ref
            if isinstance(v, Ref):
                c = self.content(v)
                if isinstance(c, Arr):
                    self.st.heap[v.id] = Arr(c.shape, lambda idx: opaque('%s at %s' % (reason, w)))
                elif isinstance(c, ListC):
                    self.st.heap[v.id] = ListC((('unknown',),))
        for n in names:
            old = self.st.locals.get(n)
            if isinstance(old, Ref) and old.kind == 'array':
                c = self.content(old)
                self.st.heap[old.id] = Arr(c.shape, lambda idx: opaque('%s at %s' % (reason, w)))
            self.setname(n, OpaqueV('%s at %s' % (reason, w)))

    def summarise(self, s, vars_, guard, items, pos):
        """Summarise a loop over a symbolic domain."""
        self.nloops += 1
        fr = self.frames[-1]
        st0, facts0, full0 = self.st, self.facts, self.full
        names = assigned_names(s.body) | {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        rng = []
        for v, lo, hi in vars_:
            rng += [cmp_ge(v - lo), cmp_gt(hi - v)]
        if guard is not TRUE:
            rng.append(guard)
        ind = {}               # name -> closed form Poly
        prearr = {}            # ref id -> (PreArr, name)
        prelist = set()
        presym = {}
        # arrays / scalars assigned by name and existing before the loop
        gl = fr.globals_decl

        def prev(n):
            if n in gl:
                return self.st.globs.get(fr.func.mod.name, {}).get(n, UNBOUND) \
                    if n in self.st.globs.get(fr.func.mod.name, {}) else self.global_value(fr.func.mod, n)
            return st0.locals.get(n, UNBOUND)
        pre_vals = {n: prev(n) for n in names if n not in tnames}
        for n, v in pre_vals.items():
            if isinstance(v, Poly):
                presym[n] = pl.fresh('pre:' + n, isint=v.isint)
            elif isinstance(v, Ref) and v.kind == 'array':
                prearr.setdefault(v.id, None)
            elif isinstance(v, Ref) and v.kind == 'list':
                prelist.add(v.id)
        last_err = None
        ev0 = len(self.events)
        fe0 = len(fr.exits)
        for attempt in range(6):
            runs = []
            ok = True
            del self.events[ev0:]
            del fr.exits[fe0:]
            for t, (ig, val) in enumerate(items):
                self.st = st0.copy()
                self.facts = facts0.extend(*(rng + ([ig] if ig is not TRUE else [])))
                g_all = c_and(*(rng + [ig]))
                self.full = full0 + (g_all,)
                base_full = len(self.full)
                for n, p in presym.items():
                    self.setname(n, ind[n](pos[t] if isinstance(pos, list) else pos) if n in ind else p)
                for rid in prearr:
                    if prearr[rid] is None:
                        c = st0.heap[rid]
                        nm = 'pre#%d.%d' % (rid, pl._fresh[0])
                        pl._fresh[0] += 1
                        prearr[rid] = base_arr(nm, c.shape)
                    self.st.heap[rid] = prearr[rid]
                for rid in prelist:
                    self.st.heap[rid] = ListC((('pre', rid),))
                self.assign(s.target, self.box(val))
                # exits of this iteration are relative to the loop body
                fr_base = fr.base
                fr.base = base_full
                live = self.exec_block(s.body)
                ex = fr.exits[fe0:]
                del fr.exits[fe0:]
                fr.base = fr_base
                st = self.st if live else None
                for kind, g, v, es in reversed(ex):
                    if kind == 'continue':
                        st = es if st is None else self.merge_states(g, es, st)
                    else:
                        ok = False
                        last_err = kind + ' inside symbolic loop'
                if st is None:
                    ok = False
                    last_err = last_err or 'loop body never completes'
                    st = self.st
                runs.append((ig, st))
            self.facts, self.full = facts0, full0
            if not ok:
                break
            # which pre-existing heap objects changed?
            again = False
            for ig, st in runs:
                for rid, c in st0.heap.items():
                    if rid in prearr or rid in prelist:
                        continue
                    if st.heap.get(rid) is not c:
                        if isinstance(c, Arr):
                            prearr[rid] = None
                            again = True
                        elif isinstance(c, ListC):
                            prelist.add(rid)
                            again = True
                        else:
                            again = True
                            ok = False
                            last_err = 'object mutated in symbolic loop'
            if not ok:
                break
            # induction variables
            pre_ids = {pl.atom_of(p).id: n for n, p in presym.items() if n not in ind}
            for n, p in presym.items():
                if n in ind:
                    continue
                steps = []
                for ig, st in runs:
                    nv = self.getname_in(n, st)
                    if not isinstance(nv, Poly):
                        steps = None
                        break
                    steps.append(nv - p)
                if steps is None:
                    continue
                e0 = steps[0]
                vids = set(pl.atom_of(v).id for v, _, _ in vars_)
                if all(e == e0 for e in steps) and e0.const() is not None and e0.const() != 0 \
                        and pos is not None:
                    init = pre_vals[n]
                    ind[n] = (lambda init, e0: (lambda ps: init + e0 * ps))(init, e0)
                    again = True
            if not again:
                break
        if not ok:
            self.st = st0
            self.facts, self.full = facts0, full0
            self.note('loop not summarised: %s' % last_err, s)
            self.havoc(s.body, s.target, 'loop not summarised (%s)' % last_err)
            return
        # ---- build the post state
        out = st0.copy()
        prenames = set()
        for rid, pa in prearr.items():
            if pa is not None:
                prenames.add(pa.name)
        live_pre = {pl.atom_of(p).id for n, p in presym.items() if n not in ind}

        def mentions_pre(x):
            for at in pl.all_atoms(x).values():
                if at.kind == 'elem' and at.args[0] in prenames:
                    return True
                if at.id in live_pre:
                    return True
            return False

        def total(es, body_ctx=None):
            """sum over the loop of per-item increments es [(ig, Poly)]."""
            tot = ZERO
            for ig, e in es:
                tot = tot + pl.mk_sum(list(vars_), c_and(guard, ig), e)
            return tot
        w = self.where(s)
        # arrays
        for rid, pa in prearr.items():
            if pa is None:
                continue
            c0 = st0.heap[rid]
            if all(st.heap.get(rid) is pa for _, st in runs):
                continue
            upds = []
            elementwise = False
            for ig, st in runs:
                c = st.heap[rid]
                if c is pa:
                    continue
                if isinstance(c, Store) and c.base is pa:
                    for u in c.upds:
                        upds.append((ig, u))
                else:
                    elementwise = True
            if elementwise:
                out.heap[rid] = self.loop_sum_array(c0, pa, [(ig, st.heap[rid]) for ig, st in runs],
                                                    total, mentions_pre, w)
                continue
            ups = []
            bad = None
            for ig, u in upds:
                mode, val = u.mode, u.val
                probe = None
                try:
                    loc = tuple(ZERO if x is None or x.as_int() is not None else pl.sym('ixl%d' % k, isint=True)
                                for k, x in enumerate(u.widths))
                    probe = val(loc)
                except Exception:
                    probe = None
                if isinstance(probe, Poly) and mentions_pre(probe):
                    # accumulation  A[r] = A[r] + e
                    cell = tuple(st_ + l for st_, l in zip(u.starts, loc))
                    if not mentions_pre(probe - pa.get(cell)):
                        def val2(loc, val=val, u=u, pa=pa):
                            cell = tuple(a + b for a, b in zip(u.starts, loc))
                            return val(loc) - pa.get(cell)
                        mode, val = 'add', val2
                    else:
                        bad = 'loop-carried array dependence'
                        break
                ups.append(Upd(list(vars_) + list(u.vars), c_and(guard, ig, u.guard), u.starts,
                               u.widths, val, mode, u.where or w))
            if bad:
                out.heap[rid] = Arr(c0.shape, (lambda b: lambda idx: opaque('%s at %s' % (b, w)))(bad))
                continue
            if isinstance(c0, Store):
                out.heap[rid] = Store(self, c0.base, tuple(c0.upds) + tuple(ups))
            else:
                out.heap[rid] = Store(self, c0, tuple(ups))
        # lists
        dom = Domain(vars_, guard)
        for rid in prelist:
            c0 = st0.heap[rid]
            newitems = []
            bad = False
            for ig, st in runs:
                c = st.heap[rid]
                if not c.parts or c.parts[0] != ('pre', rid):
                    bad = True
                    break
                for p in c.parts[1:]:
                    if p[0] == 'items':
                        newitems += [(ig, self.deep_in(v, st)) for v in p[1]]
                    elif p[0] == 'comp' and not p[1].vars:
                        newitems += [(c_and(ig, p[1].guard, g), self.deep_in(v, st)) for g, v in p[2]]
                    elif p[0] == 'comp':
                        if len(runs) == 1 and len(c.parts) == 2:
                            d2 = Domain(list(vars_) + list(p[1].vars), c_and(guard, ig, p[1].guard))
                            newitems = ('nested', d2, tuple((g, self.deep_in(v, st)) for g, v in p[2]))
                        else:
                            bad = True
                    else:
                        bad = True
            if bad:
                out.heap[rid] = ListC((('unknown',),))
            elif newitems:
                if isinstance(newitems, tuple):
                    out.heap[rid] = ListC(c0.parts + (('comp', newitems[1], newitems[2]),))
                else:
                    out.heap[rid] = ListC(c0.parts + (('comp', dom, tuple(newitems)),))
        # heap objects created inside the loop stay reachable for temporaries
        for ig, st in runs:
            for rid, c in st.heap.items():
                if rid not in out.heap:
                    out.heap[rid] = c
        self.st = out
        # names
        single = len(vars_) == 1 and guard is TRUE and len(items) == 1 and items[0][0] is TRUE
        for n in names:
            if n in ind:
                init = pre_vals[n]
                cnt = ZERO
                for ig, _ in items:
                    cnt = cnt + pl.mk_sum(list(vars_), c_and(guard, ig), ONE)
                self.setname(n, ind[n](cnt))
                continue
            vals = [self.getname_in(n, st) for _, st in runs]
            v = vals[0]
            pre = pre_vals.get(n, UNBOUND)
            if n in presym and isinstance(pre, Poly) and all(isinstance(x, Poly) for x in vals):
                es = [(ig, x - presym[n]) for (ig, _), x in zip(runs, vals)]
                if all(not e.t for _, e in es):
                    self.setname(n, pre)
                    continue
                if all(not mentions_pre(e) for _, e in es):
                    self.setname(n, pre + total(es))
                    continue
                if all(not mentions_pre(x) for x in vals) and single:
                    last = subst_value(v, {vars_[0][0]: vars_[0][2] - 1})
                    self.setname(n, last)
                    continue
                self.setname(n, opaque('loop-carried value of %s at %s' % (n, w)))
                continue
            if isinstance(pre, Ref) and isinstance(v, Ref) and v.id == pre.id and len(set(
                    x.id for x in vals if isinstance(x, Ref))) == 1:
                self.setname(n, pre)        # in-place updates handled above
                continue
            if isinstance(pre, Ref) and pre.kind == 'array' and pre.id in prearr and all(
                    isinstance(x, Ref) and x.kind == 'array' for x in vals):
                c0 = st0.heap[pre.id]
                pa = prearr[pre.id]
                r = self.loop_sum_array(c0, pa, [(ig, st.heap[x.id]) for (ig, st), x in zip(runs, vals)],
                                        total, mentions_pre, w)
                ref = Ref('array')
                self.st.heap[ref.id] = r
                self.setname(n, ref)
                continue
            if single:
                d = self.deep_in(v, runs[0][1])
                if isinstance(d, (Poly, Cond, Arr, tuple, str, SymStr)) or d is None:
                    try:
                        self.setname(n, self.box(subst_value(d, {vars_[0][0]: vars_[0][2] - 1})))
                        continue
                    except Exception:
                        pass
            self.setname(n, OpaqueV('value of %s after loop at %s' % (n, w)))

    def loop_sum_array(self, c0, pa, conts, total, mentions_pre, w):
        def get(idx):
            es = []
            for ig, c in conts:
                if c is pa:
                    continue
                e = c.get(idx)
                if not isinstance(e, Poly):
                    return opaque('non-numeric loop accumulate at %s' % w)
                e = e - pa.get(idx)
                if mentions_pre(e):
                    return opaque('loop-carried array value at %s' % w)
                es.append((ig, e))
            b = c0.get(idx)
            if not isinstance(b, Poly):
                return opaque('non-numeric accumulate at %s' % w)
            return b + total(es)
        shape = conts[0][1].shape
        if shape != c0.shape and c0.ndim != 0:
            return Arr(shape, lambda idx: opaque('shape changes in loop at %s' % w))
        return Arr(shape, get)

    def deep_in(self, v, st):
        saved = self.st
        self.st = st
        try:
            return self.deep(v)
        finally:
            self.st = saved

    def getname_in(self, n, st):
        fr = self.frames[-1]
        if n in fr.globals_decl:
            d = st.globs.get(fr.func.mod.name, {})
            return d.get(n, UNBOUND)
        return st.locals.get(n, UNBOUND)

    # -- iteration ---------------------------------------------------------
    series = None          # (n, m): ranges longer than n stand for a series, analysed to its first m terms

    def series_range(self, r):
        """The part of a long range that is analysed."""
        l, h, st = r.lo.as_int(), r.hi.as_int(), r.step.as_int()
        if not self.series or None in (l, h, st) or st <= 0 or len(range(l, h, st)) <= self.series[0]:
            return r
        self.cut_series.append((l, h, st))
        return RangeV(r.lo, P(l + st * self.series[1]), r.step)

    def concrete_iter(self, it):
        """List of values when the iterable is concrete, else None."""
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, RangeV):
            l, h, st = it.lo.as_int(), it.hi.as_int(), it.step.as_int()
            if None in (l, h, st) or st == 0:
                return None
            r = range(l, h, st)
            if len(r) > 400:
                return None
            return [P(i) for i in r]
        if isinstance(it, Ref) and it.kind == 'list':
            c = self.content(it)
            if not isinstance(c, ListC) or c.concrete() is None:
                return None
            return list(self.own_items(it))
        if isinstance(it, Ref) and it.kind == 'dict':
            c = self.content(it)
            return list(c) if isinstance(c, dict) else None
        if isinstance(it, ListC):
            return it.concrete()
        if isinstance(it, str):
            return list(it)
        a = self.unbox(it)
        if isinstance(a, Arr) and a.ndim >= 1:
            n = a.shape[0].as_int()
            if n is None or n > 400:
                return None
            return [self.subscript(it, P(k), None) for k in range(n)]
        if isinstance(it, ZipV):
            cols = [self.concrete_iter(x) for x in it.its]
            if any(c is None for c in cols):
                return None
            return [tuple(r) for r in zip(*cols)]
        if isinstance(it, EnumV):
            c = self.concrete_iter(it.it)
            if c is None:
                return None
            return [(it.start + k, v) for k, v in enumerate(c)]
        return None

    def regular_iter(self, it):
        """(length, at(k)) for iterables addressed by position."""
        if isinstance(it, RangeV):
            st = it.step.as_int()
            if st is None or st == 0:
                return None
            if st == 1:
                n = it.hi - it.lo
            elif st > 0:
                n = pl.floordiv(it.hi - it.lo + (st - 1), P(st))
            else:
                n = pl.floordiv(it.lo - it.hi + (-st - 1), P(-st))
            return n, (lambda k: it.lo + k * st)
        if isinstance(it, (Ref, ViewRef, Arr, ListC)):
            c = self.unbox(it)
            if isinstance(c, ListC):
                if len(c.parts) == 1 and c.parts[0][0] == 'comp' and ListC.regular(c.parts[0]):
                    return c.length(), (lambda k: c.at(k, self.facts))
                cc = c.concrete()
                if cc is not None:
                    return P(len(cc)), (lambda k: c.at(k, self.facts))
                return None
            if isinstance(c, Arr) and c.ndim >= 1:
                return c.shape[0], (lambda k: self.subscript(it, k, None))
        if isinstance(it, ZipV):
            rs = [self.regular_iter(x) for x in it.its]
            if any(r is None for r in rs):
                return None
            n = rs[0][0]
            for r in rs[1:]:
                if r[0] != n:
                    if self.facts.decide(cmp_ge(r[0] - n)) is True:
                        continue
                    if self.facts.decide(cmp_ge(n - r[0])) is True:
                        n = r[0]
                        continue
                    return None
            return n, (lambda k: tuple(r[1](k) for r in rs))
        if isinstance(it, EnumV):
            r = self.regular_iter(it.it)
            if r is None:
                return None
            return r[0], (lambda k: (it.start + k, r[1](k)))
        if isinstance(it, tuple):
            return P(len(it)), (lambda k: it[k.as_int()])
        return None

    def symbolic_iter(self, it, node):
        """IterSpec or None."""
        if isinstance(it, RangeV):
            if it.lo == ZERO and it.step == ONE and it.hi in vl.LENINFO:
                lc = vl.LENINFO[it.hi]
                if not (len(lc.parts) == 1 and lc.parts[0][0] == 'comp' and ListC.regular(lc.parts[0])):
                    sp = self.list_segments(lc)
                    if sp is not None and len(sp) == 1 and sp[0][0] == 'sym':
                        _, vars_, g, items, pos = sp[0]
                        segs = []
                        its = []
                        for t, (ig, v) in enumerate(items):
                            its.append((ig, pos[t] if isinstance(pos, list) else pos))
                        return IterSpec([('sym', vars_, g, its, pos)])
            if it.step == ONE:
                v = pl.fresh('i', isint=True)
                return IterSpec([('sym', [(v, it.lo, it.hi)], TRUE, [(TRUE, v)], v - it.lo)])
        c = self.seq_list(it)
        if c is not None:
            segs = self.list_segments(c)
            if segs is None:
                return None
            return IterSpec(segs)
        # zip / enumerate over irregular aligned lists
        if isinstance(it, (ZipV, EnumV)):
            flat = self.aligned(it)
            if flat is not None:
                return IterSpec(flat)
        r = self.regular_iter(it)
        if r is not None:
            n, at = r
            v = pl.fresh('i', isint=True)
            saved = self.facts
            self.facts = saved.extend(cmp_ge(v), cmp_gt(n - v))
            try:
                val = at(v)
            finally:
                self.facts = saved
            return IterSpec([('sym', [(v, ZERO, n)], TRUE, [(TRUE, val)], v)])
        return None

    def seq_list(self, it):
        """ListC behind an iterable (a list, or an array made from one)."""
        if isinstance(it, (Ref, ListC, Arr)):
            c = self.unbox(it)
            if isinstance(c, ListC):
                return c
            if isinstance(c, Arr):
                return getattr(c, 'listc', None)
        return None

    def list_segments(self, c):
        segs = []
        start = ZERO
        for p in c.parts:
            if p[0] == 'items':
                segs.append(('items', p[1]))
            elif p[0] == 'comp':
                d = p[1]
                vars_, g, mp = d.freshen()
                items = [(pl.subst_cond(gg, mp), subst_value(v, mp)) for gg, v in p[2]]
                if ListC.regular(p) and len(p[2]) == 1:
                    pos = vars_[0][0] - vars_[0][1]
                else:
                    sig = ListC.sig(p)
                    fm = [mp[v] for v, _, _ in d.vars]
                    pos = []
                    for t in range(len(items)):
                        ps = pl.fresh('pos', isint=True)
                        vl.POSINFO[pl.atom_of(ps).id] = (sig, fm, t)
                        pos.append(ps)
                    if len(pos) == 1:
                        pos = pos[0]
                segs.append(('sym', vars_, g, items, pos))
            else:
                return None
        return segs

    def aligned(self, it):
        """zip/enumerate over one irregular list (others indexed by position)."""
        its = it.its if isinstance(it, ZipV) else [it.it]
        lead = None
        for x in its:
            c = self.seq_list(x)
            if c is not None and len(c.parts) == 1 and c.parts[0][0] == 'comp':
                lead = c
                break
        if lead is None or ListC.regular(lead.parts[0]) and len(lead.parts[0][2]) == 1:
            return None
        segs = self.list_segments(lead)
        if segs is None or len(segs) != 1:
            return None
        _, vars_, g, items, pos = segs[0]
        out = []
        for t, (ig, v) in enumerate(items):
            ps = pos[t] if isinstance(pos, list) else pos
            if isinstance(it, EnumV):
                out.append((ig, (it.start + ps, v)))
            else:
                row = []
                for x in its:
                    c = self.seq_list(x)
                    if c is None:
                        c = self.unbox(x) if isinstance(x, (Ref, ListC, ViewRef)) else x
                    if isinstance(c, ListC):
                        row.append(c.at(ps, self.facts))
                    elif isinstance(c, Arr):
                        row.append(self.subscript(x, ps, None))
                    elif isinstance(c, RangeV):
                        row.append(c.lo + ps * c.step)
                    else:
                        return None
                out.append((ig, tuple(row)))
        return [('sym', vars_, g, out, pos)]

    # -- comprehensions ----------------------------------------------------
    def comprehension(self, node, elt_fn):
        """ListC of elt values."""
        saved = dict(self.st.locals)

        def rec(gi, vars_, guards):
            """list of parts"""
            if gi == len(node.generators):
                v = elt_fn()
                return [('val', c_and(*guards) if guards else TRUE, self.deep(v))]
            gen = node.generators[gi]
            it = self.eval(gen.iter)
            conc = self.concrete_iter(it)
            out = []

            def conds_then(extra):
                gs = list(guards)
                facts0 = self.facts
                for cnd in gen.ifs:
                    c = self.truth(self.eval(cnd))
                    dec = self.facts.decide(c)
                    if dec is False:
                        self.facts = facts0
                        return []
                    if dec is None:
                        gs.append(c)
                        self.facts = self.facts.extend(c)
                r = rec(gi + 1, vars_ + extra, gs)
                self.facts = facts0
                return r
            if conc is not None:
                for v in conc:
                    self.assign(gen.target, self.box(v))
                    out += conds_then([])
                return out
            spec = self.symbolic_iter(it, node)
            if spec is None:
                return None
            for seg in spec.segs:
                if seg[0] == 'items':
                    for v in seg[1]:
                        self.assign(gen.target, self.box(v))
                        r = conds_then([])
                        if r is None:
                            return None
                        out += r
                    continue
                _, vs, g, items, pos = seg
                facts0 = self.facts
                rng = []
                for v, lo, hi in vs:
                    rng += [cmp_ge(v - lo), cmp_gt(hi - v)]
                self.facts = facts0.extend(*(rng + [g]))
                inner = []
                for ig, v in items:
                    f1 = self.facts
                    if ig is not TRUE:
                        self.facts = f1.extend(ig)
                    self.assign(gen.target, self.box(v))
                    r = conds_then(list(vs))
                    self.facts = f1
                    if r is None:
                        self.facts = facts0
                        return None
                    for x in r:
                        if x[0] == 'val':
                            inner.append(('val', c_and(ig, x[1]), x[2]))
                        else:
                            inner.append(('comp', x[1], c_and(x[2], ig), x[3]))
                self.facts = facts0
                vals = [x for x in inner if x[0] == 'val']
                comps = [x for x in inner if x[0] == 'comp']
                if vals and not comps:
                    out.append(('comp', list(vs), g, [(x[1], x[2]) for x in vals]))
                elif comps and not vals and len(comps) == 1:
                    x = comps[0]
                    out.append(('comp', list(vs) + x[1], c_and(g, x[2]), x[3]))
                elif not inner:
                    pass
                else:
                    return None
            return out
        r = rec(0, [], [])
        self.st.locals = saved
        if r is None:
            return ListC((('unknown',),))
        parts = []
        for x in r:
            if x[0] == 'val':
                if x[1] is TRUE:
                    if parts and parts[-1][0] == 'items':
                        parts[-1] = ('items', parts[-1][1] + (x[2],))
                    else:
                        parts.append(('items', (x[2],)))
                else:
                    parts.append(('comp', Domain([], TRUE), ((x[1], x[2]),)))
            else:
                # a single common item guard belongs to the domain
                items = x[3]
                g = x[2]
                if len(items) == 1:
                    g = c_and(g, items[0][0])
                    items = [(TRUE, items[0][1])]
                parts.append(('comp', Domain(x[1], g), tuple(items)))
        return ListC(parts)

    # -- names -------------------------------------------------------------
    def setname(self, n, v):
        fr = self.frames[-1] if self.frames else None
        if fr is not None and n in fr.globals_decl:
            cut = self.cuts.get((fr.func.mod.name, n))
            if cut is not None:
                v = cut(self, v)
            self.st.globs.setdefault(fr.func.mod.name, {})[n] = v
        else:
            self.st.locals[n] = v

    def lookup(self, n, node, quiet=False):
        fr = self.frames[-1]
        if n not in fr.globals_decl and n in self.st.locals:
            v = self.st.locals[n]
        else:
            v = self.global_value(fr.func.mod, n)
            if v is UNBOUND:
                if n in PYBUILTINS:
                    return Builtin(n)
                if not quiet:
                    self.unbound_reads.append((n, self.where(node), TRUE))
                return self.opq('unbound name ' + n, node)
        return self.resolve(v, n, node, quiet)

    def resolve(self, v, n=None, node=None, quiet=True):
        while isinstance(v, IteV):
            d = self.facts.decide(v.c)
            if d is True:
                v = v.a
            elif d is False:
                v = v.b
            elif v.a is UNBOUND or v.b is UNBOUND:
                if not quiet:
                    g = v.c if v.a is UNBOUND else c_not(v.c)
                    self.unbound_reads.append((n, self.where(node), g))
                v = v.b if v.a is UNBOUND else v.a
            else:
                return v
        if v is UNBOUND:
            if not quiet:
                self.unbound_reads.append((n, self.where(node), TRUE))
            return self.opq('unbound name %s' % n, node)
        if isinstance(v, Poly):
            return v
        return v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.unpack(v, None)
                if items is None:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, self.opq('unpack'))
                    return
                k = star[0]
                tail = n - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x)
                self.assign(t.elts[k].value, self.box(ListC.of(items[k:len(items) - tail])))
                for e, x in zip(t.elts[k + 1:], items[len(items) - tail:] if tail else []):
                    self.assign(e, x)
                return
            items = self.unpack(v, n)
            if items is None or len(items) != n:
                why = 'unpack %s into %d names' % (type(v).__name__, n)
                for e in t.elts:
                    self.assign(e, self.opq(why, t))
                return
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            idx = self.eval(t.slice)
            self.store_sub(obj, idx, v, t)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def set_attr(self, obj, attr, v):
        if isinstance(obj, ObjV):
            d = dict(self.st.heap[obj.ref.id])
            d[attr] = v
            self.st.heap[obj.ref.id] = d

    def unpack(self, v, n):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, IteV):
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            if a is None or b is None or len(a) != len(b):
                if v.a is UNBOUND:
                    return b
                if v.b is UNBOUND:
                    return a
                return None
            return [self.merge_values(v.c, x, y, self.st.heap) for x, y in zip(a, b)]
        c = self.concrete_iter(v)
        if c is not None:
            return [self.box(x) for x in c]
        u = self.unbox(v)
        if isinstance(u, Arr) and u.ndim >= 1 and n is not None:
            return [self.subscript(v, P(k), None) for k in range(n)]
        return None

    # -- expressions -------------------------------------------------------
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.opq('expression ' + type(e).__name__, e)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            return P(v)
        if v is None or isinstance(v, str):
            return v
        if v is Ellipsis:
            return Ellipsis
        return self.opq('constant %r' % (v,), e)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items = self.unpack(self.eval(x.value), None)
                if items is None:
                    return self.opq('starred', e)
                out.extend(items)
            else:
                out.append(self.eval(x))
        return tuple(out)

    def e_List(self, e):
        t = self.e_Tuple(e)
        if isinstance(t, OpaqueV):
            return t
        return ListC.of([self.box(x) for x in t])

    def e_Set(self, e):
        return self.e_List(e)

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                return self.opq('dict unpacking', e)
            kv = self.eval(k)
            d[self.hashable(kv)] = self.box(self.eval(v))
        r = Ref('dict')
        self.st.heap[r.id] = d
        return r

    def hashable(self, v):
        f = self.freeze(v)
        if f is None and v is not None:
            return ('unhashable', id(v))
        return f

    def e_ListComp(self, e):
        return self.comprehension(e, lambda: self.eval(e.elt))

    def e_GeneratorExp(self, e):
        return self.comprehension(e, lambda: self.eval(e.elt))

    def e_SetComp(self, e):
        return self.comprehension(e, lambda: self.eval(e.elt))

    def e_DictComp(self, e):
        lc = self.comprehension(e, lambda: (self.eval(e.key), self.eval(e.value)))
        c = lc.concrete()
        if c is None:
            return self.opq('symbolic dict comprehension', e)
        r = Ref('dict')
        self.st.heap[r.id] = {self.hashable(k): self.box(v) for k, v in c}
        return r

    def e_Lambda(self, e):
        return Func(self.frames[-1].func.mod, e, closure=self.st.locals, name='<lambda>')

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_NamedExpr(self, e):
        v = self.box(self.eval(e.value))
        self.assign(e.target, v)
        return v

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                fs = ast.unparse(v.format_spec) if v.format_spec is not None else ''
                parts.append(self.to_str(x, fs))
        return self.mkstr(parts)

    def mkstr(self, parts):
        s = SymStr(parts)
        if all(isinstance(p, str) for p in s.parts):
            return ''.join(s.parts)
        return s

    def to_str(self, x, spec=''):
        if isinstance(x, (str, SymStr)):
            return x
        if isinstance(x, Poly):
            c = x.as_int()
            if c is not None and not spec:
                return str(c)
            return SymStr([('num', x, spec)])
        if isinstance(x, Cond):
            return SymStr([('bool', x, spec)])
        if x is None:
            return 'None'
        if isinstance(x, IteV):
            return SymStr([('ite', x.c, self.to_str(x.a, spec), self.to_str(x.b, spec))])
        return SymStr([('val', type(x).__name__, id(x))])

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        d = self.facts.decide(c)
        if d is True:
            return self.eval(e.body)
        if d is False:
            return self.eval(e.orelse)
        f0, g0 = self.facts, self.full
        before, self.dead = self.dead, False
        self.facts, self.full = f0.extend(c), g0 + (c,)
        a = self.eval(e.body)
        da, self.dead = self.dead, False
        self.facts, self.full = f0.extend(c_not(c)), g0 + (c_not(c),)
        b = self.eval(e.orelse)
        db = self.dead
        self.facts, self.full = f0, g0
        self.dead = before or (da and db)
        if da != db:
            return b if da else a
        return self.merge_values(c, self.box(a), self.box(b), self.st.heap)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        f0 = self.facts
        acc = None
        for x in e.values:
            before = self.dead
            v = self.eval(x)
            if acc is not None and self.facts.decide(acc) is None:
                self.dead = before
            t = self.truth(v)
            if acc is None:
                acc, val = t, v
            else:
                if isinstance(v, Cond) or isinstance(val, Cond):
                    acc = c_and(acc, t) if isand else c_or(acc, t)
                    val = acc
                else:
                    val = merge(acc, v, val) if isand else merge(acc, val, v)
                    acc = c_and(acc, t) if isand else c_or(acc, t)
            d = self.facts.decide(acc)
            if isand and d is False:
                self.facts = f0
                return val if not isinstance(val, Cond) else FALSE
            if not isand and d is True:
                self.facts = f0
                return val if not isinstance(val, Cond) else TRUE
            self.facts = self.facts.extend(t if isand else c_not(t))
        self.facts = f0
        return val

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return c_not(self.truth(v))
        if isinstance(v, IteV):
            return merge(v.c, self.binop(ast.Mult(), P(-1), v.a, e), self.binop(ast.Mult(), P(-1), v.b, e))
        if isinstance(e.op, ast.USub):
            return self.binop(ast.Mult(), P(-1), v, e)
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Cond):
                return c_not(v)
            a = self.arr(v)
            if a is not None:
                return Arr(a.shape, lambda idx: c_not(self.truth(a.get(idx))))
        return v

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            c = self.compare(op, left, right, e)
            if res is None:
                res = c
            else:
                res = c_and(self.truth(res), self.truth(c))
            left = right
        return res

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(e.op, a, b, e)

    def e_Slice(self, e):
        return SliceV(self.eval(e.lower) if e.lower is not None else None,
                      self.eval(e.upper) if e.upper is not None else None,
                      self.eval(e.step) if e.step is not None else None)

    def e_Index(self, e):
        return self.eval(e.value)

    def e_ExtSlice(self, e):
        return tuple(self.eval(x) for x in e.dims)

    def e_Subscript(self, e):
        obj = self.eval(e.value)
        idx = self.eval(e.slice)
        return self.subscript(obj, idx, e)

    def e_Attribute(self, e):
        return self.attribute(self.eval(e.value), e.attr, e)

    def attribute(self, obj, attr, e):
        if isinstance(obj, ModuleV):
            m = self.module(obj.name)
            if m is not None:
                v = self.global_value(m, attr)
                if v is not UNBOUND:
                    return self.resolve(v)
                return self.opq('attribute %s.%s' % (obj.name, attr), e)
            if self.module(obj.name + '.' + attr) is not None:
                return ModuleV(obj.name + '.' + attr)
            return self.extern(obj.name + '.' + attr)
        if isinstance(obj, Builtin):
            return self.extern(obj.name + '.' + attr)
        if isinstance(obj, ObjV):
            d = self.st.heap[obj.ref.id]
            if attr in d:
                return d[attr]
            for n in obj.cls.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == attr:
                    return Method(obj, attr)
            return self.opq('attribute ' + attr, e)
        if isinstance(obj, OpaqueV):
            return OpaqueV(obj.reason)
        if isinstance(obj, IteV):
            return self.lift1(obj, lambda x: self.attribute(x, attr, e))
        v = self.array_attr(obj, attr, e)
        if v is not NotImplemented:
            return v
        return Method(obj, attr)

    def lift1(self, v, fn):
        f0 = self.facts
        if v.a is UNBOUND:
            return fn(v.b)
        if v.b is UNBOUND:
            return fn(v.a)
        self.facts = f0.extend(v.c)
        a = fn(v.a)
        self.facts = f0.extend(c_not(v.c))
        b = fn(v.b)
        self.facts = f0
        return self.merge_values(v.c, self.box(a), self.box(b), self.st.heap)

    def e_Call(self, e):
        self.cur_node = e
        fn = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                items = self.unpack(self.eval(a.value), None)
                if items is None:
                    return self.opq('starred argument', e)
                args.extend(items)
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and v.kind == 'dict':
                    kwargs.update({kk: vv for kk, vv in self.content(v).items()})
                    continue
                return self.opq('keyword unpacking', e)
            kwargs[k.arg] = v
        return self.call(fn, args, kwargs, e)

    def call(self, fn, args, kwargs, e):
        if isinstance(fn, IteV):
            return self.lift1(fn, lambda f: self.call(f, args, kwargs, e))
        if isinstance(fn, Func):
            return self.call_func(fn, args, kwargs, e)
        if isinstance(fn, Builtin):
            return self.call_builtin(fn.name, args, kwargs, e)
        if isinstance(fn, Method):
            if isinstance(fn.obj, ObjV):
                for n in fn.obj.cls.node.body:
                    if isinstance(n, ast.FunctionDef) and n.name == fn.name:
                        return self.call_func(Func(fn.obj.cls.mod, n), [fn.obj] + args, kwargs, e)
            return self.call_method(fn.obj, fn.name, args, kwargs, e)
        if isinstance(fn, ClassV):
            hook = self.hooks.get('class:' + fn.node.name)
            if hook is not None:
                return hook(self, args, kwargs, e)
            r = Ref('obj')
            self.st.heap[r.id] = {}
            o = ObjV(r, fn)
            for n in fn.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == '__init__':
                    self.call_func(Func(fn.mod, n), [o] + args, kwargs, e)
            return o
        if isinstance(fn, OpaqueV):
            return OpaqueV(fn.reason)
        return self.opq('call of %r' % (fn,), e)

    def event(self, kind, args, node):
        self.events.append((kind, c_and(*self.full), args, self.where(node), self.facts))

    def truth(self, v):
        if isinstance(v, Cond):
            return v
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, Poly):
            return c_not(cmp_eq(v))
        if v is None:
            return FALSE
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, SymStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return TRUE
            return c_not(pl.truth_atom(('streq', str_key(v), '')))
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, IteV):
            a = self.truth(v.a) if v.a is not UNBOUND else None
            b = self.truth(v.b) if v.b is not UNBOUND else None
            if a is None:
                return b
            if b is None:
                return a
            return c_or(c_and(v.c, a), c_and(c_not(v.c), b))
        if isinstance(v, (Ref, ViewRef)):
            u = self.unbox(v)
            if isinstance(u, ListC):
                return cmp_gt(u.length())
            if isinstance(u, dict):
                return TRUE if u else FALSE
            v = u
        if isinstance(v, ListC):
            return cmp_gt(v.length())
        if isinstance(v, Arr):
            if all(s == ONE for s in v.shape):
                return self.truth(v.get(tuple(ZERO for _ in v.shape)))
            return opaque_cond(self.note('truth of array'))
        if isinstance(v, OpaqueV):
            return opaque_cond(v.reason)
        if isinstance(v, (Func, Builtin, ModuleV)):
            return TRUE
        return opaque_cond(self.note('truth value'))


class ZipV:
    def __init__(self, its):
        self.its = its


class EnumV:
    def __init__(self, it, start):
        self.it, self.start = it, start


KEEP = []


def _prod(t):
    r = 1
    for x in t:
        r *= x
    return r


def str_key(s):
    if isinstance(s, str):
        return s
    if isinstance(s, SymStr):
        return ('ss',) + tuple(s.parts)
    return s


PYBUILTINS = {'len', 'range', 'abs', 'min', 'max', 'sum', 'int', 'float', 'str', 'print', 'zip',
              'enumerate', 'list', 'tuple', 'dict', 'set', 'sorted', 'any', 'all', 'map', 'filter',
              'round', 'isinstance', 'type', 'open', 'exit', 'quit', 'input', 'reversed', 'bool',
              'pow', 'repr', 'hasattr', 'getattr', 'slice', 'complex', 'globals', 'locals', 'id',
              'iter', 'next', 'ValueError', 'Exception', 'TypeError', 'KeyError', 'IndexError',
              'NotImplementedError', 'RuntimeError', 'SystemExit', 'True', 'False', 'format', 'hash',
              'divmod', 'frozenset', '__name__', '__file__', 'FileNotFoundError', 'AssertionError',
              'NameError', 'OSError', 'IOError', 'KeyboardInterrupt', 'ImportError', 'AttributeError'}

"""Five-component form of stresslets and strain rates; layout of the grand vectors."""
from .solve import *


def dot5(x):
    """Specified five components of tensor x."""
    return condensed(lambda i, j: x[i][j])


def run():
    ck = Check('C09', 'The conversions between 3x3 symmetric traceless tensors and their five components, and between '
               'separate vectors and the grand vectors, are interpreted for symbolic entries; round trips, the '
               'contraction product and the position of every entry are compared with the specification.')
    for n, d in ((1, 0), (1, 1), (2, 0), (3, 2), (2, 1), (0, 1), (0, 2)):
        tag = '%d spheres, %d dumbbells' % (n, d)
        S, E = tensors('S', n), tensors('E', n)
        F, T, B, H = vectors('F', n), vectors('T', n), vectors('B', d), vectors('H', d)
        it = Interp(ROOTS, facts=Facts([]))
        ck.interp(it)
        mods = ['functions.simulation_tools']
        arr = lambda x: it.box(const_arr(x)) if x else None
        if n:
            for name, flat in (('condense', False), ('condense_and_flatten', True)):
                f = find_opt(it, name, mods)
                if f is None:
                    continue
                v = it.call_func(f, [it.box(const_arr(S)), P(n)], {})
                for p in range(n):
                    want = dot5(S[p])
                    for c in range(5):
                        got = cell(it, v, 5 * p + c) if flat else cell(it, v, p, c)
                        ck.same('%s: %s component %d of sphere %d' % (tag, name, c, p), got, want[c], None, None, site(f))
            f = find(it, 'uncondense', mods)
            e5 = vectors('e', n, 5)
            v = it.call_func(f, [it.box(const_arr(e5)), P(n)], {})
            for p in range(n):
                g = [[cell(it, v, p, i, j) for j in range(3)] for i in range(3)]
                for i in range(3):
                    for j in range(3):
                        w = pl.addn([BASIS[c][i][j] * e5[p][c] for c in range(5)])
                        ck.same('%s: expanded tensor of sphere %d [%d,%d]' % (tag, p, i, j), g[i][j], w, None, None, site(f))
                if all(isinstance(x, Poly) for r in g for x in r):
                    back = dot5(g)
                    for c in range(5):
                        ck.same('%s: expand then condense, sphere %d component %d' % (tag, p, c), back[c], e5[p][c], None,
                                None, site(f))
                    # rate of working
                    s5 = dot5(S[p])
                    w = pl.addn([g[i][j] * S[p][i][j] for i in range(3) for j in range(3)])
                    ck.same('%s: contraction preserved, sphere %d' % (tag, p), w,
                            pl.addn([s5[c] * e5[p][c] for c in range(5)]), None, None, site(f))
        pb = Problem('fts', n, d)
        f = find(it, 'construct_force_vector_from_fts', mods)
        want = [x for v in F for x in v] + [x for v in T for x in v] + [x for s in S for x in dot5(s)] \
            + [x for v in B for x in v] + [x for v in H for x in v]
        for kind in ('lists', 'arrays'):
            mk = (lambda x: lst(it, x)) if kind == 'lists' else (lambda x: it.box(const_arr(x)) if x else it.box(ListC(())))
            v = it.unbox(it.call_func(f, [pb.posdata(it)] + [mk(x) for x in (F, T, S, B, H)], {}))
            k = len(v.concrete()) if isinstance(v, ListC) and v.concrete() is not None else \
                v.shape[0].as_int() if isinstance(v, Arr) and v.ndim == 1 else None
            if k is None:
                ck.unsure('%s: grand vector from %s' % (tag, kind), 'not resolved: %r' % (v,))
                continue
            ck.same('%s: length of grand vector from %s' % (tag, kind), P(k), P(len(want)), None, None, site(f))
            for c in range(min(k, len(want))):
                ck.same('%s: grand vector entry %d from %s' % (tag, c, kind), cell(it, v, c), want[c], None, None, site(f))
        f = find(it, 'deconstruct_velocity_vector_for_fts', mods)
        m = pb.side
        vv = base_arr('vv', (m,))
        parts = it.unpack(it.call_func(f, [pb.posdata(it), it.box(vv)], {}), 5)
        off = 0
        for name, part, cnt, w in (('velocity', 0, n, 3), ('angular velocity', 1, n, 3), ('strain', 2, n, 5),
                                   ('dumbbell velocity', 3, d, 3), ('half difference', 4, d, 3)):
            for p in range(cnt):
                if w == 3:
                    for c in range(3):
                        ck.same('%s: separated %s %d,%d' % (tag, name, p, c), cell(it, parts[part], p, c),
                                elem('vv', (P(off + 3 * p + c),)), None, None, site(f))
                else:
                    for i in range(3):
                        for j in range(3):
                            want_ = pl.addn([BASIS[c][i][j] * elem('vv', (P(off + 5 * p + c),)) for c in range(5)])
                            ck.same('%s: separated %s %d,%d,%d' % (tag, name, p, i, j), cell(it, parts[part], p, i, j),
                                    want_, None, None, site(f))
            off += cnt * w
        unset(ck, it, tag)
    return ck.finish(minimum=150)

"""Grand resistance: inverse far field plus near field, cached inverse, pass-through of options."""
from .common import *
from sa.values import LinArr

FAR = {False: 'generate_Minfinity', True: 'generate_Minfinity_periodic'}


def assemble(periodic, drag, regen, only, printout=0):
    """Interpret the assembly with the two parts as named matrices."""
    calls = []
    it = Interp(ROOTS, facts=base_facts(n=1))

    def part(kind, name, extra=()):
        def hook(it, bound, node):
            calls.append((kind, bound, it.where(node)))
            return (it.box(base_arr(name, (SIDE, SIDE))), 'heading')
        return hook
    it.hooks = {'generate_Minfinity': part('open', 'Mopen'), 'generate_Minfinity_periodic': part('periodic', 'Mper'),
                'generate_R2Bexact': part('near', 'R2B')}
    f = find(it, 'generate_grand_resistance_matrix' + ('_periodic' if periodic else ''),
             ['functions.generate_grand_resistance_matrix'])
    pd = posdata(it)
    args = {'posdata': pd, 'last_generated_Minfinity_inverse': it.box(base_arr('last', (SIDE, SIDE))),
            'use_drag_Minfinity': drag, 'use_Minfinity_only': only, 'mu': mu, 'regenerate_Minfinity': regen,
            'cutoff_factor': sym('cf', pos=True), 'frameno': sym('frameno', isint=True), 'printout': P(printout)}
    if periodic:
        args['box_bottom_left'] = it.box(base_arr('bbl', (3,)))
        args['box_top_right'] = it.box(base_arr('btr', (3,)))
        args['Ot_infinity'] = it.box(base_arr('Ot', (3,)))
        args['Et_infinity'] = it.box(base_arr('Et', (3, 3)))
        for k in ('O_infinity', 'centre_of_background_flow'):
            args[k] = it.box(base_arr(k, (3,)))
        args['E_infinity'] = it.box(base_arr('E_infinity', (3, 3)))
        args['timestep'] = sym('dt', pos=True)
    names = set(x.arg for x in f.node.args.args + f.node.args.kwonlyargs)
    res = it.unpack(it.call_func(f, [], {k: v for k, v in args.items() if k in names or f.node.args.kwarg}), 4)
    return it, f, args, res, calls


def sampler(seed):
    def el(name, idx):
        if name in ('Mopen', 'Mper', 'R2B', 'last'):
            i, j = sorted(idx)
            return (rnd(name, i, j, seed) - 0.5) / 4 + (2.0 + rnd(name, i, seed) if i == j else 0.0)
        return None
    return Val({'Ns': 1.0, 'Nd': 1.0}, elem=el, seed=seed)


def run():
    ck = Check('C07', 'The assembly of the grand resistance matrix is interpreted for every combination of its options '
               'with the far-field mobility and the near-field resistance as named matrices; the returned matrix and '
               'the returned inverse are compared with the specified sums, and every argument handed to the two parts '
               'with the value given by the caller.')
    for periodic in (False, True):
        for drag in (False, True):
            for regen in (True, False):
                for only in (False, True):
                    it, f, args, res, calls = assemble(periodic, drag, regen, only)
                    ck.interp(it)
                    tag = '%s%s%s%s' % ('periodic' if periodic else 'open', ', drag only' if drag else '',
                                        ', regenerated' if regen else ', cached', ', far field only' if only else '')
                    far = base_arr('Mper' if periodic else 'Mopen', (SIDE, SIDE))
                    if drag:
                        inv = it.unbox(res[2])      # its value is the subject of C02
                        if not isinstance(inv, Arr):
                            ck.unsure(tag, 'far-field inverse not resolved')
                            continue
                    else:
                        inv = LinArr('inv', (far,), (SIDE, SIDE)) if regen else base_arr('last', (SIDE, SIDE))
                        deep_same(ck, it, tag + ': returned far-field inverse', res[2], inv, None, sampler, site(f))
                    near = base_arr('R2B', (SIDE, SIDE))
                    want = inv if only else Arr((SIDE, SIDE), lambda ix, inv=inv: num(inv.get(ix)) + near.get(ix))
                    deep_same(ck, it, tag + ': total resistance', res[0], want, None, sampler, site(f))
                    # which parts were computed, and from what
                    kinds = [c[0] for c in calls]
                    need = ([] if drag or not regen else ['periodic' if periodic else 'open']) + ([] if only else ['near'])
                    for k in need:
                        if k not in kinds:
                            ck.fail('%s: %s part computed' % (tag, k), 'the part is not computed', site(f))
                    for kind, bound, where in calls:
                        par = ['posdata', 'mu'] + (['cutoff_factor'] if kind == 'near' else [])
                        if periodic:
                            par += ['box_bottom_left', 'box_top_right', 'Ot_infinity', 'Et_infinity']
                        for name in par:
                            key = '%s: %s given to the %s part' % (tag, name, kind)
                            if name not in bound:
                                ck.unsure(key, 'no such parameter')
                                continue
                            deep_same(ck, it, key, bound[name], args[name], None, sampler, where)
    from .solve import Problem
    from .c08 import solve
    for periodic in (False, True):
        pb = Problem('fts', 2, 1, periodic=periodic)
        it, f, o, raw = solve(pb)
        ck.interp(it)
        tag = 'solver, %s box' % ('periodic' if periodic else 'no')
        want = {'posdata': pb.posdata(it), 'mu': mu, 'cutoff_factor': sym('cf', pos=True), 'use_drag_Minfinity': cmp_gt(sym('drag')),
                'use_Minfinity_only': cmp_gt(sym('only')), 'regenerate_Minfinity': cmp_gt(sym('regen')),
                'last_generated_Minfinity_inverse': base_arr('lastM', (pb.side, pb.side))}
        if periodic:
            want.update(box_bottom_left=Arr((P(3),), lambda i: ZERO), box_top_right=base_arr('boxL', (3,)),
                        Ot_infinity=base_arr('Otinf', (3,)), Et_infinity=base_arr('Etinf', (3, 3)))
        if [c[0] for c in pb.calls] != ['periodic' if periodic else 'open']:
            if pb.calls:
                ck.fail(tag + ': kind of resistance', 'assembled as %s' % [c[0] for c in pb.calls], pb.calls[0][2])
            else:
                ck.unsure(tag + ': kind of resistance', 'no assembly call seen')
        else:
            ck.ok(tag + ': kind of resistance')
        for kind, bound, where in pb.calls:
            for name, w in want.items():
                if name in bound:
                    deep_same(ck, it, '%s: %s given to the assembly' % (tag, name), bound[name], w, None, None, where)
        deep_same(ck, it, tag + ': far-field inverse carried on', raw[10], base_arr('Minv', (pb.side, pb.side)), None,
                  None, site(f))
    return ck.finish(minimum=100)

"""Pictures show every particle of the frame at its place, and arrows of the vector they stand for."""
from .solve import *
from fractions import Fraction as Fr

ARROWS = {'plot_all_force_lines': ('force', 6), 'plot_all_torque_lines': ('torque', 1),
          'plot_all_velocity_lines': ('velocity', 1), 'plot_all_angular_velocity_lines': ('angular velocity', 1)}


class Canvas:
    """Records what is drawn while the drawing functions are interpreted."""

    def __init__(self, ck, hooks=()):
        self.discs, self.lines, self.arrows, self.radius = [], [], [], {}
        self.it = it = ck.interp(Interp(ROOTS, facts=Facts([])))
        it.hooks.update({'extern:matplotlib.patches.Circle': self.circle, 'extern:matplotlib.pyplot.Circle': self.circle,
                         'extern:matplotlib.pyplot.plot': self.line,
                         'pathpatch_2d_to_3d': lambda it, b, e: None, 'pathpatch_translate': self.place,
                         'class:Arrow3D': self.arrow})
        it.hooks.update(hooks)

    def circle(self, it, a, k, e):
        r = Ref('dict')
        it.st.heap[r.id] = {}
        self.radius[r.id] = a[1] if len(a) > 1 else k.get('radius')
        return r

    def place(self, it, b, e):
        p, at = list(b.values())[:2]
        self.discs.append((self.radius.get(getattr(p, 'id', None)), [cell(it, at, i) for i in range(3)], it.where(e)))

    def line(self, it, a, k, e):
        self.lines.append(([cell(it, a[i], 0) for i in range(3)], [cell(it, a[i], 1) for i in range(3)], it.where(e))
                          if len(a) > 2 else None)
        return lst(it, [OpaqueV('line')])

    def arrow(self, it, a, k, e):
        self.arrows.append(([cell(it, a[i], 0) for i in range(3)], [cell(it, a[i], 1) for i in range(3)], it.where(e))
                           if len(a) > 2 else None)
        return OpaqueV('arrow')


def run():
    ck = Check('C25', 'The drawing functions and the scripts that show a saved run are interpreted with symbolic particles, '
               'vectors and archives; the plotting library is replaced by a record of the discs, lines and arrows asked '
               'for. Radius and end points of each are compared with the particle it stands for.')
    for ns in (1, 2, 3):
        for trace in (0, 1):
            spheres(ck, ns, trace)
        for name, (what, scale) in ARROWS.items():
            arrows(ck, ns, name, what, scale)
    for nd in (1, 2, 3):
        for hide in (False, True):
            dumbbells(ck, nd, hide)
    for ns, nd in ((2, 1), (3, 0), (0, 2)):
        script(ck, ns, nd)
        for frame in (0, 1):
            video(ck, ns, nd, frame)
    return ck.finish(minimum=100)


def particles(it, ns, nd, tag=''):
    return it.box((base_arr(tag + 'sa', (ns,), pos=True), base_arr(tag + 'sx', (ns, 3)), base_arr(tag + 'srot', (ns, 2, 3)),
                   base_arr(tag + 'da', (nd,), pos=True), base_arr(tag + 'dx', (nd, 3)), base_arr(tag + 'dd', (nd, 3))))


def row(a, *ix):
    return [a.get(tuple(P(i) for i in ix) + (P(k),)) for k in range(3)]


def points(ck, name, got, want, w):
    for k in range(3):
        ck.same('%s, component %d' % (name, k), got[k], want[k], None, None, w)


def equal(a, b):
    return all(isinstance(x, Poly) and not x.bad and (x - y).const() == 0 for x, y in zip(a, b))


def paired(got, want, either=False):
    """Drawn and expected items, equal ones together whatever their order, the rest in order."""
    rest, pairs, late = list(got), [], []
    for w in want:
        ways = [w, w[3:] + w[:3]] if either else [w]
        hit = next(((g, v) for v in ways for g in rest if equal(g[0], v)), None)
        if hit:
            rest.remove(hit[0])
            pairs.append(hit)
        else:
            late.append(w)
    return pairs + list(zip(rest, late))


def discs(ck, name, cv, radii, centres):
    if len(cv.discs) != len(radii):
        if cv.discs and len(cv.discs) == len(cv.radius) < len(radii):
            ck.fail('%s: number of discs' % name, '%d drawn for %d' % (len(cv.discs), len(radii)), cv.discs[-1][2])
        else:
            # drawn in some other way
            ck.unsure('%s: number of discs' % name, '%d drawn for %d' % (len(cv.discs), len(radii)))
        return
    got = [([r] + at, w) for r, at, w in cv.discs]
    for i, ((g, w), v) in enumerate(paired(got, [[r] + c for r, c in zip(radii, centres)])):
        ck.same('%s: radius of disc %d' % (name, i), g[0], v[0], None, None, w)
        points(ck, '%s: centre of disc %d' % (name, i), g[1:], v[1:], w)


def lines(ck, name, got, want, either=True):
    got = [x for x in got if x]
    if len(got) != len(want):
        ck.unsure('%s: number of lines' % name, '%d drawn for %d' % (len(got), len(want)))
        return
    got = [(a + b, w) for a, b, w in got]
    for i, ((g, w), v) in enumerate(paired(got, [list(c) + list(d) for c, d in want], either)):
        points(ck, '%s: start of line %d' % (name, i), g[:3], v[:3], w)
        points(ck, '%s: end of line %d' % (name, i), g[3:], v[3:], w)


def drawn(ck, cv, name, args, kw, tag):
    it = cv.it
    f = find_opt(it, name, ['functions.graphics'])
    if f is None:
        ck.unsure(tag, 'not found')
        return None
    try:
        it.call_func(f, args, kw)
    except Exception as ex:
        ck.unsure(tag, ex)
        return None
    return f


def spheres(ck, ns, trace):
    cv = Canvas(ck)
    it, tag = cv.it, '%d spheres%s' % (ns, ' with paths' if trace else '')
    f = drawn(ck, cv, 'plot_all_spheres', [OpaqueV('axes'), sym('frame', isint=True) if not trace else P(4), particles(it, ns, 0),
                                           particles(it, ns, 0, 'old'), P(2 * trace), lst(it, []),
                                           it.box(base_arr('F', (ns, 3)))], {}, tag)
    if f is None:
        return
    A, X, R = base_arr('sa', (ns,), pos=True), base_arr('sx', (ns, 3)), base_arr('srot', (ns, 2, 3))
    discs(ck, tag, cv, [A.get((P(i),)) for i in range(ns)], [row(X, i) for i in range(ns)])
    want = []
    for i in range(ns):
        want += [(row(X, i), row(R, i, m)) for m in range(2)]
        if trace:
            want.append((row(base_arr('oldsx', (ns, 3)), i), row(X, i)))
    lines(ck, tag, cv.lines, want)


def ends(D, V, i):
    return [[x + v * h for x, v in zip(row(D, i), row(V, i))] for h in (Fr(-1, 2), Fr(1, 2))]


def dumbbells(ck, nd, hide):
    cv = Canvas(ck)
    it, tag = cv.it, '%d dumbbells%s' % (nd, ' without lines' if hide else '')
    f = drawn(ck, cv, 'plot_all_dumbbells', [OpaqueV('axes'), particles(it, 0, nd), ZERO, lst(it, []),
                                             it.box(base_arr('F', (nd, 3))), it.box(base_arr('DF', (nd, 3)))],
              {'no_line': hide}, tag)
    if f is None:
        return
    A, D, V = base_arr('da', (nd,), pos=True), base_arr('dx', (nd, 3)), base_arr('dd', (nd, 3))
    both = [ends(D, V, i) for i in range(nd)]
    discs(ck, tag, cv, [A.get((P(i),)) for i in range(nd) for _ in range(2)], [x for b in both for x in b])
    lines(ck, tag, cv.lines, [] if hide else [tuple(b) for b in both])


def arrows(ck, ns, name, what, scale):
    cv = Canvas(ck)
    it, tag = cv.it, '%s arrows of %d spheres' % (what, ns)
    V, X = base_arr('V', (ns, 3)), base_arr('sx', (ns, 3))
    f = drawn(ck, cv, name, [OpaqueV('axes'), particles(it, ns, 0), it.box(V)], {}, tag)
    if f is None:
        return
    lines(ck, tag, cv.arrows, [(row(X, i), [x + v * scale for x, v in zip(row(X, i), row(V, i))]) for i in range(ns)], False)


def archive(ns, nd):
    return {'centres': base_arr('centres', (4, ns + nd, 3)), 'deltax': base_arr('deltax', (4, nd, 3)),
            'Fa': base_arr('Fa', (3, ns, 3)), 'Fb': base_arr('Fb', (3, nd, 3)), 'DFb': base_arr('DFb', (3, nd, 3)),
            'sphere_rotations': base_arr('rots', (4, ns, 2, 3))}


def loader(ar):
    def load(it, a, k, e):
        r = Ref('dict')
        it.st.heap[r.id] = {n: it.box(v) for n, v in ar.items()}
        return r
    return load


def shown(ck, cv, tag, ar, ns, nd, frame):
    C, D = ar['centres'], ar['deltax']
    at = [row(C, frame, i) for i in range(ns)]
    for i in range(nd):
        c, d = row(C, frame, ns + i), row(D, frame, i)
        at += [[x + v * h for x, v in zip(c, d)] for h in (Fr(-1, 2), Fr(1, 2))]
    discs(ck, tag, cv, [ONE] * ns + [P(Fr(1, 10))] * (2 * nd), at)


def script(ck, ns, nd):
    ar = archive(ns, nd)
    cv = Canvas(ck, {'extern:numpy.load': loader(ar)})
    tag = 'picture of a saved run, %d spheres, %d dumbbells' % (ns, nd)
    try:
        g = cv.it.run_module('plotting.plot_positions')
        frame = g['frameno'].as_int()
    except Exception as ex:
        ck.unsure(tag, ex)
        return
    shown(ck, cv, tag, ar, ns, nd, frame)


def video(ck, ns, nd, frame):
    ar = archive(ns, nd)
    nothing = lambda it, b, e: tuple([OpaqueV('unused')] * 13 + [it.box(base_arr('z%d' % i, (3,))) for i in range(5)]
                                     + [it.box(zeros3()), it.box(zeros3()), ONE])
    cv = Canvas(ck, {'extern:numpy.load': loader(ar), 'input_ftsuoe': nothing,
                     'pos_setup': lambda it, b, e: (particles(it, ns, nd), '')})
    tag = 'frame %d of the video, %d spheres, %d dumbbells' % (frame, ns, nd)
    it = cv.it
    try:
        g = it.run_module('plotting.make_video')
        cv.discs.clear()
        f = find(it, 'generate_frame', ['plotting.make_video'])
        it.call_func(f, [P(frame)], {})
    except Exception as ex:
        ck.unsure(tag, ex)
        return
    shown(ck, cv, tag, ar, ns, nd, frame)


def zeros3():
    return Arr((P(3),), lambda ix: ZERO)


"""The supplied inputs prescribe what they describe and leave everything else at rest or open."""
from .solve import *

OUT = ('F', 'T', 'S', 'S5', 'B', 'DB', 'U', 'O', 'E', 'E5', 'UB', 'HU', 'desc', 'Uinf', 'Oinf', 'centre', 'Ot', 'Et',
       'lo', 'hi', 'mu')
NAMES = {'F': 'sphere force', 'T': 'torque', 'S': 'stresslet', 'B': 'dumbbell force', 'DB': 'dumbbell force difference',
         'U': 'sphere velocity', 'O': 'angular velocity', 'E': 'strain rate', 'UB': 'dumbbell velocity',
         'HU': 'dumbbell velocity difference', 'Uinf': 'background velocity', 'Oinf': 'background rotation',
         'centre': 'centre of the flow', 'Ot': 'accumulated rotation', 'Et': 'accumulated strain', 'lo': 'box corner',
         'hi': 'opposite box corner', 'mu': 'viscosity'}
OPEN = object()
Z3 = [ZERO] * 3
Z33 = [[ZERO] * 3 for _ in range(3)]


def run():
    ck = Check('C23', 'Every supplied input is interpreted for every problem form and several particle numbers; each entry '
               'of the prescribed forces, torques, stresslets, strain rates and velocities, the background flow, the box '
               'and the viscosity is compared with the described value, with zero, or required to be left open.')
    for form in ('fts', 'fte', 'ufte', 'ufteu', 'duf'):
        for ns, nd in ((2, 1), (3, 0), (1, 2), (0, 2)):
            if form == 'duf' and ns:
                continue
            for n in (1, 2, 3, 5, 7):
                if n == 5 and (form[0] != 'u' or not ns):
                    continue
                one(ck, n, form, ns, nd)
    for form in ('fts', 'fte'):
        one(ck, 4, form, 1, 0)
        one(ck, 4, form, 0, 1, ends=False)
    one(ck, 6, 'ufte', 99, 0)
    one(ck, 6, 'ufte', 99, 1)
    return ck.finish(minimum=200)


def described(n, form, ns, nd):
    v = lambda x, k: [list(x) for _ in range(k)]
    t = lambda x, k: [[list(r) for r in x] if x is not OPEN else OPEN for _ in range(k)]
    zero = form in ('fts', 'fte', 'ufte')
    put = lambda on, k: v(Z3, k) if on else [OPEN] * k
    w = {'F': put(form in ('fts', 'fte'), ns), 'T': put(zero, ns), 'B': put(zero, nd), 'DB': put(zero, nd),
         'S': t(Z33, ns) if form == 'fts' else [OPEN] * ns,
         'E': t(Z33, ns) if form in ('fte', 'ufte') else [OPEN] * ns,
         'U': [OPEN] * ns, 'O': [OPEN] * ns, 'UB': [OPEN] * nd, 'HU': [OPEN] * nd,
         'Uinf': Z3, 'Oinf': Z3, 'centre': Z3, 'Ot': Z3, 'Et': Z33, 'lo': Z3, 'hi': Z3, 'mu': ONE}
    if not ns:
        w['E'] = t(Z33, 1)
    if n in (1, 2):
        w['F'] = v((ZERO, ZERO, P(-1)), ns)
    if n == 2:
        w['lo'], w['hi'] = [P(-4)] * 3, [P(4)] * 3
    if n in (3, 4):
        # the forces are the subject of another property
        w['DB'] = None
    if n in (3, 7):
        for k in ('E', 'Uinf', 'Oinf', 'centre', 'Ot', 'Et'):
            w[k] = None
    left, right = (P(-1), ZERO, ZERO), (ONE, ZERO, ZERO)
    if n == 5:
        w['U'] = v(left, ns // 2) + v(right, ns - ns // 2)
    if n == 6:
        w['U'][:90] = v(left, 45) + v(right, 45)
        w['F'][90:] = v((P(10), ZERO, ZERO), 9)
    return w


def flat(x, pre=()):
    if isinstance(x, list):
        for i, y in enumerate(x):
            yield from flat(y, pre + (i,))
    else:
        yield pre, x


def one(ck, n, form, ns, nd, ends=True):
    it = ck.interp(Interp(ROOTS, facts=Facts([])))
    it.bind_norms = 1
    f = find(it, 'input_ftsuoe', ['setups.inputs'])
    pos = it.box((base_arr('sa', (ns,), pos=True), base_arr('sx', (ns, 3)), base_arr('srot', (ns, 2, 3)),
                  base_arr('da', (nd,), pos=True), base_arr('dx', (nd, 3)), base_arr('dd', (nd, 3))))
    tag, w = 'input %d, form %s, %d spheres, %d dumbbells' % (n, form, ns, nd), site(f)
    v = it.call_func(f, [], {'n': P(n), 'posdata': pos, 'frameno': sym('frame', isint=True), 'timestep': sym('dt', pos=True),
                             'last_velocities': lst(it, [[], [], [], []]), 'input_form': form})
    try:
        o = dict(zip(OUT, it.unpack(v, len(OUT))))
    except Exception as ex:
        ck.unsure(tag, ex)
        return
    want = described(n, form, ns, nd)
    if n == 4 and not ends:
        want['B'] = None
    for key, val in want.items():
        if val is None:
            continue
        if key == 'mu':
            ck.same('%s: viscosity' % tag, o[key], ONE, None, None, w)
            continue
        n_got = it.b_len([o[key]], {}, None)
        n_got = n_got.const() if isinstance(n_got, Poly) else None
        if n_got is not None:
            name = '%s: number of entries of the %s' % (tag, NAMES[key])
            if n_got < len(val):
                ck.fail(name, '%s entries for %d' % (n_got, len(val)), w)
                continue
            ck.ok(name, 'enough entries')
        for ix, x in flat(val):
            name = '%s: %s %s' % (tag, NAMES[key], list(ix))
            if x is OPEN:
                ranks = 2 if key in ('S', 'E') else 1
                got = cell(it, o[key], *(ix + (0,) * ranks))
                if isinstance(got, Poly) and not got.bad:
                    ck.fail(name, 'prescribed although it is to be found: %s' % pl.show(got, 80), w)
                elif isinstance(got, str):
                    ck.ok(name, 'left open')
                else:
                    ck.unsure(name, repr(got))
                continue
            got = cell(it, o[key], *ix)
            if isinstance(got, str):
                ck.fail(name, 'not prescribed', w)
            else:
                ck.same(name, got, x, None, None, w)

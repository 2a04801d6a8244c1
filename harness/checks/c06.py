"""C06: results do not depend on the global axes and origin."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case
from ..oracle import close, results, same, scale_max, size  # noqa: F401
from ..refmodel import axes, second_order_safe
from .c09 import collinear
from .c13 import converged_is_consistent, inactive, one_way_frames

RULE = 'the model has non-zero results and the placement is not the original one; labels name the kind of model and of turn'
ASSUMPTIONS = ['default local axes are defined relative to the vertical: members without auxiliary node are compared under turns about Y, '
               'or under any turn when their section and releases have no preferred direction',
               'plates and quads take their local axes from their corners, so their local results are compared under any turn']
FR = (0.00037, 0.2307, 0.48713, 0.81109, 0.99963)
EPS = 1e-12


def turn(spec, R, o):
    """The whole model turned by R about the origin, then moved by o."""
    out = specs.copy(spec)
    put = lambda p: [float(c) for c in R @ np.array(p, float) + o]
    out['nodes'] = [put(p) for p in spec['nodes']]
    for e in out['members']:
        if e.get('aux'):
            e['aux'] = put(e['aux'])

    def comps(d):
        """(letter index, factor) of a global unit vector."""
        v = R[:, 'XYZ'.index(d)]
        return [('XYZ'[c], float(v[c])) for c in range(3) if abs(v[c]) > EPS]

    def dofs(d):
        v = R[:, d % 3]
        return [(c + 3*(d//3), float(v[c])) for c in range(3) if abs(v[c]) > EPS]
    out['nl'] = [[k, c, p*f, case] for k, d, p, case in spec['nl'] for c, f in dofs(d)]
    out['pl'] = [q for k, d, p, x, case in spec['pl']
                 for q in ([[k, d[0] + c, p*f, x, case] for c, f in comps(d[1])] if d[1].isupper() else [[k, d, p, x, case]])]
    out['dl'] = [q for k, d, w1, w2, x1, x2, case in spec['dl']
                 for q in ([[k, d[0] + c, w1*f, w2*f, x1, x2, case] for c, f in comps(d[1])] if d[1].isupper() else [[k, d, w1, w2, x1, x2, case]])]
    out['sw'] = [['F' + c, f*s, case] for d, s, case in spec['sw'] for c, f in comps(d[1])]
    sup = {}
    for k, bits in spec['sup']:
        sup[k] = bits
    out['sup'] = []
    for k, bits in sup.items():
        new = [0]*6
        for d in range(6):
            if bits[d]:
                for c, f in dofs(d):
                    new[c] = 1
        out['sup'].append([k, new])
    out['sprsup'] = []
    for k, d, ks, way in spec['sprsup']:
        (c, f), = dofs(d)
        if way and f < 0:
            way = '-' if way == '+' else '+'
        out['sprsup'].append([k, c, ks, way])
    val = {}
    for k, d, v in spec['disp']:
        for c, f in dofs(d):
            val[(k, c)] = val.get((k, c), 0.0) + v*f
    out['disp'] = [[k, c, v] for (k, c), v in val.items()]
    return out


def turned_back(r, R):
    """Global results expressed in the original axes."""
    out = type(r)(r)
    out.Lc = r.Lc
    for k in ('u nodes', 'r nodes', 'f reactions', 'm reactions'):
        out[k] = r[k] @ R
    return out


@st.composite
def isotropic(draw, base):
    """Supports and spring supports without a preferred direction."""
    spec = draw(base)
    spec['sprsup'] = []
    out = []
    for k, bits in spec['sup']:
        out.append([k, [int(any(bits[:3]))]*3 + [int(any(bits[3:]))]*3])
    spec['sup'] = out
    ok = {k: b for k, b in out}
    spec['disp'] = [q for q in spec['disp'] if ok.get(q[0], [0]*6)[q[1]]]
    if not spec['plates'] and not spec['quads'] and not gen.ok(spec):
        spec['sup'] = [[0, [1]*6]] + [q for q in spec['sup'] if q[0] != 0]
        for e in spec['members']:
            e.pop('rel', None)
    return spec


def with_aux(spec, only_vertical=False):
    """The default local axes made explicit by auxiliary nodes."""
    out = specs.copy(spec)
    for e in out['members']:
        a, b = spec['nodes'][e['i']], spec['nodes'][e['j']]
        if only_vertical and not (abs(a[0] - b[0]) < 1e-9 and abs(a[2] - b[2]) < 1e-9):
            continue
        if not e.get('aux'):
            a = np.array(spec['nodes'][e['i']])
            ax = axes(a, spec['nodes'][e['j']])
            e['aux'] = [float(c) for c in a + 2.0*ax[2] + 0.3*ax[0]]
    return out


def no_preference(spec):
    """Sections and releases that do not distinguish local y from z; no loads in local y or z."""
    out = specs.copy(spec)
    for e in out['members']:
        e.pop('aux', None)
        e['Iz'] = e['Iy']
        if e.get('rel'):
            r = e['rel']
            for h in (0, 6):
                r[h + 1] = r[h + 2] = int(r[h + 1] and r[h + 2])
                r[h + 4] = r[h + 5] = int(r[h + 4] and r[h + 5])
    for key in ('pl', 'dl'):
        for q in out[key]:
            if q[1][1] in 'yz':
                q[1] = q[1].upper()
    return out


def yaw_matrix(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def matrix(how):
    kind, v = how
    return gen.rot_matrix(v) if kind in ('quarter', 'any') else yaw_matrix(v)


OFFSETS = st.sampled_from([[0.0, 0.0, 0.0], [5.0, -3.0, 2.5], [-17.25, 40.0, -8.125]])
QUARTER = st.integers(1, 23).map(lambda q: ['quarter', q])
ANY = gen.quat.map(lambda q: ['any', q])
YAW = st.integers(1, 31).map(lambda q: ['yaw', q*np.pi/16])
SPIN = st.integers(1, 3).map(lambda q: ['yaw', q*np.pi/2])


def idle_supports(m, spec):
    for ci in range(len(specs.combos(spec))):
        D = np.abs(specs.disp(m, specs.NAMES.combo(ci), count=len(spec['nodes'])))
        for k, d, ks, way in spec['sprsup']:
            if way and D[k, d] <= 1e-9*D.max():
                return True
    return False


def compare(spec, how, o, mode, kind, sparse):
    R = matrix(how)
    if how[0] == 'yaw' and mode == 'spin':
        R = np.round(R)
    if mode == 'aux':
        spec = with_aux(spec)
    elif mode in ('yaw', 'spin'):       # the default axes of vertical members do not turn with them
        spec = with_aux(spec, True)
    elif mode == 'round':
        spec = no_preference(spec)
    if mode in ('aux', 'yaw', 'spin') and kind == 'pdelta' and not second_order_safe(spec):
        return ()
    if kind == 'pdelta' and mode == 'round':
        kind = 'general'
    other = turn(spec, R, np.array(o))
    a, b = specs.build(spec), specs.build(other)
    try:
        specs.analyze(a, kind, sparse=sparse)
    except Exception as e:
        if 'diverged' in str(e) or 'singular' in str(e).lower() or 'unstable' in str(e).lower():
            return ()
        raise
    try:
        specs.analyze(b, kind, sparse=sparse)
    except Exception as e:
        # (a one-way support that does not move can be switched on and off by round-off for ever)
        if 'diverged' in str(e) and idle_supports(a, spec):
            return ()
        raise
    big = False
    for ci in range(len(specs.combos(spec))):
        combo = specs.NAMES.combo(ci)
        ra = results(a, spec, combo, fracs=FR)
        rb = turned_back(results(b, other, combo, fracs=FR), R)
        big = big or size(ra) > 1e-6
        keys = None
        if inactive(a, spec, combo) != inactive(b, other, combo):
            # (which of the elements without force are found inactive, and so at times the order in which others become
            # inactive, depends on round-off: both outcomes must then be solutions)
            converged_is_consistent(a, spec, ci)
            converged_is_consistent(b, other, ci)
            continue
        if mode == 'round':     # the default local axes differ: compare what does not depend on them
            keys = []
            for k in ra:
                if 'member' not in k:
                    keys.append(k)
                else:
                    for q in (ra, rb):
                        v = q[k]
                        q[k] = np.column_stack([v[:, 0], np.hypot(v[:, 1], v[:, 2])])
                    keys.append(k)
        same(rb, ra, f'{combo}: {mode} turned by {how}, moved by {o}', keys=keys, rtol=2e-6)
    if not big:
        return ()
    out = {f'{mode} {how[0]} {kind}'}
    if any(o):
        out.add('moved')
    return out


def check(arg):
    return compare(*arg)


KIND = st.sampled_from(['linear', 'general', 'general', 'pdelta'])
BOOL = st.booleans()


def case(base, how, mode, kind=KIND):
    return st.tuples(base, how, OFFSETS, st.sampled_from([mode] if isinstance(mode, str) else mode), kind, BOOL)


LIN = st.sampled_from(['linear', 'general'])
FRAMES = gen.frames(max_members=5)
CASES = [
    Case('quarter', case(FRAMES, QUARTER, 'aux'), check, quick=400, thorough=12000),
    Case('any', case(isotropic(gen.frames(max_members=5)), ANY, 'aux'), check, quick=240, thorough=8000),
    Case('yaw', case(isotropic(gen.frames(max_members=5)), YAW, 'yaw'), check, quick=320, thorough=8000),
    Case('spin', case(FRAMES, SPIN, 'spin'), check, quick=240, thorough=8000),
    Case('round', case(gen.frames(max_members=5, aux=False), QUARTER, 'round', LIN), check, quick=320, thorough=8000),
    Case('round_any', case(isotropic(gen.frames(max_members=5, aux=False)), ANY, 'round', LIN), check, quick=160, thorough=6000),
    Case('along', case(collinear(), QUARTER, ['aux', 'round'], LIN), check, quick=160, thorough=6000),
    Case('one_way', case(one_way_frames(), QUARTER, 'aux', st.just('general')), check, quick=160, thorough=6000),
    Case('shell', case(gen.shells(members=False), QUARTER, 'aux', LIN), check, quick=120, thorough=3000),
    Case('shell_any', case(isotropic(gen.shells(springs=False)), ANY, 'aux', LIN), check, quick=80, thorough=3000),
    Case('shell_frame', case(gen.shells(), QUARTER, 'aux', LIN), check, quick=64, thorough=2500),
]

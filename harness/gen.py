"""Hypothesis generators of model specifications. Models are built so that they are well posed: the structure starts
as a connected frame on a fixed node, and releases, weaker supports and the like are kept only while the independent
reference stiffness stays well conditioned."""
from . import env  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from . import specs
from .refmodel import Ref, axes

COND = 1e7
AXIS = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
G_DIRS = ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')
L_DIRS = ('Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz')

mag = st.integers(-200, 200).filter(lambda v: abs(v) >= 4).map(lambda v: v/4)
pos_len = st.integers(8, 40).map(lambda v: v/4)
frac = st.one_of(st.integers(0, 8).map(lambda v: v/8), st.integers(1, 999).map(lambda v: v/1000))
factor = st.sampled_from([1.0, 1.2, 1.6, 0.9, -1.0, 0.5, 1.4, -0.75])

MATS = [[2.0e8, 8.0e7, 0.25, 77.0], [7.0e7, 2.6e7, 0.33, 27.0], [1.2e7, 7.5e5, 0.3, 5.0], [3.0e7, 1.25e7, 0.2, 24.0]]


def _close(p, q):
    return max(abs(a - b) for a, b in zip(p, q)) < 0.2


@st.composite
def section(draw):
    return {'A': draw(st.sampled_from([0.004, 0.01, 0.02, 0.035])), 'Iy': draw(st.sampled_from([2e-5, 6e-5, 1.5e-4, 4e-4])),
            'Iz': draw(st.sampled_from([2.5e-5, 9e-5, 2e-4, 5e-4])), 'J': draw(st.sampled_from([1e-5, 5e-5, 2e-4]))}


@st.composite
def step(draw, planar=False):
    """A vector from one node to the next: along an axis, in a plane, or skew."""
    L = draw(pos_len)
    kind = draw(st.sampled_from(['axis', 'axis', 'plane', 'skew', 'near']))
    if kind == 'axis':
        a = draw(st.sampled_from(AXIS))
        v = [L*c for c in a]
    elif kind == 'plane':
        k = draw(st.integers(0, 2))
        v = [draw(st.sampled_from([-1, 1]))*draw(st.integers(2, 24))/4 for _ in range(3)]
        v[k] = 0.0
    elif kind == 'near':      # nearly along an axis, well beyond round-off
        a = draw(st.integers(0, 2))
        v = [draw(st.sampled_from([-0.125, 0.0, 0.125])) for _ in range(3)]
        v[a] = draw(st.sampled_from([-1, 1]))*L
    else:
        v = [draw(st.sampled_from([-1, 1]))*draw(st.integers(2, 24))/4 for _ in range(3)]
    if sum(c*c for c in v) < 1.0:
        v = [2.0, 0.0, 0.0]
    return [float(c) for c in v]


def near_colinear(spec, m):
    """A node close to a member's axis but not on it: not decided by any documented rule."""
    a, b = np.array(spec['nodes'][m['i']]), np.array(spec['nodes'][m['j']])
    L = np.linalg.norm(b - a)
    x = (b - a)/L
    for k, p in enumerate(spec['nodes']):
        r = np.array(p) - a
        nr = np.linalg.norm(r)
        if k in (m['i'], m['j']) or nr == 0:
            continue
        s = r @ x
        off = np.linalg.norm(r - s*x)/nr
        if s > 0 and s < L*1.001 and 1e-9 < off < 1e-3:
            return True
    return False


@st.composite
def geometry(draw, min_members=1, max_members=6, extra=2, aux=True, offset=True, sec=True):
    """Nodes and members of a connected frame."""
    spec = specs.empty()
    spec['mats'] = draw(st.lists(st.sampled_from(MATS), min_size=1, max_size=2, unique_by=lambda m: m[0]))
    spec['mats'] = [list(m) for m in spec['mats']]
    o = draw(st.sampled_from([[0.0, 0.0, 0.0], [3.5, -2.25, 10.0], [-40.0, 25.5, 7.75]])) if offset else [0.0, 0.0, 0.0]
    spec['nodes'] = [list(o)]
    n = draw(st.integers(min_members, max_members))

    def add(i, j):
        if draw(st.booleans()):
            i, j = j, i
        m = {'i': i, 'j': j, 'mat': draw(st.integers(0, len(spec['mats']) - 1)), **draw(section())}
        if sec and draw(st.integers(0, 3)) == 0:
            m['sec'] = True
        if aux and draw(st.integers(0, 3)) == 0:
            x = axes(spec['nodes'][i], spec['nodes'][j])
            k = draw(st.integers(1, 15))*np.pi/8
            off = np.cos(k)*x[1] + np.sin(k)*x[2] + draw(st.sampled_from([0.0, 0.5, -1.0]))*x[0]
            m['aux'] = [round(float(c), 3) for c in np.array(spec['nodes'][i]) + 2*off]
        spec['members'].append(m)
        return m

    for _ in range(n):
        i = draw(st.integers(0, len(spec['nodes']) - 1))
        v = draw(step())
        p = [a + b for a, b in zip(spec['nodes'][i], v)]
        if any(_close(p, q) for q in spec['nodes']):
            continue
        spec['nodes'].append(p)
        add(i, len(spec['nodes']) - 1)
        if any(near_colinear(spec, m) for m in spec['members']):
            spec['nodes'].pop()
            spec['members'].pop()
    if not spec['members']:
        spec['nodes'].append([o[0] + 4.0, o[1], o[2]])
        add(0, 1)
    for _ in range(draw(st.integers(0, extra))):
        i = draw(st.integers(0, len(spec['nodes']) - 1))
        j = draw(st.integers(0, len(spec['nodes']) - 1))
        if i != j and not any({m['i'], m['j']} == {i, j} for m in spec['members']):
            m = add(i, j)
            if near_colinear(spec, m):
                spec['members'].pop()
    return spec


SUPPORTS = [[1, 1, 1, 1, 1, 1], [1, 1, 1, 0, 0, 0], [0, 1, 0, 0, 0, 0], [1, 1, 0, 0, 0, 1], [0, 1, 1, 1, 0, 0], [0, 0, 1, 0, 0, 0],
            [1, 0, 0, 0, 1, 0], [1, 1, 1, 0, 1, 0]]


def ok(spec, cond=COND):
    try:
        return Ref(spec).cond() < cond
    except np.linalg.LinAlgError:
        return False


RELEASES = [[5], [11], [5, 11], [4, 5], [10, 11], [4, 5, 10, 11], [3], [9], [0], [6], [1], [2], [7], [8], [3, 4, 5], [3, 4, 5, 10, 11],
            [4, 11], [1, 5], [2, 10], [0, 5, 11], [9, 10, 11], [0, 4, 5]]


@st.composite
def release_set(draw):
    if draw(st.integers(0, 4)) == 0:
        idx = draw(st.lists(st.integers(0, 11), min_size=1, max_size=5, unique=True))
    else:
        idx = draw(st.sampled_from(RELEASES))
    return [1 if c in idx else 0 for c in range(12)]


@st.composite
def supports(draw, spec, more=3, weaken=True):
    """Adds supports: the first node is fixed, then others are added and the first weakened where that stays stable."""
    spec['sup'] = [[0, [1]*6]]
    n = len(spec['nodes'])
    for _ in range(draw(st.integers(0, more))):
        k = draw(st.integers(0, n - 1))
        if any(s[0] == k for s in spec['sup']):
            continue
        spec['sup'].append([k, list(draw(st.sampled_from(SUPPORTS)))])
    if weaken and draw(st.booleans()):
        old = spec['sup'][0][1]
        spec['sup'][0][1] = list(draw(st.sampled_from(SUPPORTS[1:])))
        if not ok(spec):
            spec['sup'][0][1] = old
    return spec


@st.composite
def weaken(draw, spec, releases=True, springs=True, sprsup=True, cond=COND):
    """Adds springs, spring supports and releases while the structure stays well conditioned."""
    n = len(spec['nodes'])
    if springs and n > 2:
        for _ in range(draw(st.integers(0, 2))):
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if i != j and not _close(spec['nodes'][i], spec['nodes'][j]):
                spec['springs'].append({'i': i, 'j': j, 'ks': draw(st.sampled_from([150.0, 2000.0, 3.5e4, 2.5e5]))})
    if sprsup:
        for _ in range(draw(st.integers(0, 2))):
            k, d = draw(st.integers(0, n - 1)), draw(st.integers(0, 5))
            if any(s[0] == k and s[1][d] for s in spec['sup']) or any(s[0] == k and s[1] == d for s in spec['sprsup']):
                continue
            spec['sprsup'].append([k, d, draw(st.sampled_from([80.0, 1500.0, 4e4, 1e6])), None])
    if releases:
        for m in spec['members']:
            if draw(st.integers(0, 2)) == 0:
                old = m.get('rel')
                m['rel'] = draw(release_set())
                if not ok(spec, cond):
                    m['rel'] = old
                    if old is None:
                        del m['rel']
    if draw(st.integers(0, 2)) == 0 and spec['sup']:
        # drop support components that are not needed
        s = spec['sup'][draw(st.integers(0, len(spec['sup']) - 1))]
        d = draw(st.integers(0, 5))
        if s[1][d]:
            s[1][d] = 0
            if not ok(spec, cond):
                s[1][d] = 1
    return spec


@st.composite
def settlements(draw, spec, most=2):
    sup = [(n, d) for n, s in spec['sup'] for d in range(6) if s[d]]
    for _ in range(draw(st.integers(0, most))):
        n, d = draw(st.sampled_from(sup)) if draw(st.integers(0, 3)) else (draw(st.integers(0, len(spec["nodes"]) - 1)), draw(st.integers(0, 5)))
        if not any(q[0] == n and q[1] == d for q in spec['disp']):
            spec['disp'].append([n, d, draw(st.integers(-40, 40))/4000 if draw(st.integers(0, 4)) else 0.0])
    return spec


case_no = st.sampled_from([0, 0, 1, 2])


@st.composite
def loads(draw, spec, lo=1, hi=6, cases=case_no, kinds=('nl', 'pl', 'dl', 'sw')):
    """Loads of all kinds."""
    n, nm = len(spec['nodes']), len(spec['members'])
    kinds = [k for k in kinds if k in ('nl',) or nm]
    for _ in range(draw(st.integers(lo, hi))):
        kind = draw(st.sampled_from(list(kinds) + [k for k in kinds if k in ('pl', 'dl')]))
        c = draw(cases)
        if kind == 'nl':
            spec['nl'].append([draw(st.integers(0, n - 1)), draw(st.integers(0, 5)), draw(mag), c])
        elif kind == 'pl':
            k = draw(st.integers(0, nm - 1))
            L = specs.length(spec, spec['members'][k])
            d = draw(st.sampled_from(L_DIRS + G_DIRS))
            spec['pl'].append([k, d, draw(mag), draw(frac)*L, c])
        elif kind == 'dl':
            k = draw(st.integers(0, nm - 1))
            L = specs.length(spec, spec['members'][k])
            d = draw(st.sampled_from(L_DIRS[:3] + G_DIRS[:3]))
            w1 = draw(mag)/2
            shape = draw(st.integers(0, 4))
            w2 = w1 if shape <= 1 else (0.0 if shape == 2 else draw(mag)/2)
            if shape == 2 and draw(st.booleans()):
                w1, w2 = w2, w1
            x1 = x2 = None
            if draw(st.booleans()):
                a, b = sorted([draw(frac), draw(frac)])
                if b - a > 0.02:
                    x1, x2 = a*L, b*L
                    end = draw(st.integers(0, 5))
                    if end == 0:
                        x1 = None
                    elif end == 1:
                        x2 = None
            spec['dl'].append([k, d, w1, w2, x1, x2, c])
        elif kind == 'sw' and len(spec['sw']) < 2:
            spec['sw'].append([draw(st.sampled_from(G_DIRS[:3])), draw(st.sampled_from([-1.0, 1.0, 0.5, -1.35])), c])
    return spec


@st.composite
def combinations(draw, spec, lo=0, hi=3, tags=False):
    for _ in range(draw(st.integers(lo, hi))):
        cs = draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True))
        f = {str(c): draw(factor) for c in cs}
        t = None
        if tags and draw(st.integers(0, 3)) > 0:
            t = draw(st.lists(st.sampled_from(['a', 'b', 'strength', 'ab']), min_size=0, max_size=2, unique=True))
        spec['combos'].append([f, t])
    return spec


@st.composite
def frames(draw, min_members=1, max_members=6, extra=2, aux=True, releases=True, springs=True, sprsup=True, disp=True, n_loads=(1, 6),
           kinds=('nl', 'pl', 'dl', 'sw'), n_combos=(0, 3), tags=False, more_supports=3, cond=COND, offset=True, sec=True, weak=True):
    spec = draw(geometry(min_members, max_members, extra, aux, offset, sec))
    draw(supports(spec, more_supports, weak))
    draw(weaken(spec, releases, springs, sprsup, cond))
    if disp:
        draw(settlements(spec))
    draw(loads(spec, *n_loads, kinds=kinds))
    if draw(st.booleans()) or n_combos[0] > 0:
        draw(combinations(spec, *n_combos, tags=tags))
    return spec


# ---------------------------------------------------------------------------- rigid placement of a model
def rot_matrix(q):
    """One of the 24 axis permutations (q: int) or the rotation of a quaternion (q: list)."""
    if isinstance(q, int):
        import itertools
        mats = []
        for perm in itertools.permutations(range(3)):
            for signs in itertools.product([1, -1], repeat=3):
                m = np.zeros((3, 3))
                for r, (c, s) in enumerate(zip(perm, signs)):
                    m[r, c] = s
                if np.linalg.det(m) > 0:
                    mats.append(m)
        return mats[q % 24]
    w, x, y, z = np.array(q, float)/np.linalg.norm(q)
    return np.array([[1 - 2*(y*y + z*z), 2*(x*y - z*w), 2*(x*z + y*w)], [2*(x*y + z*w), 1 - 2*(x*x + z*z), 2*(y*z - x*w)],
                     [2*(x*z - y*w), 2*(y*z + x*w), 1 - 2*(x*x + y*y)]])


quarter = st.integers(0, 23)


def label_set(spec):
    """Why a case is non-trivial."""
    out = set()
    if len(spec['members']) > 1:
        out.add('several members')
    if any(m.get('aux') for m in spec['members']):
        out.add('auxiliary node')
    if any(any(m.get('rel') or []) for m in spec['members']):
        out.add('end releases')
    if any(m.get('sec') for m in spec['members']):
        out.add('section')
    for key, name in (('springs', 'springs'), ('sprsup', 'spring supports'), ('disp', 'enforced displacements'), ('nl', 'nodal loads'),
                      ('pl', 'member point loads'), ('dl', 'member distributed loads'), ('sw', 'self weight'), ('pp', 'pressure'),
                      ('plates', 'plates'), ('quads', 'quads')):
        if spec.get(key):
            out.add(name)
    if len(spec['combos']) > 1:
        out.add('several combinations')
    for m in spec['members']:
        a, b = spec['nodes'][m['i']], spec['nodes'][m['j']]
        if abs(a[0] - b[0]) < 1e-9 and abs(a[2] - b[2]) < 1e-9:
            out.add('vertical member')
        elif abs(a[1] - b[1]) > 1e-9:
            out.add('inclined member')
    return out


# ---------------------------------------------------------------------------- plates and quads
quat = st.lists(st.integers(-3, 3), min_size=4, max_size=4).filter(lambda q: sum(c*c for c in q) > 0).map(lambda q: [float(c) for c in q])
placement = st.one_of(quarter, quat)


def place(p, R, o):
    return [float(c) for c in R @ np.array(p, float) + np.array(o, float)]


@st.composite
def shells(draw, kinds=('quad', 'plate', 'mixed'), max_n=3, distort=True, members=True, mods=True, turned=True, n_loads=(1, 4),
           n_combos=(0, 2), pressures=True, springs=True, placed=True, disp=True):
    """A flat shell of plates and/or quads anywhere in space, possibly with edge beams and columns."""
    spec = specs.empty()
    kind = draw(st.sampled_from(list(kinds)))
    spec['mats'] = [[3.0e7, 1.25e7, 0.2, 24.0], [2.0e8, 7.7e7, 0.3, 77.0]]
    nx, ny = draw(st.integers(1, max_n)), draw(st.integers(1, max_n))
    xs = np.concatenate([[0], np.cumsum([draw(st.integers(3, 8))/4 for _ in range(nx)])])
    ys = np.concatenate([[0], np.cumsum([draw(st.integers(3, 8))/4 for _ in range(ny)])])
    R = rot_matrix(draw(placement)) if placed else np.eye(3)
    o = draw(st.sampled_from([[0.0, 0.0, 0.0], [3.5, -2.25, 10.0], [-30.0, 25.5, 7.75]])) if placed else [0.0, 0.0, 0.0]
    bend = distort and kind == 'quad' and draw(st.booleans())
    flat = []
    for b in range(ny + 1):
        for a in range(nx + 1):
            p = [xs[a], ys[b], 0.0]
            if bend:
                p[0] += draw(st.integers(-4, 4))/32
                p[1] += draw(st.integers(-4, 4))/32
            flat.append(p)
    spec['nodes'] = [place(p, R, o) for p in flat]
    t = draw(st.sampled_from([0.1, 0.2, 0.35]))
    two_t = draw(st.booleans())
    kx = draw(st.sampled_from([1.0, 1.0, 0.35, 0.7])) if mods else 1.0
    ky = draw(st.sampled_from([1.0, 0.35, 0.7])) if mods and kx != 1.0 else 1.0
    for b in range(ny):
        for a in range(nx):
            c = [b*(nx + 1) + a, b*(nx + 1) + a + 1, (b + 1)*(nx + 1) + a + 1, (b + 1)*(nx + 1) + a]
            if turned:
                r = draw(st.integers(0, 3))
                c = c[r:] + c[:r]
                if draw(st.integers(0, 3)) == 0:
                    c = [c[0], c[3], c[2], c[1]]
            e = {'n': c, 't': t*(1.5 if two_t and (a + b) % 2 else 1.0), 'mat': 0, 'kx': kx, 'ky': ky}
            which = kind if kind != 'mixed' else draw(st.sampled_from(['plate', 'quad']))
            spec['plates' if which == 'plate' else 'quads'].append(e)
    n0 = len(spec['nodes'])
    corners = [0, nx, n0 - 1, n0 - 1 - nx]
    style = draw(st.integers(0, 3))
    if style == 0:      # fixed along one edge
        for a in range(nx + 1):
            spec['sup'].append([a, [1]*6])
    elif style == 1:    # corners pinned
        for c in corners[:draw(st.integers(3, 4))]:
            spec['sup'].append([c, [1, 1, 1, 0, 0, 0]])
    elif style == 2:    # one fixed corner and some vertical supports
        spec['sup'].append([0, [1]*6])
        for q, c in enumerate(corners[1:]):
            if q == 0:          # (nothing else would resist turning within the plane)
                spec['sup'].append([c, [1, 1, 1] + draw(st.sampled_from([[0, 0, 0], [1, 0, 0], [0, 1, 1]]))])
            elif draw(st.booleans()):
                spec['sup'].append([c, list(draw(st.sampled_from(SUPPORTS)))])
    else:               # columns
        if members:
            for c in corners:
                spec['nodes'].append(place([flat[c][0], flat[c][1], -3.0], R, o))
                spec['members'].append({'i': len(spec['nodes']) - 1, 'j': c, 'mat': 1, **draw(section())})
                spec['sup'].append([len(spec['nodes']) - 1, [1, 1, 1, 1, 1, 1] if draw(st.booleans()) else [1, 1, 1, 0, 0, 1]])
            if not any(all(s[1]) for s in spec['sup']):
                spec['sup'][0][1] = [1]*6
        else:
            for c in corners:
                spec['sup'].append([c, [1]*6])
    if members:
        for a in range(nx):
            if draw(st.integers(0, 2)) == 0:
                spec['members'].append({'i': a, 'j': a + 1, 'mat': 1, **draw(section())})
    if springs and draw(st.booleans()):
        k, d = draw(st.integers(0, n0 - 1)), draw(st.integers(0, 5))
        if not any(s[0] == k and s[1][d] for s in spec['sup']):
            spec['sprsup'].append([k, d, draw(st.sampled_from([80.0, 1500.0, 4e4])), None])
    if disp and draw(st.integers(0, 2)) == 0:
        draw(settlements(spec, 1))
    lo, hi = n_loads
    for _ in range(draw(st.integers(lo, hi))):
        c = draw(case_no)
        k = draw(st.integers(0, 3))
        if k <= 1 and pressures:
            which = [w for w in ('plate', 'quad') if spec[w + 's']]
            w = draw(st.sampled_from(which))
            spec['pp'].append([w, draw(st.integers(0, len(spec[w + 's']) - 1)), draw(mag)/4, c])
        elif k == 2 and spec['members']:
            draw(loads(spec, 1, 1, kinds=('pl', 'dl')))
        else:
            spec['nl'].append([draw(st.integers(0, n0 - 1)), draw(st.integers(0, 5)), draw(mag), c])
    if draw(st.booleans()):
        draw(combinations(spec, *n_combos))
    return spec

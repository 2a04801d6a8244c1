"""C08: maxima, minima and result arrays agree with the pointwise results."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, require
from ..oracle import close
from ..refmodel import Ref
from .c07 import critical, second_case

RULE = 'a member (or mesh) has non-zero results; labels name the result kinds whose extreme lies inside the member'
ASSUMPTIONS = ['between load positions every pointwise first-order result is a polynomial of degree at most five, so its extremes follow '
               'exactly from six pointwise values', 'deflection extremes are documented to be sampled at 100 points, so they may fall short '
               'of the true extreme by the sampling error (largest second derivative times the squared spacing over eight)',
               'mesh extremes are over the corners and centre of the elements, as documented',
               'second order: only arrays are compared, and extremes are only required to be attained between the true bounds']

FORCES = ('axial', 'Fy', 'Fz', 'torque', 'My', 'Mz')


def pieces(spec, mi, ref):
    """Intervals of the member free of load discontinuities, by position along the whole member."""
    out = []
    for p in ref.of_member[mi]:
        d = p.discontinuities()
        out += [(p.x0 + a, p.x0 + b) for a, b in zip(d, d[1:]) if b - a > 1e-9*p.L]
    return out


def range_of(mem, what, iv, combo):
    """(min, max, largest second derivative) of one pointwise result over an open interval, from six values inside it."""
    a, b = iv
    s = np.cos(np.pi*(2*np.arange(6) + 1)/12)          # Chebyshev nodes keep clear of the ends
    v = np.array([specs.at(mem, what, (a + b)/2 + q*(b - a)/2, combo) for q in s])
    c = np.polynomial.chebyshev.chebfit(s, v, 5)
    big = np.abs(v).max()
    c[np.abs(c) < 1e-11*big] = 0.0
    d = np.polynomial.chebyshev.chebder(c)
    cand = [-1.0, 1.0]
    if np.any(d):
        r = np.polynomial.chebyshev.chebroots(np.trim_zeros(d, 'b')) if len(np.trim_zeros(d, 'b')) > 1 else []
        cand += [float(z.real) for z in np.atleast_1d(r) if abs(z.imag) < 1e-6 and -1 < z.real < 1]
    w = np.polynomial.chebyshev.chebval(np.array(cand), c)
    dd = np.polynomial.chebyshev.chebder(c, 2)
    curv = np.abs(np.polynomial.chebyshev.chebval(np.linspace(-1, 1, 9), dd)).max()*4/(b - a)**2 if len(dd) else 0.0
    inner = len(cand) > 2
    return w.min(), w.max(), curv, inner and (w[2:].max() >= w.max() or w[2:].min() <= w.min())


def check_arrays(mem, spec, mi, ref, combo, n, xs, tols, kinds=specs.MEMBER_RESULTS + ('rdy', 'rdz')):
    tols = np.append(tols, [tols[-1]]*2)
    L = specs.length(spec, spec['members'][mi])
    brk = np.array([q for iv in pieces(spec, mi, ref) for q in iv])
    for custom in (None, np.array(sorted(xs))*L):
        grid = np.linspace(0, L, n) if custom is None else custom
        for w, tol in zip(kinds, tols):
            got = np.asarray(specs.array(mem, w, n, combo, custom), float)
            require(got.shape == (2, len(grid)), f'array of {w} of member {mi} has shape {got.shape} for {len(grid)} points')
            close(got[0], grid, 1e-9*L, f'positions of the {w} array of member {mi}')
            for x, v in zip(grid, got[1]):
                want = [specs.at(mem, w, min(x, L), combo)]
                if np.abs(brk - x).min() < 1e-6*L:      # a jump may be reported from either side
                    want += [specs.at(mem, w, max(x - 2e-6*L, 0.0), combo), specs.at(mem, w, min(x + 2e-6*L, L), combo)]
                    ok = any(abs(v - q) <= tol*20 + 1e-5*tol*1e6 for q in want)
                else:
                    ok = abs(v - want[0]) <= tol
                require(ok, f'{combo}: array value of {w} of member {mi} at {x:.6g} of {L:.6g} is {v!r}, the pointwise value {want}')


def tolerances(sol):
    u, r, f, mo, Lc = sol.scales()
    return np.array([f, f, f, mo, mo, mo, u, u, u])*1e-6 + np.array([1e-9]*6 + [1e-13]*3)


def check(arg):
    spec, n, xs, kind = arg
    m = specs.build(spec)
    specs.analyze(m, kind)
    ref = Ref(spec)
    labels = set()
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        combo = specs.NAMES.combo(ci)
        sol = ref.solve(factors)
        tols = tolerances(sol)
        for mi in range(len(spec['members'])):
            mem = m.members[specs.NAMES.member(mi)]
            ivs = pieces(spec, mi, ref)
            for w, tol in zip(specs.MEMBER_RESULTS, tols):
                if w == 'dx':
                    continue
                rs = [range_of(mem, w, iv, combo) for iv in ivs]
                lo, hi = min(r[0] for r in rs), max(r[1] for r in rs)
                if w in ('dy', 'dz'):
                    slack = 1.05*max(r[2] for r in rs)*(specs.length(spec, spec['members'][mi])/99)**2/8 + tol
                    # pieces between intermediate nodes are sampled on their own
                    v = specs.extreme(mem, 'max', w, combo)
                    require(hi - slack <= v <= hi + tol, f'{combo}: max {w} of member {mi} is {v!r}, the largest pointwise value {hi!r}')
                    v = specs.extreme(mem, 'min', w, combo)
                    require(lo - tol <= v <= lo + slack, f'{combo}: min {w} of member {mi} is {v!r}, the least pointwise value {lo!r}')
                else:
                    close(specs.extreme(mem, 'max', w, combo), hi, tol, f'{combo}: max {w} of member {mi} against the largest pointwise value')
                    close(specs.extreme(mem, 'min', w, combo), lo, tol, f'{combo}: min {w} of member {mi} against the least pointwise value')
                if any(r[3] for r in rs):
                    labels.add(w + ' extreme inside')
            check_arrays(mem, spec, mi, ref, combo, n, xs, tols)
        if sol.scales()[2] > 1e-6:
            labels.add('loaded')
    return labels


def check_second(arg):
    (spec, fracs), n = arg
    m = specs.build(spec)
    try:
        specs.analyze(m, 'pdelta')
    except Exception as e:
        if 'singular' in str(e).lower() or 'unstable' in str(e).lower():
            return ()
        raise
    ref = Ref(spec)
    labels = set()
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        combo = specs.NAMES.combo(ci)
        if critical(m, spec, combo):
            continue
        tols = tolerances(ref.solve(factors))
        for mi in range(len(spec['members'])):
            mem = m.members[specs.NAMES.member(mi)]
            L = specs.length(spec, spec['members'][mi])
            grid = np.concatenate([a + (b - a)*np.linspace(1e-7, 1 - 1e-7, 25) for a, b in pieces(spec, mi, ref)])
            for w, tol in zip(specs.MEMBER_RESULTS, tols):
                if w == 'dx':
                    continue
                v = np.array([specs.at(mem, w, min(x, L), combo) for x in grid])
                span = max(np.abs(v).max(), tol*1e6)
                # no value beyond the largest one found, and none of the end values missed
                slack = (0.25 if w in ('My', 'Mz') else 0.01)*span
                hi, lo = specs.extreme(mem, 'max', w, combo), specs.extreme(mem, 'min', w, combo)
                require(v.max() - slack <= hi <= v.max() + 0.01*span, f'{combo}: second-order max {w} of member {mi} is {hi!r}, pointwise {v.max()!r}')
                require(v.min() - 0.01*span <= lo <= v.min() + slack, f'{combo}: second-order min {w} of member {mi} is {lo!r}, pointwise {v.min()!r}')
                for x in (0.0, L):
                    q = specs.at(mem, w, x, combo)
                    require(lo - tol <= q <= hi + tol, f'{combo}: second-order {w} of member {mi} at {x} is {q!r}, outside its extremes {lo!r}, {hi!r}')
            check_arrays(mem, spec, mi, ref, combo, n, fracs, tols*10)
            labels.add('second order')
    return labels


# ---------------------------------------------------------------------------- meshes
@st.composite
def mesh_case(draw):
    loads = draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from(['pp', 'nl']), gen.mag, st.integers(0, 2)), min_size=1, max_size=5))
    return {'w': draw(st.integers(2, 5))/2, 'h': draw(st.integers(2, 5))/2, 'size': draw(st.sampled_from([0.5, 0.75])), 'el': draw(st.sampled_from(['Quad', 'Rect'])),
            'plane': draw(st.sampled_from(['XY', 'YZ', 'XZ'])), 'loads': [list(q) for q in loads],
            'combos': [[{str(c): draw(gen.factor) for c in draw(st.lists(st.integers(0, 2), min_size=1, max_size=2, unique=True))}, None]
                       for _ in range(draw(st.integers(1, 3)))], 'fixed': draw(st.booleans())}


def check_mesh(s):
    from PyNite import FEModel3D
    m = FEModel3D()
    m.add_material('Mat1', 3e7, 1.25e7, 0.2, 24.0)
    m.add_rectangle_mesh('MSH', s['size'], s['w'], s['h'], 0.2, 'Mat1', plane=s['plane'], element_type=s['el'])
    msh = m.meshes['MSH']
    msh.generate()
    a, b = {'XY': ('X', 'Y'), 'YZ': ('Z', 'Y'), 'XZ': ('X', 'Z')}[s['plane']]
    for n in m.nodes.values():
        if abs(getattr(n, a)) < 1e-9:
            m.def_support(n.name, True, True, True, s['fixed'], s['fixed'], s['fixed'])
        elif abs(getattr(n, b)) < 1e-9:
            m.def_support(n.name, **{'support_D' + ({'X', 'Y', 'Z'} - {a, b}).pop(): True})
    els, nds = list(msh.elements), list(m.nodes)
    for k, kind, p, c in s['loads']:
        if kind == 'nl':
            m.add_node_load(nds[k % len(nds)], 'F' + 'XYZ'[k % 3], p, f'Case {c}')
        elif s['el'] == 'Quad':
            m.add_quad_surface_pressure(els[k % len(els)], p, f'Case {c}')
        else:
            m.add_plate_surface_pressure(els[k % len(els)], p, f'Case {c}')
    names = [['C0', 'C1', 'C2'], ['D', 'D+L', '1.2D+L'], ['', 'max', 'None']][len(els) % 3]
    for i, (f, _) in enumerate(s['combos']):
        m.add_load_combo(names[i], {f'Case {c}': v for c, v in f.items()})
    specs.analyze(m, 'linear')
    used = 0.0
    allv = {}
    for combo in m.load_combos:
        for fn, dirs in (('shear', ('Qx', 'Qy')), ('moment', ('Mx', 'My', 'Mxy'))):
            for k, d in enumerate(dirs):
                v = []
                for e in msh.elements.values():
                    pts = [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, 0)] if s['el'] == 'Quad' else \
                        [(q*e.width(), r*e.height()) for q, r in ((0, 0), (1, 0), (1, 1), (0, 1), (.5, .5))]
                    v += [specs.vec(getattr(e, fn)(x, y, True, combo))[k] for x, y in pts]
                allv.setdefault((fn, d), []).extend(v)
                tol = 1e-9*max(1e-6, np.abs(v).max())
                close(specs.num(getattr(msh, 'max_' + fn)(d, combo)), max(v), tol, f'{combo}: largest {d} of the mesh')
                close(specs.num(getattr(msh, 'min_' + fn)(d, combo)), min(v), tol, f'{combo}: least {d} of the mesh')
                used = max(used, np.abs(v).max())
    for (fn, d), v in allv.items():
        tol = 1e-9*max(1e-6, np.abs(v).max())
        close(specs.num(getattr(msh, 'max_' + fn)(d)), max(v), tol, f'largest {d} of the mesh over all combinations')
        close(specs.num(getattr(msh, 'min_' + fn)(d)), min(v), tol, f'least {d} of the mesh over all combinations')
    return {'mesh ' + s['el'], f'{len(s["combos"])} combinations'} if used > 1e-6 else ()


CASES = [
    Case('frame', st.tuples(gen.frames(max_members=3, extra=1), st.integers(2, 12), st.lists(gen.frac, min_size=1, max_size=6, unique=True),
                            st.sampled_from(['linear', 'general'])), check, quick=480, thorough=12000),
    Case('single', st.tuples(gen.frames(min_members=1, max_members=1, extra=0, n_loads=(1, 4), kinds=('pl', 'dl', 'sw')), st.integers(2, 12),
                             st.lists(gen.frac, min_size=1, max_size=6, unique=True), st.sampled_from(['linear', 'general'])), check, quick=800, thorough=16000),
    Case('second', st.tuples(second_case(), st.integers(2, 10)), check_second, quick=160, thorough=3000),
    Case('mesh', mesh_case(), check_mesh, quick=64, thorough=1000),
]

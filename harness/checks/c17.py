"""C17: surface pressure, and slabs, walls and cylinders converging to plate, beam and shell theory."""
from functools import lru_cache
from math import hypot, pi

import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, require
from ..oracle import close
from .c16 import frame_of

RULE = 'the pressure (or edge load) is not zero in the combination looked at'
ASSUMPTIONS = ['thin slabs (span to thickness 60 to 200) with straight edges, each simply supported, clamped or free, under uniform pressure; references are Ritz solutions of the '
               'Kirchhoff plate with 9 polynomials each way', 'tolerances at the finer mesh: deflections 4 % of the largest, moments at interior element centres 7 % of the largest; refining must not make deflections worse',
               'moments are compared in the sign convention the existing tests fix for each kind of element (see C16)',
               'stress resultants across a cut: moments and (for plates) shears at the element centres, summed with their widths']


# ---------------------------------------------------------------------------- resultants
@st.composite
def fixed_panel(draw):
    """One plate or quad anywhere, held at all its nodes, with pressures in several cases."""
    kind = draw(st.sampled_from(['plate', 'quad']))
    b, h = draw(st.integers(2, 16))/4, draw(st.integers(2, 16))/4
    P = [[0.0, 0.0], [b, 0.0], [b, h], [0.0, h]]
    if kind == 'quad':
        d = [draw(st.integers(-5, 5))/20*min(b, h) for _ in range(8)]
        P = [[p[0] + d[2*k], p[1] + d[2*k + 1]] for k, p in enumerate(P)]
    R = gen.rot_matrix(draw(gen.placement))
    o = draw(st.sampled_from([[0.0, 0.0, 0.0], [3.5, -2.25, 10.0], [-30.0, 25.5, 7.75]]))
    spec = specs.empty()
    spec['nodes'] = [gen.place([p[0], p[1], 0.0], R, o) for p in P]
    spec['mats'] = [[3.0e7, 1.25e7, 0.2, 24.0]]
    r, flip = draw(st.integers(0, 3)), draw(st.booleans())
    c = [0, 1, 2, 3][r:] + [0, 1, 2, 3][:r]
    if flip:
        c = [c[0], c[3], c[2], c[1]]
    spec[kind + 's'] = [{'n': c, 't': draw(st.sampled_from([0.05, 0.2, 0.6])), 'mat': 0, 'kx': draw(st.sampled_from([1.0, 0.35])), 'ky': draw(st.sampled_from([1.0, 0.7]))}]
    spec['sup'] = [[k, [1]*6] for k in range(4)]
    for _ in range(draw(st.integers(1, 4))):
        spec['pp'].append([kind, 0, draw(st.integers(-40, 40))/8, draw(st.integers(0, 2))])
    spec['combos'] = [[{str(k): draw(gen.factor) for k in draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True))}, None] for _ in range(draw(st.integers(1, 3)))]
    return [spec, draw(st.sampled_from(['linear', 'general', 'pdelta']))]


def convex4(X, z):
    side = [X[(k + 1) % 4] - X[k] for k in range(4)]
    cr = [np.cross(side[k], side[(k + 1) % 4]) @ z for k in range(4)]
    return min(cr) > 0.1*max(cr) > 0


def moments_of_area(X):
    """Area vector and first moment of area of a plane quadrilateral, by its two triangles."""
    a, s = 0.0, np.zeros(3)
    for t in ((0, 1, 2), (0, 2, 3)):
        v = np.cross(X[t[1]] - X[t[0]], X[t[2]] - X[t[0]])/2
        a = a + v
        s = s + np.linalg.norm(v)*(X[t[0]] + X[t[1]] + X[t[2]])/3
    return a, s


def check_resultant(arg):
    spec, kind = arg
    which = spec['pp'][0][0]
    c = spec[which + 's'][0]['n']
    X = np.array(spec['nodes'])[c]
    T = frame_of(X)
    if not convex4(X, T[2]):
        return ()
    A, S = moments_of_area(X)
    area = np.linalg.norm(A)
    close(A/area, T[2], 1e-9, 'harness: area normal')
    m = specs.build(spec)
    specs.analyze(m, kind)
    el = getattr(m, which + 's')[getattr(specs.NAMES, which)(0)]
    hit = False
    for ci, (fac, _) in enumerate(specs.combos(spec)):
        combo = specs.NAMES.combo(ci)
        p = sum(fac.get(q[3], 0.0)*q[2] for q in spec['pp'])
        big = sum(abs(fac.get(q[3], 0.0)*q[2]) for q in spec['pp'])
        F = p*area*T[2]
        M = np.cross(S/area, F)
        R = specs.reac(m, combo)
        P = np.array(spec['nodes'])
        size = np.abs(P).max() + 1
        tol = 1e-8*big*area + 1e-9
        close(-R[:, :3].sum(axis=0), F, tol, f'{combo}: total force of a pressure {p} on a {which} of area {area}')
        close(-(np.cross(P, R[:, :3]) + R[:, 3:]).sum(axis=0), M, tol*size, f'{combo}: total moment (about the origin) of a pressure {p} on a {which}')
        f = specs.vec(el.F(combo))
        close(f.reshape(4, 6)[:, :3].sum(axis=0), -F, tol, f'{combo}: corner forces of the {which}')
        close(f, R[c].reshape(-1), tol*size, f'{combo}: corner forces of the {which} against the reactions')
        hit = hit or big > 0
    return {which, f'{len(spec["pp"])} pressures'} if hit else ()


# ---------------------------------------------------------------------------- slabs
EDGES = {'x': [('S', 'S'), ('C', 'C'), ('S', 'C'), ('C', 'F'), ('C', 'S')], 'y': [('S', 'S'), ('C', 'C'), ('F', 'F'), ('S', 'C'), ('C', 'F'), ('F', 'S')]}
POW = {'F': 0, 'S': 1, 'C': 2}


@lru_cache(maxsize=None)
def basis(e0, e1, n=9):
    """Values, first and second derivatives of the Ritz functions on [0, 1], as callables of an array."""
    P = np.polynomial
    base = P.Polynomial([0, 1])**POW[e0]*P.Polynomial([1, -1])**POW[e1]
    out = []
    for k in range(n):
        leg = P.Legendre.basis(k, domain=[0, 1]).convert(kind=P.Polynomial)
        out.append(base*leg)
    return out


def ritz(a, b, D, nu, p, ex, ey):
    X, Y = basis(*ex), basis(*ey)
    g, w = np.polynomial.legendre.leggauss(24)
    g, w = (g + 1)/2, w/2
    ev = lambda B, L: [np.array([q.deriv(k)(g) if k else q(g) for q in B])/L**k for k in range(3)]
    fx, fy = ev(X, a), ev(Y, b)
    I = lambda f, k, l, L: L*(f[k]*w) @ f[l].T
    K = np.kron(I(fx, 2, 2, a), I(fy, 0, 0, b)) + np.kron(I(fx, 0, 0, a), I(fy, 2, 2, b)) \
        + nu*(np.kron(I(fx, 2, 0, a), I(fy, 0, 2, b)) + np.kron(I(fx, 0, 2, a), I(fy, 2, 0, b))) + 2*(1 - nu)*np.kron(I(fx, 1, 1, a), I(fy, 1, 1, b))
    F = np.kron(a*(fx[0] @ w), b*(fy[0] @ w))*p
    s = 1/np.sqrt(np.diag(K))
    c = (s*np.linalg.solve(K*np.outer(s, s), F*s)).reshape(len(X), len(Y))/D

    def at(x, y, i, j):
        u = np.array([q.deriv(i)(x/a) if i else q(x/a) for q in X])/a**i
        v = np.array([q.deriv(j)(y/b) if j else q(y/b) for q in Y])/b**j
        return u @ c @ v
    return at


@st.composite
def slab(draw):
    a = draw(st.integers(12, 24))/4
    b = a*draw(st.sampled_from([0.7, 1.0, 1.0, 1.35, 1.6]))
    return {'a': a, 'b': b, 't': min(a, b)/draw(st.sampled_from([60, 100, 200])), 'mat': draw(st.sampled_from([[3.0e7, 1.25e7, 0.2, 24.0], [2.0e8, 7.7e7, 0.3, 77.0], [1e6, 5e5, 0.0, 1.0]])),
            'ex': list(draw(st.sampled_from(EDGES['x']))), 'ey': list(draw(st.sampled_from(EDGES['y']))), 'p': draw(st.sampled_from([1.0, -3.5, 12.0])),
            'kind': draw(st.sampled_from(['plate', 'quad', 'both'])), 'R': draw(gen.placement), 'o': draw(st.sampled_from([[0.0, 0.0, 0.0], [3.5, -2.25, 10.0]])),
            'n': draw(st.sampled_from([5, 6])), 'bend': draw(st.sampled_from([0.0, 0.0, 0.12])), 'turn': draw(st.integers(0, 3)), 'flip': draw(st.booleans()),
            'how': draw(st.sampled_from(['linear', 'general'])), 'split': draw(st.booleans())}


def mesh_slab(q, kind, n):
    """Spec of the slab with about n elements along its shorter side, and the flat coordinates of its nodes."""
    nx, ny = round(n*max(1, q['a']/q['b'])), round(n*max(1, q['b']/q['a']))
    R = gen.rot_matrix(q['R'])
    spec = specs.empty()
    spec['mats'] = [q['mat']]
    flat = []
    for j in range(ny + 1):
        for i in range(nx + 1):
            x, y = q['a']*i/nx, q['b']*j/ny
            if kind == 'quad' and q['bend'] and 0 < i < nx and 0 < j < ny:
                x += q['bend']*q['a']/nx*(1 if (i + j) % 2 else -1)
                y += q['bend']*q['b']/ny*(1 if (i + 2*j) % 3 else -1)
            flat.append([x, y])
    spec['nodes'] = [gen.place([p[0], p[1], 0.0], R, q['o']) for p in flat]
    for j in range(ny):
        for i in range(nx):
            k = j*(nx + 1) + i
            c = [k, k + 1, k + nx + 2, k + nx + 1]
            c = c[q['turn']:] + c[:q['turn']]
            if q['flip']:
                c = [c[0], c[3], c[2], c[1]]
            spec[kind + 's'].append({'n': c, 't': q['t'], 'mat': 0})
    return spec, flat, R, nx, ny


def solve_slab(q, kind, n):
    spec, flat, R, nx, ny = mesh_slab(q, kind, n)
    m = specs.build(spec)
    axes = [int(np.argmax(np.abs(R[:, k]))) for k in range(3)]
    for k, (x, y) in enumerate(flat):
        s = [0]*6
        # in its own plane the slab is held throughout, by supports at every node
        s[axes[0]] = s[axes[1]] = 1
        for edge, at, along in ((q['ex'][0], x < 1e-9, 1), (q['ex'][1], x > q['a'] - 1e-9, 1), (q['ey'][0], y < 1e-9, 0), (q['ey'][1], y > q['b'] - 1e-9, 0)):
            if at and edge != 'F':
                s[axes[2]] = 1
                # w is zero along the edge: no turning about the normal to the edge within the plane
                s[3 + axes[1 - along]] = 1
                if edge == 'C':
                    s[3 + axes[along]] = 1
        s[3 + axes[2]] = 1
        m.def_support(specs.NAMES.node(k), *[bool(v) for v in s])
    sgn = 1.0
    for i, e in enumerate(spec[kind + 's']):
        X = np.array([[*flat[k], 0.0] for k in e['n']])
        sgn = frame_of(X)[2, 2]
        f = m.add_plate_surface_pressure if kind == 'plate' else m.add_quad_surface_pressure
        name = getattr(specs.NAMES, kind)(i)
        if q['split']:
            f(name, 0.25*q['p']*sgn, 'Case 1')
            f(name, 0.75*q['p']*sgn, 'Case 1')
        else:
            f(name, q['p']*sgn, 'Case 1')
    specs.analyze(m, q['how'])
    return m, spec, flat, R, nx, ny


def right_angled(c):
    """A placement with all axes along global ones (supports act along global axes)."""
    R = gen.rot_matrix(c)
    return np.allclose(np.abs(R).max(axis=0), 1.0)


def check_slab(q):
    if not right_angled(q['R']):
        q = {**q, 'R': 0}
    E, nu, t = q['mat'][0], q['mat'][2], q['t']
    Db = E*t**3/(12*(1 - nu*nu))
    w = ritz(q['a'], q['b'], Db, nu, q['p'], q['ex'], q['ey'])
    G = np.linspace(0, 1, 9)
    wmax = max(abs(w(x*q['a'], y*q['b'], 0, 0)) for x in G for y in G)
    K = np.array([[[w(x*q['a'], y*q['b'], 2, 0), w(x*q['a'], y*q['b'], 0, 2), w(x*q['a'], y*q['b'], 1, 1)] for x in G] for y in G])
    mscale = Db*np.abs(K[..., :2]).max()
    labels = set()
    for kind in (['plate', 'quad'] if q['kind'] == 'both' else [q['kind']]):
        err = []
        for n in (q['n'], 2*q['n']):
            m, spec, flat, R, nx, ny = solve_slab(q, kind, n)
            D = specs.disp(m, 'Combo 1', count=len(flat))[:, :3] @ R
            err.append(max(abs(D[k, 2] - w(x, y, 0, 0)) for k, (x, y) in enumerate(flat))/wmax)
            what = f'{kind}s, {nx} by {ny}, edges {q["ex"]} {q["ey"]}'
            require(err[-1] < (0.14 if n == q['n'] else 0.04), f'{what}: deflections are off plate theory by {err[-1]:.2%} of the largest')
        require(err[1] <= 0.6*err[0] + 0.004, f'{what}: refining the mesh took the error of the deflections from {err[0]:.2%} to {err[1]:.2%}')
        # moments at the centres of elements away from the edges
        for i, e in enumerate(spec[kind + 's']):
            X = np.array([[*flat[k], 0.0] for k in e['n']])
            x, y = X[:, 0].mean(), X[:, 1].mean()
            if not (0.2*q['a'] < x < 0.8*q['a'] and 0.2*q['b'] < y < 0.8*q['b']) or i % 3:
                continue
            T = frame_of(X)
            W = np.array([[w(x, y, 2, 0), w(x, y, 1, 1)], [w(x, y, 1, 1), w(x, y, 0, 2)]])
            A = T[:2, :2]
            k = A @ W @ A.T*T[2, 2]
            s = 1.0 if kind == 'plate' else -1.0
            want = s*Db*np.array([k[0, 0] + nu*k[1, 1], k[1, 1] + nu*k[0, 0], (1 - nu)*k[0, 1]])
            el = getattr(m, kind + 's')[getattr(specs.NAMES, kind)(i)]
            got = specs.vec(el.moment(0, 0, True, 'Combo 1') if kind == 'quad' else el.moment(el.width()/2, el.height()/2, True, 'Combo 1'))
            close(got, want, 0.07*mscale, f'{what}: moments [Mx, My, Mxy] at ({x:.3f}, {y:.3f})')
        cut(q, kind, m, spec, flat, R, nx, ny, mscale, lambda x, y: Db*(1 - nu)*w(x, y, 1, 1))
        labels |= {kind, ''.join(q['ex'] + q['ey'])}
    return labels


def cut(q, kind, m, spec, flat, R, nx, ny, mscale, twist):
    """Moments and shears across a line of element centres against the loads and reactions on one side of it."""
    if kind == 'quad' and q['bend']:
        return
    col = nx//3
    xc = q['a']*(col + 0.5)/nx
    Rn = specs.reac(m, 'Combo 1', count=len(flat))
    F, M = Rn[:, :3] @ R, Rn[:, 3:] @ R
    shear = q['p']*q['b']*xc
    mom = q['p']*q['b']*xc*xc/2                 # moment about the cut line (about +y) of what acts on x < xc
    for k, (x, y) in enumerate(flat):
        if x < xc:
            shear += F[k, 2]
            mom += -(x - xc)*F[k, 2] + M[k, 1]
    got_m = got_v = 0.0
    tot = 0.0
    for i, e in enumerate(spec[kind + 's']):
        if i % nx != col:
            continue
        X = np.array([[*flat[k], 0.0] for k in e['n']])
        T = frame_of(X)
        el = getattr(m, kind + 's')[getattr(specs.NAMES, kind)(i)]
        at = (0, 0) if kind == 'quad' else (el.width()/2, el.height()/2)
        mx = specs.vec(el.moment(*at, True, 'Combo 1'))
        v = specs.vec(el.shear(*at, True, 'Combo 1'))
        s = 1.0 if kind == 'plate' else -1.0
        # D·(second derivatives) along the slab's x: which of Mx, My belongs to it
        A = T[:2, :2]
        k = int(np.argmax(np.abs(A[:, 0])))
        got_m += s*mx[k]*T[2, 2]*q['b']/ny
        got_v += v[k]*A[k, 0]*T[2, 2]*q['b']/ny
        tot += abs(mx[k])*q['b']/ny
    load = abs(q['p'])*q['a']*q['b']
    close(got_m, mom, 0.05*(tot + mscale*q['b']*0.2), f'{kind}s {nx} by {ny}, edges {q["ex"]} {q["ey"]}: moment across the cut at x = {xc:.3f}')
    if kind == 'plate':
        # in plate theory a twisting moment at the ends of the cut carries shear along the edges
        got_v += twist(xc, q['b']) - twist(xc, 0.0)
        close(got_v, -shear, 0.06*load, f'{kind}s {nx} by {ny}, edges {q["ex"]} {q["ey"]}: shear across the cut at x = {xc:.3f}')


# ---------------------------------------------------------------------------- walls
@st.composite
def wall(draw):
    h = draw(st.integers(4, 12))/4
    return {'h': h, 'L': h*draw(st.sampled_from([2.0, 3.0, 4.0])), 't': draw(st.sampled_from([0.1, 0.25])), 'mat': draw(st.sampled_from([[3.0e7, 1.25e7, 0.2, 24.0], [2.0e8, 7.7e7, 0.3, 77.0]])),
            'kind': draw(st.sampled_from(['plate', 'quad'])), 'R': draw(gen.placement), 'o': draw(st.sampled_from([[0.0, 0.0, 0.0], [3.5, -2.25, 10.0]])), 'P': draw(st.sampled_from([1.0, -40.0])),
            'load': draw(st.sampled_from(['tip', 'moment', 'pull'])), 'turn': draw(st.integers(0, 3)), 'flip': draw(st.booleans()), 'bend': draw(st.sampled_from([0.0, 0.1]))}


def check_wall(q):
    """A wall built in at one end, loaded in its own plane at the other, as a deep beam."""
    E, nu, t, h, L, P = q['mat'][0], q['mat'][2], q['t'], q['h'], q['L'], q['P']
    A, I = t*h, t*h**3/12
    G = E/(2*(1 + nu))
    R = gen.rot_matrix(q['R'])
    err = []
    for n in (6, 12):
        nx, ny = round(n*L/h), n
        spec = specs.empty()
        spec['mats'] = [q['mat']]
        flat = []
        for j in range(ny + 1):
            for i in range(nx + 1):
                x, y = L*i/nx, h*j/ny
                if q['kind'] == 'quad' and 0 < i < nx and 0 < j < ny:
                    x += q['bend']*L/nx*(1 if (i + j) % 2 else -1)
                    y += q['bend']*h/ny*(1 if (i + 2*j) % 3 else -1)
                flat.append([x, y])
        spec['nodes'] = [gen.place([a, b, 0.0], R, q['o']) for a, b in flat]
        for j in range(ny):
            for i in range(nx):
                k = j*(nx + 1) + i
                c = [k, k + 1, k + nx + 2, k + nx + 1]
                c = c[q['turn']:] + c[:q['turn']]
                if q['flip']:
                    c = [c[0], c[3], c[2], c[1]]
                spec[q['kind'] + 's'].append({'n': c, 't': t, 'mat': 0})
        tip = []
        for j in range(ny + 1):
            k = j*(nx + 1)
            # built in at x = 0, where the depth stays free to change but at mid-height (end effects die out quickly)
            spec['sup'].append([k, [1]*6])
            w = (0.5 if j in (0, ny) else 1.0)/ny
            y = h*j/ny - h/2
            if q['load'] == 'tip':
                f = [0.0, P*w, 0.0]
            elif q['load'] == 'pull':
                f = [P*w, 0.0, 0.0]
            else:
                # linear traction, consistent with linear shape functions; its moment about mid-height is P·h
                lo = [(h*(j + a)/ny - h/2) for a in (-1, 0, 1)]
                s = 0.0
                for other, ok in ((lo[0], j > 0), (lo[2], j < ny)):
                    if ok:
                        s += (h/ny)*(2*y + other)/6
                f = [-P*h*t*s/I, 0.0, 0.0]
            g = R @ f
            for d in range(3):
                if abs(g[d]) > 1e-14*abs(P):
                    spec['nl'].append([k + nx, d, float(g[d]), 0])
            tip.append(k + nx)
        m = specs.build(spec)
        specs.analyze(m, 'general')
        D = specs.disp(m, 'Combo 1', count=len(flat))[:, :3] @ R
        got = D[tip].mean(axis=0)
        want = {'tip': [0.0, P*L**3/(3*E*I) + 1.2*P*L/(G*A), 0.0], 'pull': [P*L/(E*A), 0.0, 0.0], 'moment': [0.0, P*h*L*L/(2*E*I), 0.0]}[q['load']]
        size = max(map(abs, want))
        err.append(float(np.abs(got - want).max()/size))
        what = f'{q["kind"]} wall {L} x {h}, {nx} by {ny}, {q["load"]}'
        require(err[-1] < (0.08 if n == 6 else 0.035), f'{what}: displacement of the end {got} against beam theory {want}')
        # direct stress at the centres of the elements of a column in mid-span
        col = nx//2
        # bending moment counted with tension at the top for a positive value, as for a tip force along +y
        for j in range(ny):
            e = spec[q['kind'] + 's'][j*nx + col]
            X = np.array([[*flat[k], 0.0] for k in e['n']])
            x, y = X[:, 0].mean(), X[:, 1].mean() - h/2
            sx = {'tip': -P*(L - x)*y/I, 'pull': P/A, 'moment': -P*h*y/I}[q['load']]
            txy = {'tip': 1.5*P/A*(1 - (2*y/h)**2)}.get(q['load'], 0.0)
            T = frame_of(X)[:2, :2]
            S = T @ np.array([[sx, txy], [txy, 0.0]]) @ T.T
            top = abs({'tip': P*L*h/2/I, 'pull': P/A, 'moment': P*h*h/2/I}[q['load']])
            el = getattr(m, q['kind'] + 's')[getattr(specs.NAMES, q['kind'])(j*nx + col)]
            v = specs.vec(el.membrane(0, 0, True, 'Combo 1') if q['kind'] == 'quad' else el.membrane(el.width()/2, el.height()/2, True, 'Combo 1'))
            # frame_of may turn the plane over: the sign of Txy goes with both axes, so nothing changes
            close(v, [S[0, 0], S[1, 1], S[0, 1]], (0.10 if n == 6 else 0.05)*top, f'{what}: stresses [Sx, Sy, Txy] in element {j*nx + col}')
    require(err[1] <= 0.7*err[0] + 0.01, f'{what}: refining the mesh took the error from {err[0]:.2%} to {err[1]:.2%}')
    return {q['kind'], q['load']}


# ---------------------------------------------------------------------------- cylinders
@st.composite
def cylinder(draw):
    r = draw(st.sampled_from([4.0, 5.0, 8.0]))
    return {'r': r, 't': r/draw(st.sampled_from([10, 16, 20])), 'mat': draw(st.sampled_from([[3.0e7, 1.25e7, 0.2, 24.0], [2.0e8, 7.7e7, 0.3, 77.0]])), 'type': draw(st.sampled_from(['Quad', 'Rect'])),
            'axis': draw(st.sampled_from('XYZ')), 'o': draw(st.sampled_from([[0.0, 0.0, 0.0], [3.5, -2.25, 10.0]])), 'base': draw(st.sampled_from(['free', 'pinned', 'fixed'])),
            'p': draw(st.sampled_from([1.0, -20.0])), 'n': draw(st.sampled_from([36, 48]))}


def check_cylinder(q):
    """Uniform pressure on a long cylinder: hoop tension p·r, and the edge disturbance of a pinned or fixed base."""
    from PyNite import FEModel3D
    E, nu, t, r, p = q['mat'][0], q['mat'][2], q['t'], q['r'], q['p']
    Db = E*t**3/(12*(1 - nu*nu))
    b = (E*t/(4*r*r*Db))**0.25
    H = 8/b
    m = FEModel3D()
    m.add_material('Mat', *q['mat'])
    size = 0.3/b
    m.add_cylinder_mesh('C', size, r, H, t, 'Mat', origin=list(q['o']), axis=q['axis'], num_elements=q['n'], element_type=q['type'])
    mesh = m.meshes['C']
    if not mesh.is_generated():
        mesh.generate()
    ax = 'XYZ'.index(q['axis'])
    o = np.array(q['o'])
    pos = {k: np.array([v.X, v.Y, v.Z]) - o for k, v in mesh.nodes.items()}
    low, high = min(v[ax] for v in pos.values()), max(v[ax] for v in pos.values())
    base = [k for k, v in pos.items() if v[ax] < low + 1e-6*H]
    require(len(base) == q['n'], f'{len(base)} nodes at the base of a cylinder of {q["n"]} elements around')
    for k in base:
        s = [False]*6
        s[ax] = True
        if q['base'] != 'free':
            s[:3] = [True]*3
        if q['base'] == 'fixed':
            s = [True]*6
        v = pos[k]
        for d in range(3):
            if d != ax and abs(v[d]) < 1e-6*r and q['base'] == 'free':
                s[d] = True
        m.def_support(k, *s)
    for k, e in mesh.elements.items():
        c = [pos[v.name] for v in (e.i_node, e.j_node, e.m_node, e.n_node)]
        z = np.cross(c[1] - c[0], c[3] - c[0])
        out = sum(c)/4
        out[ax] = 0.0
        (m.add_quad_surface_pressure if q['type'] == 'Quad' else m.add_plate_surface_pressure)(k, p if z @ out > 0 else -p)
    specs.analyze(m, 'general')
    # a regular polygon of n sides: the hoop tension balances the pressure on its chords
    full = p*r*r/(E*t)*np.cos(pi/q['n'])
    damp = {'free': lambda x: 1.0, 'pinned': lambda x: 1 - np.exp(-b*x)*np.cos(b*x), 'fixed': lambda x: 1 - np.exp(-b*x)*(np.cos(b*x) + np.sin(b*x))}[q['base']]
    what = f'{q["type"]} cylinder about {q["axis"]}, {q["base"]} base'
    for k, v in pos.items():
        n = m.nodes[k]
        D = np.array([n.DX['Combo 1'], n.DY['Combo 1'], n.DZ['Combo 1']])
        rad = v.copy()
        rad[ax] = 0.0
        x = v[ax] - low
        close(D @ rad/r, full*damp(x), 0.06*abs(full), f'{what}: radial displacement of {k} at {x*b:.2f}/beta above the base')
        across = np.cross(rad/r, np.eye(3)[ax])
        close(D @ across, 0.0, 1e-6*abs(full) + 1e-15, f'{what}: displacement of {k} along the circumference')
    for k, e in mesh.elements.items():
        c = [pos[v.name] for v in (e.i_node, e.j_node, e.m_node, e.n_node)]
        X = np.array(c)
        x = X[:, ax].mean() - low
        T = frame_of(X)
        hoop = np.cross(np.eye(3)[ax], X.mean(axis=0))
        hoop /= np.linalg.norm(hoop)
        a = T[:2] @ hoop
        S = specs.vec(e.membrane(0, 0, True, 'Combo 1') if q['type'] == 'Quad' else e.membrane(e.width()/2, e.height()/2, True, 'Combo 1'))
        M2 = np.array([[S[0], S[2]], [S[2], S[1]]])
        close(a @ M2 @ a*t, p*r*damp(x), 0.08*abs(p*r), f'{what}: hoop tension in {k} at {x*b:.2f}/beta above the base')
        c2 = T[:2] @ np.eye(3)[ax]
        if H/4 < x < 3*H/4:
            close(c2 @ M2 @ c2*t, 0.0, 0.03*abs(p*r), f'{what}: tension along the axis in {k}')
    # what holds the base: shear per length p/(2·b) pinned, p/b fixed; moment p/(2·b²) fixed
    if q['base'] != 'free':
        per = 2*r*np.sin(pi/q['n'])
        V = p/b if q['base'] == 'fixed' else p/(2*b)
        for k in base:
            n = m.nodes[k]
            F = np.array([n.RxnFX['Combo 1'], n.RxnFY['Combo 1'], n.RxnFZ['Combo 1']])
            rad = pos[k].copy()
            rad[ax] = 0.0
            close(F @ rad/r/per, -V, 0.10*abs(V), f'{what}: radial reaction per length at {k}')
            if q['base'] == 'fixed':
                M = np.array([n.RxnMX['Combo 1'], n.RxnMY['Combo 1'], n.RxnMZ['Combo 1']])
                across = np.cross(rad/r, np.eye(3)[ax])
                close(abs(M @ across)/per, abs(p)/(2*b*b), 0.15*abs(p)/(2*b*b), f'{what}: moment per length at {k}')
    return {q['type'], q['base']}


CASES = [
    Case('resultant', fixed_panel(), check_resultant, quick=300, thorough=8000),
    Case('slab', slab(), check_slab, quick=40, thorough=700),
    Case('wall', wall(), check_wall, quick=16, thorough=300),
    Case('cylinder', cylinder(), check_cylinder, quick=10, thorough=200),
]

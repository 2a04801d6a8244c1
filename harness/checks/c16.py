"""C16: plates and quads reproduce constant states exactly (patch tests)."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import close

RULE = 'the patch has at least one free interior node and the imposed field is not a rigid-body motion'
ASSUMPTIONS = ['every boundary node follows the exact field in all six directions; interior nodes are free',
               'stiffness modifiers only with rectangular elements (different in the two directions only if all are listed the same way round), where the constant state is one of equilibrium',
               'moments and shears are compared in the sign convention the existing tests fix for each kind of element: with w along the element\'s local z, quads '
               'report M = -D·(w\'\' + ...), plates M = +D·(w\'\' + ...); both report Q = -D·(Δw)\'',
               'quads: shears only in thin plates bent to a cylinder along their sides, at the centre of the element (a quad\'s shear follows from its sides alone)']
SMALL = st.integers(-8, 8).map(lambda v: v/4)


@st.composite
def patch(draw, kinds, rect):
    nx, ny = draw(st.integers(2, 4)), draw(st.integers(2, 3))
    kind = draw(st.sampled_from(list(kinds)))
    if kind != 'quad':
        rect = True
    xs = np.concatenate([[0], np.cumsum([draw(st.integers(3, 9))/4 for _ in range(nx)])])
    ys = np.concatenate([[0], np.cumsum([draw(st.integers(3, 9))/4 for _ in range(ny)])])
    pts = [[float(xs[a]), float(ys[b])] for b in range(ny + 1) for a in range(nx + 1)]
    if not rect:
        d = [draw(st.integers(-7, 7))/100 for _ in range(2*len(pts))]
        skew = draw(st.sampled_from([0.0, 0.0, 0.4, -0.6]))
        taper = draw(st.sampled_from([0.0, 0.0, 0.06, -0.05]))
        hx, hy = min(np.diff(xs)), min(np.diff(ys))
        pts = [[(p[0] + 3*hx*d[2*k])*(1 + taper*p[1]) + skew*p[1], p[1] + 3*hy*d[2*k + 1]] for k, p in enumerate(pts)]
    same = draw(st.booleans())
    turn0, flip0 = draw(st.integers(0, 3)), draw(st.booleans())
    els = []
    for b in range(ny):
        for a in range(nx):
            c = [b*(nx + 1) + a, b*(nx + 1) + a + 1, (b + 1)*(nx + 1) + a + 1, (b + 1)*(nx + 1) + a]
            r = turn0 if same else draw(st.integers(0, 3))
            c = c[r:] + c[:r]
            if flip0 if same else draw(st.integers(0, 3)) == 0:
                c = [c[0], c[3], c[2], c[1]]
            els.append([kind if kind != 'mixed' else draw(st.sampled_from(['plate', 'quad'])), c])
    kx = draw(st.sampled_from([1.0, 0.35, 0.7])) if rect else 1.0
    ky = draw(st.sampled_from([1.0, 0.35, 0.7])) if same and rect else kx
    return {'pts': pts, 'els': els, 't': draw(st.sampled_from([0.05, 0.2, 0.4])), 'mat': draw(st.sampled_from([[3.0e7, 1.25e7, 0.2, 24.0], [2.0e8, 7.7e7, 0.3, 77.0], [1e6, 4e5, 0.0, 1.0], [5e4, 1.7e4, 0.45, 1.0]])),
            'kx': kx, 'ky': ky, 'R': draw(gen.placement), 'o': draw(st.sampled_from([[0.0, 0.0, 0.0], [3.5, -2.25, 10.0], [-30.0, 25.5, 7.75]])),
            'nx': nx, 'ny': ny, 'shuffle': draw(st.integers(0, 5)), 'sparse': draw(st.booleans()), 'kind': draw(st.sampled_from(['general', 'linear', 'pdelta']))}


def convex(q):
    P = np.array(q['pts'])
    for _, c in q['els']:
        X = P[c]
        side = [X[(i + 1) % 4] - X[i] for i in range(4)]
        cr = [side[i][0]*side[(i + 1) % 4][1] - side[i][1]*side[(i + 1) % 4][0] for i in range(4)]
        if min(cr)*max(cr) <= 0 or min(map(abs, cr)) < 0.15*max(map(abs, cr)):
            return False
    return True


def frame_of(X):
    """Local axes of an element from its corners: x from i to j, z across, following i, j, m, n."""
    x = X[1] - X[0]
    x = x/np.linalg.norm(x)
    z = np.cross(x, X[3] - X[0])
    z = z/np.linalg.norm(z)
    return np.array([x, np.cross(z, x), z])


def run(q, disp3, rot3):
    """Builds the patch with boundary values disp3(x, y), rot3(x, y) in the patch's own axes; returns model, spec, axes."""
    R = gen.rot_matrix(q['R'])
    spec = specs.empty()
    spec['mats'] = [q['mat']]
    spec['nodes'] = [gen.place([p[0], p[1], 0.0], R, q['o']) for p in q['pts']]
    for kind, c in q['els']:
        spec[kind + 's'].append({'n': c, 't': q['t'], 'mat': 0, 'kx': q['kx'], 'ky': q['ky']})
    nx, ny = q['nx'], q['ny']
    inner = []
    for b in range(ny + 1):
        for a in range(nx + 1):
            k = b*(nx + 1) + a
            if 0 < a < nx and 0 < b < ny:
                inner.append(k)
                continue
            u, r = R @ disp3(*q['pts'][k]), R @ rot3(*q['pts'][k])
            spec['sup'].append([k, [1]*6])
            for d in range(3):
                spec['disp'] += [[k, d, float(u[d])], [k, 3 + d, float(r[d])]]
    order = None
    if q['shuffle']:
        rng = np.random.default_rng(q['shuffle'])
        order = {k: [int(i) for i in rng.permutation(len(spec[k]))] for k in ('nodes', 'plates', 'quads')}
    m = specs.build(spec, order=order)
    specs.analyze(m, q['kind'], sparse=q['sparse'])
    want = np.array([np.concatenate([R @ disp3(*p), R @ rot3(*p)]) for p in q['pts']])
    return m, spec, R, want, inner


PTS = [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0), (0.5, 0.5), (0.2, 0.7), (0.85, 0.35)]


def elements(m, spec, R, q):
    """(kind, index, element, local axes expressed in patch axes (rows), corners in patch coordinates)."""
    at = {'plate': 0, 'quad': 0}
    for kind, c in q['els']:
        i = at[kind]
        at[kind] += 1
        X = np.array([[*q['pts'][k], 0.0] for k in c])
        yield kind, i, getattr(m, kind + 's')[getattr(specs.NAMES, kind)(i)], frame_of(X), X


def value(el, kind, what, a, b):
    x, y = (2*a - 1, 2*b - 1) if kind == 'quad' else (a*el.width(), b*el.height())
    return specs.vec(getattr(el, what)(x, y, True, 'Combo 1'))


def check_membrane(arg):
    q, e, rig = arg
    if not convex(q):
        return ()
    e = np.array(e)/1000
    F = np.array([[e[0], e[2]/2], [e[2]/2, e[1]]])
    w = rig[2]/1000

    def disp3(x, y):
        u = F @ [x, y] + [rig[0]/1000 - w*y, rig[1]/1000 + w*x]
        return np.array([u[0], u[1], 0.0])
    m, spec, R, want, inner = run(q, disp3, lambda x, y: np.zeros(3))
    D = specs.disp(m, 'Combo 1', count=len(spec['nodes']))
    su = np.abs(want).max() + 1e-9
    close(D, want, 1e-7*su, 'displacements of the patch under constant membrane strain [node, dof]')
    E, nu = q['mat'][0], q['mat'][2]
    scale = E*(np.abs(e).max() + 1e-6*abs(w) + 1e-9*np.abs(rig).max())
    for kind, i, el, T, X in elements(m, spec, R, q):
        A = T[:2, :2]
        El = A @ F @ A.T
        Ex, Ey = E*q['kx'], E*q['ky']
        nxy, nyx = nu*(Ex/Ey)**0.5, nu*(Ey/Ex)**0.5
        S = np.array([(Ex*El[0, 0] + nyx*Ex*El[1, 1])/(1 - nu*nu), (nxy*Ey*El[0, 0] + Ey*El[1, 1])/(1 - nu*nu), E/(2*(1 + nu))*2*El[0, 1]])
        for a, b in PTS:
            close(value(el, kind, 'membrane', a, b), S, 1e-6*scale, f'{kind} {i}: membrane stresses at ({a}, {b}) under constant strain')
            close(value(el, kind, 'moment', a, b), np.zeros(3), 1e-9*scale*q['t'], f'{kind} {i}: moments at ({a}, {b}) under membrane strain')
    return {'membrane ' + '/'.join(sorted({k for k, _ in q['els']})), 'interior moves'} if np.abs(e).max() > 0 else ()


def check_bending(arg):
    q, k, rig = arg
    if not convex(q):
        return ()
    k = np.array(k)/1000
    W = np.array([[k[0], k[2]], [k[2], k[1]]])
    r = np.array(rig)/1000

    def disp3(x, y):
        p = np.array([x, y])
        return np.array([0.0, 0.0, p @ W @ p/2 + r[0] + r[1]*x + r[2]*y])

    def rot3(x, y):
        g = W @ [x, y] + [r[1], r[2]]
        return np.array([g[1], -g[0], 0.0])
    m, spec, R, want, inner = run(q, disp3, rot3)
    D = specs.disp(m, 'Combo 1', count=len(spec['nodes']))
    close(D, want, 1e-6*(np.abs(want).max() + 1e-9), 'displacements of the patch under constant curvature [node, dof]')
    E, nu, t = q['mat'][0], q['mat'][2], q['t']
    Db = E*t**3/(12*(1 - nu*nu))
    scale = Db*(np.abs(k).max() + 1e-7*np.abs(r).max())
    L = 1.0
    for kind, i, el, T, X in elements(m, spec, R, q):
        A = T[:2, :2]
        K = A @ W @ A.T*T[2, 2]              # second derivatives of the displacement along local z
        s = 1.0 if kind == 'plate' else -1.0
        M = s*Db*np.array([K[0, 0] + nu*K[1, 1], K[1, 1] + nu*K[0, 0], (1 - nu)*K[0, 1]])
        for a, b in PTS:
            close(value(el, kind, 'moment', a, b), M, 1e-5*scale, f'{kind} {i}: moments at ({a}, {b}) under constant curvature')
            close(value(el, kind, 'shear', a, b), np.zeros(2), 1e-4*scale/L, f'{kind} {i}: shears at ({a}, {b}) under constant curvature')
            close(value(el, kind, 'membrane', a, b), np.zeros(3), 1e-10*E*np.abs(want).max(), f'{kind} {i}: membrane stresses at ({a}, {b}) under bending')
    return {'bending ' + q['els'][0][0]} if np.abs(k).max() > 0 else ()


def check_cubic(arg):
    """Linearly varying moments and constant shears: exact for plates."""
    q, c = arg
    if q['els'][0][0] == 'quad':
        # the quad's shear follows the bending of its four sides: it has none for x²y or xy², and thick plates deform in shear too
        c, q = [c[0], 0.0, 0.0, c[3]], {**q, 't': 0.05}
    c = np.array(c)/1000            # w = c0 x³ + c1 x²y + c2 xy² + c3 y³

    def disp3(x, y):
        return np.array([0.0, 0.0, c @ [x**3, x*x*y, x*y*y, y**3]])

    def rot3(x, y):
        return np.array([c @ [0, x*x, 2*x*y, 3*y*y], -(c @ [3*x*x, 2*x*y, y*y, 0]), 0.0])
    m, spec, R, want, inner = run(q, disp3, rot3)
    D = specs.disp(m, 'Combo 1', count=len(spec['nodes']))
    plate = q['els'][0][0] == 'plate'
    tol = 1e-6 if plate else 0.05
    close(D, want, tol*(np.abs(want).max() + 1e-9), 'displacements of the patch under linearly varying moments [node, dof]')
    E, nu, t = q['mat'][0], q['mat'][2], q['t']
    Db = E*t**3/(12*(1 - nu*nu))
    size = np.abs(np.array(q['pts'])).max()
    scale = Db*np.abs(c).max()*6
    for kind, i, el, T, X in elements(m, spec, R, q):
        s = 1.0 if kind == 'plate' else -1.0
        A = T[:2, :2]
        for a, b in PTS:
            x, y = (X[0] + a*(X[1] - X[0]) + b*(X[3] - X[0]))[:2]
            W = np.array([[c @ [6*x, 2*y, 0, 0], c @ [0, 2*x, 2*y, 0]], [0, c @ [0, 0, 2*x, 6*y]]])
            W[1, 0] = W[0, 1]
            K = A @ W @ A.T*T[2, 2]
            M = s*Db*np.array([K[0, 0] + nu*K[1, 1], K[1, 1] + nu*K[0, 0], (1 - nu)*K[0, 1]])
            dl = A @ np.array([c @ [6, 0, 2, 0], c @ [0, 2, 0, 6]])*T[2, 2]
            if not plate and (a, b) != (0.5, 0.5):
                continue
            close(value(el, kind, 'shear', a, b), -Db*dl, (1e-5 if plate else 0.1)*scale, f'{kind} {i}: shears at ({a}, {b}) under linearly varying moments')
            if plate:
                close(value(el, kind, 'moment', a, b), M, 1e-5*scale*size, f'{kind} {i}: moments at ({a}, {b}) under linearly varying moments')
    return {'shear ' + q['els'][0][0]} if np.abs(c).max() > 0 else ()


# ---------------------------------------------------------------------------- any state of displacements
G = 1/3**0.5
GAUSS = [(-G, -G), (G, -G), (G, G), (-G, G)]


def shape(xi, eta):
    n = np.array([(1 - xi)*(1 - eta), (1 + xi)*(1 - eta), (1 + xi)*(1 + eta), (1 - xi)*(1 + eta)])/4
    d = np.array([[-(1 - eta), 1 - eta, 1 + eta, -(1 + eta)], [-(1 - xi), -(1 + xi), 1 + xi, 1 - xi]])/4
    return n, d


def check_work(arg):
    """Stresses and moments in any state: statically equivalent to the forces at the corners; in rectangles, the stresses of the displacements between the corners."""
    q, seed, size = arg
    if not convex(q):
        return ()
    rng = np.random.default_rng(seed)
    vals = rng.integers(-20, 21, (len(q['pts']), 6))/2000*np.array(size)[[0, 0, 1, 2, 2, 0]]
    R = gen.rot_matrix(q['R'])
    spec = specs.empty()
    spec['mats'] = [q['mat']]
    spec['nodes'] = [gen.place([p[0], p[1], 0.0], R, q['o']) for p in q['pts']]
    for kind, c in q['els']:
        spec[kind + 's'].append({'n': c, 't': q['t'], 'mat': 0, 'kx': q['kx'], 'ky': q['ky']})
    spec['sup'] = [[k, [1]*6] for k in range(len(q['pts']))]
    for k, v in enumerate(vals):
        u = np.concatenate([R @ v[:3], R @ v[3:]])
        spec['disp'] += [[k, d, float(u[d])] for d in range(6)]
    m = specs.build(spec)
    specs.analyze(m, q['kind'], sparse=q['sparse'])
    E, nu, t = q['mat'][0], q['mat'][2], q['t']
    # the largest moments and stresses that displacements of this size can cause
    top = np.abs(vals).max()
    big_s, big_m = E*(np.abs(vals[:, :2]).max()*4 + 1e-7*top) + 1e-12, E*t**3*(np.abs(vals[:, 2:5]).max()*8 + 1e-6*top) + 1e-12
    for (kind, i, el, T, X), (_, c) in zip(elements(m, spec, R, q), q['els']):
        # in local axes, relative to the first corner
        x = (X - X[0]) @ T.T
        loc = np.hstack([vals[c, :3] @ T.T, vals[c, 3:] @ T.T])
        f = specs.vec(el.f('Combo 1')).reshape(4, 6)
        at = {w: [value(el, kind, w, (1 + a)/2, (1 + b)/2) for a, b in GAUSS] for w in ('membrane', 'moment')}
        w = [abs(np.linalg.det(shape(a, b)[1] @ x[:, :2])) for a, b in GAUSS]
        area = sum(w)
        S, M = (sum(wi*v for wi, v in zip(w, at[k])) for k in ('membrane', 'moment'))
        xc = x[:, :2] - x[:, :2].mean(axis=0)
        # constant strains: corners move by (x, 0), (0, y), (y, x)/2
        got = [float((f[:, 0]*xc[:, 0]).sum()), float((f[:, 1]*xc[:, 1]).sum()), float((f[:, 0]*xc[:, 1] + f[:, 1]*xc[:, 0]).sum())/2]
        close(np.array(got)/t/area, S/area, 1e-7*big_s, f'{kind} {i}: mean membrane stresses (from the forces at the corners against those reported)')
        # bending stresses: corners move by (N, 0), (0, N) of the fourth shape x·y in natural coordinates
        nat = np.array([1.0, -1.0, 1.0, -1.0])
        for d in (0, 1):
            work = 0.0
            for (a, b), wi, s in zip(GAUSS, w, at['membrane']):
                g = np.linalg.solve(shape(a, b)[1] @ x[:, :2], shape(a, b)[1] @ nat)
                work += wi*t*(s[d]*g[d] + s[2]*g[1 - d])
            close(float((f[:, d]*nat).sum()), work, 1e-6*big_s*t*np.abs(x).max(), f'{kind} {i}: in-plane bending along {"xy"[d]} (work of the forces at the corners against that of the stresses reported)')
        sg = 1.0 if kind == 'plate' else -1.0
        for k, (wf, gx, gy, want) in enumerate((((lambda a, b: a*a/2), (lambda a, b: a), (lambda a, b: 0*a), M[0]), ((lambda a, b: b*b/2), (lambda a, b: 0*a), (lambda a, b: b), M[1]),
                                                ((lambda a, b: a*b), (lambda a, b: b), (lambda a, b: a), 2*M[2]))):
            a, b = xc[:, 0], xc[:, 1]
            got = float((f[:, 2]*wf(a, b) + f[:, 3]*gy(a, b) - f[:, 4]*gx(a, b)).sum())
            close(got/area, sg*want/area, 1e-6*big_m, f'{kind} {i}: mean {("Mx", "My", "Mxy")[k]} (from the forces at the corners against those reported)')
        if abs(xc[0] @ xc[0] - xc[1] @ xc[1]) + abs(xc[0] + xc[2]).max() < 1e-9:
            # a rectangle
            Ex, Ey = E*q['kx'], E*q['ky']
            nxy, nyx = nu*(Ex/Ey)**0.5, nu*(Ey/Ex)**0.5
            for a, b in PTS:
                n, d = shape(2*a - 1, 2*b - 1)
                g = np.linalg.solve(d @ x[:, :2], d @ loc[:, :2])
                want = np.array([(Ex*g[0, 0] + nyx*Ex*g[1, 1])/(1 - nu*nu), (nxy*Ey*g[0, 0] + Ey*g[1, 1])/(1 - nu*nu), E/(2*(1 + nu))*(g[0, 1] + g[1, 0])])
                close(value(el, kind, 'membrane', a, b), want, 1e-7*big_s, f'{kind} {i}: membrane stresses at ({a}, {b})')
                if kind == 'quad':
                    h, _ = shape((2*a - 1)/G, (2*b - 1)/G)
                    close(value(el, kind, 'moment', a, b), h @ np.array(at['moment']), 1e-7*big_m, f'{kind} {i}: moments at ({a}, {b}) against those of other points')
    return {'/'.join(sorted({k for k, _ in q['els']})), 'stiffness modifiers' if q['kx'] != 1 or q['ky'] != 1 else 'plain'} if max(size) > 0 else ()


vec3 = st.lists(SMALL, min_size=3, max_size=3)
CASES = [
    Case('membrane', st.tuples(patch(('quad', 'quad', 'plate', 'mixed'), False), vec3, vec3), check_membrane, quick=200, thorough=6000),
    Case('bending', st.tuples(patch(('quad', 'plate'), False), vec3, vec3), check_bending, quick=160, thorough=5000),
    Case('any', st.tuples(patch(('quad', 'plate', 'mixed'), False), st.integers(0, 10**6), st.tuples(*[st.sampled_from([0, 1, 1])]*3)), check_work, quick=120, thorough=4000),
    Case('cubic', st.tuples(patch(('plate', 'plate', 'quad'), True), st.lists(SMALL, min_size=4, max_size=4)), check_cubic, quick=100, thorough=3000),
]

"""C15: reciprocity, symmetry, energy and rigid-body freedom of linear elastic models."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import close

RULE = 'the two loads act at different places or directions and their mutual displacement is not zero; or the element or model has off-diagonal coupling'
ASSUMPTIONS = ['turning an element about its normal is resisted by drilling springs of its own; only turning its nodes without rotating them is force-free',
               'no enforced displacements in the reciprocity cases']


# ---------------------------------------------------------------------------- reciprocity
@st.composite
def pair(draw, base):
    spec = draw(base)
    spec['disp'] = []
    for k in ('nl', 'pl', 'dl', 'sw', 'pp'):
        spec[k] = []
    n = len(spec['nodes'])
    places = []
    for _ in range(2):
        if spec['members'] and draw(st.integers(0, 2)):
            i = draw(st.integers(0, len(spec['members']) - 1))
            places.append(['member', i, draw(st.sampled_from(['Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ'])), draw(st.sampled_from([0.00037, 0.2307, 0.48713, 0.81109, 0.99963]))])
        else:
            places.append(['node', draw(st.integers(0, n - 1)), draw(st.integers(0, 5)), 0.0])
    spec['combos'] = [[{'0': 1.0}, None], [{'1': 1.0}, None]]
    p = [draw(st.sampled_from([1.0, 40.0, -250.0])) for _ in range(2)]
    for c, (kind, i, d, f) in enumerate(places):
        if kind == 'node':
            spec['nl'].append([i, d, p[c], c])
        else:
            spec['pl'].append([i, d, p[c], f*specs.length(spec, spec['members'][i]), c])
    return spec, places, p


def displacement(m, spec, place, combo):
    """The displacement at a load's point in its direction."""
    kind, i, d, f = place
    if kind == 'node':
        return specs.num(getattr(m.nodes[specs.NAMES.node(i)], specs.DOF[d])[combo])
    mem = m.members[specs.NAMES.member(i)]
    x = f*specs.length(spec, spec['members'][i])
    u = np.array([specs.at(mem, w, x, combo) for w in ('dx', 'dy', 'dz')])
    k = 'xyz'.index(d[1].lower())
    return float(u[k]) if d[1].islower() else float((np.asarray(next(iter(mem.sub_members.values())).T())[:3, :3].T @ u)[k])


def check_pair(arg):
    (spec, places, p), kind, sparse = arg
    m = specs.build(spec)
    specs.analyze(m, kind, sparse=sparse)
    a, b = specs.NAMES.combo(0), specs.NAMES.combo(1)
    u = [[displacement(m, spec, q, c) for q in places] for c in (a, b)]
    require(p[0]*u[0][0] >= -1e-12*abs(p[0]) and p[1]*u[1][1] >= -1e-12*abs(p[1]), f'a load moves against its own direction: loads {p}, displacements {u[0][0]}, {u[1][1]}')
    # work of each load on the displacements due to the other
    w = p[1]*u[0][1], p[0]*u[1][0]
    size = (abs(p[0]*u[0][0]*p[1]*u[1][1]))**0.5
    require(abs(w[0] - w[1]) <= 1e-6*max(size, abs(w[0]), abs(w[1])) + 1e-12*abs(p[0]*p[1]),
            f'not reciprocal: the load at {places[1]} does the work {w[0]} on the displacement due to the load at {places[0]}, the other way round it is {w[1]}')
    require(abs(w[0]) <= size*(1 + 1e-6) + 1e-12*abs(p[0]*p[1]), f'the mutual work {w[0]} exceeds the geometric mean {size} of the loads\' own work')
    if places[0] != places[1] and abs(w[0]) > 1e-6*size:
        return {'reciprocal ' + '/'.join(sorted({places[0][0], places[1][0]}))}
    return ()


# ---------------------------------------------------------------------------- energy
def check_energy(arg):
    spec, kind, sparse = arg
    spec = specs.copy(spec)
    spec['pl'], spec['dl'], spec['sw'], spec['pp'] = [], [], [], []
    if not spec['nl'] and not spec['disp']:
        return ()
    m = specs.build(spec)
    specs.analyze(m, kind, sparse=sparse)
    n = len(spec['nodes'])
    labels = set()
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        combo = specs.NAMES.combo(ci)
        D, R = specs.disp(m, combo, count=n), specs.reac(m, combo, count=n)
        work, big = 0.0, 0.0
        for k, d, p, c in spec['nl']:
            t = p*factors.get(c or 0, 0.0)*D[k, d]
            work += t
            big += abs(t)
        spring = {(q[0], q[1]): q[2] for q in spec['sprsup']}
        sup = {}
        for k, s in spec['sup']:
            sup[k] = list(s)
        for k, d, _ in spec['disp']:
            sup.setdefault(k, [0]*6)[d] = 1
        inner = 0.0
        for k in range(n):
            for d in range(6):
                r = R[k, d]
                if (k, d) in spring:
                    inner += spring[(k, d)]*D[k, d]**2
                    r = r + spring[(k, d)]*D[k, d]      # the part of the reaction that is not the spring's
                if k in sup and sup[k][d]:
                    work += r*D[k, d]
                    big += abs(r*D[k, d])
        for e in list(m.members.values()):
            subs = e.sub_members.values()
            for q in subs:
                inner += float((np.asarray(q.f(combo)).reshape(1, -1) @ np.asarray(q.d(combo)).reshape(-1, 1))[0, 0])
        for e in list(m.springs.values()) + list(m.plates.values()) + list(m.quads.values()):
            inner += float((np.asarray(e.f(combo), float).reshape(1, -1) @ np.asarray(e.d(combo), float).reshape(-1, 1))[0, 0])
        require(inner >= -1e-9*big - 1e-12, f'{combo}: negative strain energy {inner}')
        require(abs(work - inner) <= 1e-5*max(big, abs(inner)) + 1e-7, f'{combo}: the loads and support movements do the work {work} (twice the energy), the elements store {inner}')
        if abs(inner) > 1e-9:
            labels.add('energy')
    return labels


# ---------------------------------------------------------------------------- stiffness matrices
def rigid(X, c):
    """Rigid-body motions of nodes X (n by 3): 6n by 6."""
    n = len(X)
    out = np.zeros((6*n, 6))
    for k in range(n):
        out[6*k:6*k + 3, :3] = np.eye(3)
        for a in range(3):
            out[6*k:6*k + 3, 3 + a] = np.cross(np.eye(3)[a], X[k] - c)
            out[6*k + 3 + a, 3 + a] = 1.0
    return out


def dense(a):
    return np.asarray(a.toarray() if hasattr(a, 'toarray') else a, float)


def sym_psd(K, what, rank=None):
    K = np.asarray(K, float)
    require(np.isfinite(K).all(), f'{what} has entries that are not numbers')
    d = np.diag(K)
    require((d >= -1e-9*abs(K).max()).all(), f'{what} has a negative diagonal entry {d.min()}')
    s = 1/np.sqrt(np.where(d > 1e-12*d.max(initial=1e-300), d, 1.0))
    C = K*np.outer(s, s)
    off = np.abs(C - C.T).max()
    require(off <= 1e-7, f'{what} is not symmetric: entries differ by {off:.3g} of the diagonal')
    w = np.linalg.eigvalsh((C + C.T)/2)
    require(w[0] >= -1e-8*max(w[-1], 1.0), f'{what} has a negative eigenvalue ({w[0]:.3g} of the diagonal)')
    if rank is not None:
        got = int((w > 1e-7).sum())
        require(got == rank, f'{what} has {got} independent deformations instead of {rank}')
    return w


def check_matrices(arg):
    spec, sparse = arg
    m = specs.build(spec)
    specs.analyze(m, 'linear', sparse=sparse)
    combo = specs.NAMES.combo(0)
    labels = set()
    X = np.array(spec['nodes'], float)
    c = X.mean(axis=0)
    size = np.ptp(X, axis=0).max()

    def free(K, xs, what, drilling=None):
        B = rigid(np.array(xs), np.mean(xs, axis=0))
        if drilling is not None:
            # nodes do not turn about the normal
            for k in range(len(xs)):
                r = B[6*k + 3:6*k + 6]
                B[6*k + 3:6*k + 6] = r - np.outer(drilling, drilling @ r)
        F = K @ B
        ref = np.abs(K) @ np.abs(B)
        bad = np.abs(F) > 1e-7*ref.max(axis=0)
        require(not bad.any(), f'{what} produces forces under a rigid-body motion ({np.abs(F).max():.3g} next to {ref.max():.3g})')

    for i, e in enumerate(spec['members']):
        phys = m.members[specs.NAMES.member(i)]
        for q in phys.sub_members.values():
            xs = [[q.i_node.X, q.i_node.Y, q.i_node.Z], [q.j_node.X, q.j_node.Y, q.j_node.Z]]
            K = dense(q.K())
            released = any(q.Releases)
            sym_psd(K, f'the stiffness of member {i}', None if released else 6)
            free(K, xs, f'the stiffness of member {i}')
            r = [c for c in range(12) if q.Releases[c]]
            k = dense(q.k())
            require(np.abs(k[r]).max(initial=0.0) == 0.0, f'the local stiffness of member {i} has entries in released directions')
            labels.add('member')
    for i, e in enumerate(spec['springs']):
        q = m.springs[specs.NAMES.spring(i)]
        K = dense(q.K())
        sym_psd(K, f'the stiffness of spring {i}', 1)
        free(K, [X[e['i']], X[e['j']]], f'the stiffness of spring {i}')
        x = (X[e['j']] - X[e['i']])/np.linalg.norm(X[e['j']] - X[e['i']])
        want = np.zeros((12, 12))
        v = np.concatenate([-x, np.zeros(3), x, np.zeros(3)])
        close(K, e['ks']*np.outer(v, v), 1e-7*e['ks'], f'the stiffness of spring {i}')
        labels.add('spring')
    for kind in ('plate', 'quad'):
        for i, e in enumerate(spec[kind + 's']):
            q = getattr(m, kind + 's')[getattr(specs.NAMES, kind)(i)]
            xs = X[e['n']]
            nrm = np.cross(xs[1] - xs[0], xs[3] - xs[0])
            nrm /= np.linalg.norm(nrm)
            K = dense(q.K())
            sym_psd(K, f'the stiffness of {kind} {i}', 18)
            free(K, xs, f'the stiffness of {kind} {i}', nrm)
            labels.add(kind)
    K = dense(m.K(combo, False, False, sparse))
    sym_psd(K, 'the stiffness of the model')
    order = np.argsort([m.nodes[specs.NAMES.node(k)].ID for k in range(len(X))])
    own = K.copy()
    for (k, d), ks in {(q[0], q[1]): q[2] for q in spec['sprsup']}.items():
        j = 6*m.nodes[specs.NAMES.node(k)].ID + d
        own[j, j] -= ks
    B = rigid(X[order], c)
    sel = slice(0, 3) if spec['plates'] or spec['quads'] else slice(0, 6)
    F = own @ B[:, sel]
    ref = np.abs(K) @ np.abs(B[:, sel])
    require((np.abs(F) <= 1e-7*ref.max(axis=0)).all(), f'the model resists a rigid-body motion with {np.abs(F).max():.3g} (next to {ref.max():.3g})')
    return labels


KIND = st.sampled_from(['general', 'linear'])
frame = gen.frames(n_combos=(0, 2))
shell = gen.shells(max_n=2)
CASES = [
    Case('frame', st.tuples(pair(gen.frames(n_combos=(0, 0), n_loads=(0, 0), disp=False)), KIND, st.booleans()), check_pair, quick=900, thorough=25000),
    Case('shell', st.tuples(pair(gen.shells(max_n=2, n_loads=(0, 0), disp=False)), KIND, st.booleans()), check_pair, quick=240, thorough=6000),
    Case('energy', st.tuples(gen.frames(kinds=('nl',), n_combos=(0, 2)), KIND, st.booleans()), check_energy, quick=500, thorough=12000),
    Case('shell_energy', st.tuples(gen.shells(max_n=2, pressures=False), KIND, st.booleans()), check_energy, quick=150, thorough=3000),
    Case('matrices', st.tuples(frame, st.booleans()), check_matrices, quick=500, thorough=12000),
    Case('shell_matrices', st.tuples(shell, st.booleans()), check_matrices, quick=200, thorough=6000),
]

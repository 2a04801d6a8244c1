"""C20: unstable structures are reported, stable ones are solved."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import close, compare_solution
from ..refmodel import Ref
from .c01 import load_resultants

RULE = ('the structure has a mechanism (labels: how it comes about and whether the loads set it in motion), or is a stable counterpart '
        'obtained by the same kind of change')
ASSUMPTIONS = ['a mechanism is a zero-energy movement of the independent reference stiffness; stiffness matrices whose smallest eigenvalue is '
               'neither round-off nor clearly positive are not judged',
               'a mechanism that no load of any analysed combination sets in motion need not be reported if the internal forces reported are right '
               '(the existing tests contain one)',
               'plates and quads resist turning about their normal by weak drilling springs, which counts as stable']


@st.composite
def changed(draw, base):
    spec = draw(base)
    for _ in range(draw(st.integers(1, 3))):
        n = len(spec['nodes'])
        how = draw(st.sampled_from(['drop support', 'drop bit', 'drop bit', 'release', 'release', 'truss', 'lone node', 'restore', 'one dof', 'spring arm']))
        if how == 'drop support' and spec['sup']:
            spec['sup'].pop(draw(st.integers(0, len(spec['sup']) - 1)))
        elif how == 'drop bit' and spec['sup']:
            spec['sup'][draw(st.integers(0, len(spec['sup']) - 1))][1][draw(st.integers(0, 5))] = 0
        elif how == 'release':
            e = spec['members'][draw(st.integers(0, len(spec['members']) - 1))]
            e['rel'] = [max(a, b) for a, b in zip(e.get('rel') or [0]*12, draw(gen.release_set()))]
        elif how == 'truss':
            for e in spec['members']:
                if draw(st.integers(0, 3)):
                    e['rel'] = [0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 1, 1]
        elif how == 'lone node':
            spec['nodes'].append([71.5, 60.25 + n, -55.5])
            if draw(st.booleans()):
                spec['sup'].append([n, list(draw(st.sampled_from(gen.SUPPORTS)))])
        elif how == 'restore':
            spec['sup'] = [s for s in spec['sup'] if s[0] != 0] + [[0, [1]*6]]
        elif how == 'one dof' and spec['sup']:
            k = draw(st.integers(0, len(spec['sup']) - 1))
            spec['sup'][k][1] = [0]*6
            spec['sup'][k][1][draw(st.integers(0, 5))] = 1
        elif how == 'spring arm':
            k = draw(st.integers(0, n - 1))
            p = [a + b for a, b in zip(spec['nodes'][k], [1.5, 2.25, -1.75])]
            if not any(gen._close(p, q) for q in spec['nodes']):
                spec['nodes'].append(p)
                spec['springs'].append({'i': k, 'j': n, 'ks': 2000.0})
                if any(gen.near_colinear(spec, e) for e in spec['members']):
                    spec['nodes'].pop()
                    spec['springs'].pop()
                elif draw(st.booleans()):
                    spec['sup'].append([n, [1, 1, 1, 1, 1, 1] if draw(st.booleans()) else [1, 1, 1, 0, 0, 0]])
    sup = {(k, d) for k, s in spec['sup'] for d in range(6) if s[d]}
    spec['disp'] = [q for q in spec['disp'] if (q[0], q[1]) in sup]
    spec['sprsup'] = [q for q in spec['sprsup'] if (q[0], q[1]) not in sup]
    return spec


def classify(spec):
    """('stable' | 'mechanism' | 'unclear', modes, excited): modes over the free degrees of freedom of the reference."""
    ref = Ref(spec)
    if not ref.free:
        return 'stable', ref, False, False
    K = ref.K[np.ix_(ref.free, ref.free)]
    d = np.diag(K).copy()
    zero = d <= 0
    d[zero] = 1.0
    s = 1/np.sqrt(d)
    w, V = np.linalg.eigh((K*np.outer(s, s) + (K*np.outer(s, s)).T)/2)
    null = w < 4e-15*w.max(initial=1.0)
    if ((w >= 4e-15*w.max()) & (w < 1e-6)).any():
        return 'unclear', ref, False, False
    if not null.any():
        return 'stable', ref, False, False
    N = V[:, null]
    moved, exact = False, False
    kn = sorted(ref.known)
    D2 = np.array([ref.known[i] for i in kn])
    amount = []
    for factors, _ in specs.combos(spec):
        F = ref.nodal(factors)
        for p in ref.parts:
            F = F - p.B.T @ p.fer(factors)
        rhs = F[ref.free] - (ref.K[np.ix_(ref.free, kn)] @ D2 if kn else 0.0)
        r = s*rhs
        nr = np.linalg.norm(r)
        total = sum(np.abs(f).sum() + np.abs(mm).sum() for _, f, mm in load_resultants(spec, factors)) + (1.0 if kn and np.any(D2) else 0.0)
        amount.append(np.linalg.norm(N.T @ r)/nr if nr > 1e-9*s.max()*total else 0.0)       # not what is left of loads that cancel out
    return 'mechanism', ref, amount, N


def bare_direction(spec):
    """Whether some node has an unsupported direction along a global axis to which nothing is attached at all."""
    ref = Ref(spec)
    attached = {q for e in spec['springs'] for q in (e['i'], e['j'])} | {p.i for p in ref.parts} | {p.j for p in ref.parts}
    rot = {p.i for p in ref.parts} | {p.j for p in ref.parts}
    for k in range(len(spec['nodes'])):
        for d in range(6):
            if 6*k + d in ref.known or (k, d) in ref.sprsup:
                continue
            if k not in attached or (d > 2 and k not in rot):
                return True
    return False


def check(arg):
    spec, kind, sparse = arg
    kind_of, ref, amount, N = classify(spec)
    if kind_of == 'unclear':
        return ()
    m = specs.build(spec)
    err = None
    try:
        specs.analyze(m, kind, sparse=sparse)
    except Exception as e:
        err = e
    n = len(spec['nodes'])
    if kind_of == 'stable':
        if ref.cond() > 1e7 if ref.free else False:
            return ()
        if err is not None:
            if kind == 'pdelta':
                return ()
            raise Violation(f'a stable structure was refused by the {kind} analysis: {err}')
        if kind != 'pdelta':
            for ci, (factors, _) in enumerate(specs.combos(spec)):
                compare_solution(m, spec, ref.solve(factors), specs.NAMES.combo(ci))
        return {'stable'}
    labels = {kind + (' sparse' if sparse else ' dense')}
    if bare_direction(spec):
        require(err is not None, f'the {kind} analysis (sparse={sparse}) did not report a direction of a node to which nothing is connected')
        return labels | {'unconnected direction'}
    if max(amount) > 1e-6:
        require(err is not None, f'the {kind} analysis (sparse={sparse}) did not report a mechanism set in motion by the loads (share {max(amount):.3g} of the load)')
        return labels | {'mechanism in motion'}
    if err is not None:
        return labels | {'idle mechanism reported'}
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        combo = specs.NAMES.combo(ci)
        D, R = specs.disp(m, combo, count=n), specs.reac(m, combo, count=n)
        require(np.isfinite(D).all() and np.isfinite(R).all(), f'{combo}: an unstable structure was given results that are not numbers')
        if kind != 'pdelta':
            sol = solve_lstsq(ref, factors)
            sc = sol.scales()
            tf = np.array([sc[2]]*3 + [sc[3]]*3)*1e-5 + 1e-7
            close(R, sol.R, tf, f'{combo}: reactions of a structure with an idle mechanism [node, dof]')
    return labels | {'idle mechanism solved'}


def solve_lstsq(ref, factors):
    from ..refmodel import Solution
    P = ref.nodal(factors)
    F = P.copy()
    for p in ref.parts:
        F -= p.B.T @ p.fer(factors)
    D = np.zeros(ref.ndof)
    for i, v in ref.known.items():
        D[i] = v
    kn = sorted(ref.known)
    K = ref.K[np.ix_(ref.free, ref.free)]
    d = np.diag(K).copy()
    d[d <= 0] = 1.0
    s = 1/np.sqrt(d)
    rhs = F[ref.free] - (ref.K[np.ix_(ref.free, kn)] @ D[kn] if kn else 0.0)
    D[ref.free] = s*np.linalg.lstsq(K*np.outer(s, s), s*rhs, rcond=1e-10)[0]
    return Solution(ref, factors, D, F, P)


# ---------------------------------------------------------------------------- plates and quads
@st.composite
def loose_shell(draw):
    spec = draw(gen.shells(members=False, springs=False, disp=False, max_n=2))
    how = draw(st.sampled_from(['none', 'one pinned', 'bits', 'in plane', 'two pinned']))
    n = len(spec['nodes'])
    if how == 'none':
        spec['sup'] = []
    elif how == 'one pinned':
        spec['sup'] = [[draw(st.integers(0, n - 1)), [1, 1, 1, 0, 0, 0]]]
    elif how == 'two pinned':
        a, b = draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=2, unique=True))
        spec['sup'] = [[a, [1, 1, 1, 0, 0, 0]], [b, [1, 1, 1, 0, 0, 0]]]
    elif how == 'bits':
        spec['sup'] = [[k, list(draw(st.sampled_from(gen.SUPPORTS[2:7])))] for k in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True))]
    else:
        d = draw(st.integers(0, 2))
        spec['sup'] = [[k, [int(q == d) for q in range(3)] + [0, 0, 0]] for k in range(n)]
    return spec


def check_shell(arg):
    spec, kind, sparse = arg
    X = np.array(spec['nodes'], float)
    c = X.mean(axis=0)
    e = (spec['plates'] + spec['quads'])[0]['n']
    normal = np.cross(X[e[1]] - X[e[0]], X[e[3]] - X[e[0]])
    normal /= np.linalg.norm(normal)
    size = np.ptp(X, axis=0).max()
    # Turning in its own plane moves the nodes of a flat shell without turning them about the normal: the membrane has no rotational freedoms, and
    # the drilling springs that resist rotations about the normal have no part in it.
    rows = [np.zeros(6)]
    skew = False
    for k, bits in spec['sup']:
        for d in range(6):
            if bits[d]:
                r = np.zeros(6)
                if d < 3:
                    r[d] = 1.0
                    r[3:] = np.cross((X[k] - c)/size, np.eye(3)[d])       # (ω × r)·e = ω·(r × e)
                else:
                    e_d = np.eye(3)[d - 3]
                    if 1e-9 < abs(e_d @ normal) < 1 - 1e-9:
                        skew = True
                    r[3:] = e_d - (e_d @ normal)*normal
                rows.append(r)
    _, s, Vt = np.linalg.svd(np.array(rows))
    rank = int((s > 1e-9).sum())
    if (s[:rank] < 1e-2).any() or skew:
        return ()
    N = Vt[rank:]
    m = specs.build(spec)
    err = None
    try:
        specs.analyze(m, kind, sparse=sparse)
    except Exception as q:
        err = q
    if rank == 6:
        require(err is None, f'a stable shell was refused: {err}')
        return {'stable'}
    share = 0.0
    for factors, _ in specs.combos(spec):
        W, mag = np.zeros(6), 1e-9
        for p, f, mm in load_resultants(spec, factors):
            W += np.concatenate([f, (mm - (mm @ normal)*normal + np.cross(p - c, f))/size])
            mag = max(mag, np.abs(f).max(), np.abs(mm).max()/size)
        share = max(share, np.abs(N @ W).max()/mag)
    if share < 1e-6:
        return ()
    require(err is not None, f'the {kind} analysis (sparse={sparse}) did not report a shell free to move')
    return {f'{6 - rank} rigid movement(s)'}


KIND = st.sampled_from(specs.ANALYSES)
CASES = [
    Case('frame', st.tuples(changed(gen.frames(max_members=4)), KIND, st.booleans()), check, quick=1200, thorough=30000),
    Case('single', st.tuples(changed(gen.frames(max_members=1, extra=0)), KIND, st.booleans()), check, quick=600, thorough=15000),
    Case('shell', st.tuples(loose_shell(), KIND, st.booleans()), check_shell, quick=160, thorough=4000),
]

"""C14: P-Delta results satisfy second-order equilibrium."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import close, compare_solution, results, same, scale_max
from ..refmodel import Ref, axes, second_order_safe, strain_axial
from .c13 import inactive, one_way_frames

RULE = 'the second-order solution differs from the first-order one by more than 1e-4 of the largest displacement'
ASSUMPTIONS = ['axial forces stay below half of the critical load',
               'members of the exact comparison are unreleased or pinned at both ends; other releases are compared on finely divided members',
               'where axial forces themselves change with the displacements, results may lie anywhere between one step of the second-order iteration and its limit '
               '(with a margin of the same size)']
AXIAL = (1.0, 3.0, 10.0, 30.0)


@st.composite
def loaded(draw, base):
    """Raises the loads as far as the structure can take them."""
    spec = draw(base)
    f = draw(st.sampled_from(AXIAL))
    for k, at in (('nl', (2,)), ('pl', (2,)), ('dl', (2, 3))):
        for q in spec[k]:
            for i in at:
                q[i] *= f
    while not second_order_safe(spec, 2.0):
        for k, at in (('nl', (2,)), ('pl', (2,)), ('dl', (2, 3))):
            for q in spec[k]:
                for i in at:
                    q[i] *= 0.5
        spec['sw'] = [[d, 0.5*v, c] for d, v, c in spec['sw']]
        spec['disp'] = [[k, d, 0.5*v] for k, d, v in spec['disp']]
        f *= 0.5
        if f < 1e-4:
            return spec
    return spec


def size(D):
    return np.array([np.abs(D[:, :3]).max(initial=0.0)]*3 + [np.abs(D[:, 3:]).max(initial=0.0)]*3) + 1e-12


def nontrivial(a, b):
    return (np.abs(a.D - b.D)/size(b.D)).max() > 1e-4


def iterate(spec, factors):
    """First order, one second-order step, and the limit of the iteration."""
    first = Ref(spec).solve(factors)
    s, steps = first, []
    for _ in range(40):
        n = Ref(spec, axial=strain_axial(s)).solve(factors)
        steps.append(n)
        if np.abs(n.D - s.D).max() <= 1e-13*np.abs(n.D).max() + 1e-16:
            return first, steps[0], n
        s = n
    return None


# ---------------------------------------------------------------------------- statically determinate: exact
def only_supports_move(spec):
    sup = {n: s for n, s in spec['sup']}
    spec['disp'] = [q for q in spec['disp'] if q[0] in sup and sup[q[0]][q[1]]]
    return spec


tree = loaded(gen.frames(max_members=5, extra=0, springs=False, sprsup=False, releases=False, more_supports=0, weak=False).map(only_supports_move))


def check_tree(arg):
    spec, sparse = arg
    m = specs.build(spec)
    specs.analyze(m, 'pdelta', sparse=sparse)
    labels = set()
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        first = Ref(spec).solve(factors)
        sol = Ref(spec, axial=strain_axial(first)).solve(factors)
        compare_solution(m, spec, sol, specs.NAMES.combo(ci), rtol=1e-5)
        if nontrivial(sol, first):
            labels.add('softened' if np.abs(sol.D).max() > np.abs(first.D).max() else 'stiffened')
    return labels


# ---------------------------------------------------------------------------- straight chains with supports that move: exact
@st.composite
def chain(draw):
    """Members along one global axis, held along it at the start only, so that the axial forces do not depend on anything else."""
    spec = specs.empty()
    spec['mats'] = [list(draw(st.sampled_from(gen.MATS)))]
    a, s = draw(st.integers(0, 2)), draw(st.sampled_from([1.0, -1.0]))
    n = draw(st.integers(2, 4))
    o = draw(st.sampled_from([[0.0, 0.0, 0.0], [3.5, -2.25, 10.0]]))
    x = 0.0
    for i in range(n + 1):
        p = list(o)
        p[a] += s*x
        spec['nodes'].append(p)
        x += draw(st.integers(4, 24))/4
    for i in range(n):
        e = {'i': i, 'j': i + 1, 'mat': 0, **draw(gen.section())}
        if draw(st.booleans()):
            e['i'], e['j'] = e['j'], e['i']
        spec['members'].append(e)
    spec['sup'] = [[0, [1]*6]]
    for i in range(1, n + 1):
        f = [int(draw(st.booleans())) if d % 3 != a or d >= 3 else 0 for d in range(6)]
        if draw(st.booleans()) and any(f):
            spec['sup'].append([i, f])
    held = [(i, d) for i, f in spec['sup'] for d in range(6) if f[d] and d != a] + [(n, d) for d in range(6) if d != a]
    for i, d in draw(st.lists(st.sampled_from(held), min_size=1, max_size=3, unique=True)):
        spec['disp'].append([i, d, draw(st.integers(-40, 40).filter(bool))/(1000 if d < 3 else 4000)])
    gen_l = draw(gen.loads(spec, lo=0, hi=2))
    axial = draw(st.sampled_from([-1.0, -1.0, 1.0]))
    gen_l['nl'].append([n, a, s*axial*draw(gen.mag), draw(gen.case_no)])
    return draw(gen.combinations(gen_l))


# ---------------------------------------------------------------------------- any frame: between one step and the limit
@st.composite
def any_frame(draw):
    spec = draw(gen.frames(min_members=2, max_members=5, releases=False, cond=1e6))
    for e in spec['members']:
        if draw(st.integers(0, 4)) == 0:
            e['rel'] = [0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 1, 1]
            if not gen.ok(spec, 1e6) or gen.specs and _inner(spec, e):
                del e['rel']
    return spec


def _inner(spec, e):
    from ..refmodel import split_nodes
    return bool(split_nodes(spec, e))


def check_frame(arg):
    spec, sparse = arg
    if not second_order_safe(spec, 2.0):
        return ()
    m = specs.build(spec)
    specs.analyze(m, 'pdelta', sparse=sparse)
    labels = set()
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        it = iterate(spec, factors)
        if it is None:
            continue
        first, one, limit = it
        combo = specs.NAMES.combo(ci)
        sd = size(one.D)
        D = specs.disp(m, combo, count=len(spec['nodes']))
        gap = np.abs(limit.D - one.D)
        span = np.array([gap[:, :3].max()]*3 + [gap[:, 3:].max()]*3)
        if (span > 0.05*sd).any():
            continue
        close(D, one.D, 1e-6*sd + 1e-13 + 2*span, f'{combo}: second-order displacements [node, dof]')
        sc = one.scales()
        tf = np.array([sc[2]]*3 + [sc[3]]*3)*1e-5 + 1e-6
        gr = np.abs(limit.R - one.R)
        # member forces follow the last displacements, so they may be up to one more step ahead
        mg = [np.abs(limit.member_f(i) - one.member_f(i)).reshape(4, 3) for i in range(len(spec['members']))]
        ff = max([g[[0, 2]].max() for g in mg] + [gr[:, :3].max()])
        fm = max([g[[1, 3]].max() for g in mg] + [gr[:, 3:].max()])
        two = Ref(spec, axial=strain_axial(one)).solve(factors)
        # forces of the next axial forces on the present displacements
        for p, a, b in zip(one.ref.parts, strain_axial(first), strain_axial(one)):
            d = one.d[one.ref.parts.index(p)]
            from ..refmodel import kg_beam
            q = np.abs(kg_beam(b - a, p.L, (p.Iy + p.Iz)/p.A) @ d).reshape(4, 3)
            ff, fm = max(ff, 2*q[[0, 2]].max()), max(fm, 2*q[[1, 3]].max())
        tg = np.array([ff]*3 + [fm]*3)*2
        close(specs.reac(m, combo, count=len(spec['nodes'])), one.R, tf + tg*3, f'{combo}: second-order reactions [node, dof]')
        for i in range(len(spec['members'])):
            close(specs.vec(m.members[specs.NAMES.member(i)].f(combo)), one.member_f(i), np.concatenate([tf + tg]*2), f'{combo}: second-order end forces of member {i}')
        if nontrivial(one, first):
            labels.add('second order')
            if (span < 1e-3*np.abs(one.D - first.D).max()).all():
                labels.add('sharp')
    return labels


# ---------------------------------------------------------------------------- beam-columns against closed form
@st.composite
def column(draw):
    L = draw(st.integers(12, 48))/4
    sec = draw(gen.section())
    mat = list(draw(st.sampled_from(gen.MATS)))
    return {'L': L, 'sec': sec, 'mat': mat, 'n': draw(st.integers(6, 9)), 'R': draw(gen.placement), 'o': draw(st.sampled_from([[0.0, 0.0, 0.0], [3.5, -2.25, 10.0]])),
            'kind': draw(st.sampled_from(['cantilever', 'simple', 'propped'])), 'ratio': draw(st.integers(-30, 12))/20, 'aux': draw(st.integers(-1, 7)),
            'h': [draw(gen.mag), draw(gen.mag)], 'w': [draw(gen.mag)/4, draw(gen.mag)/4], 'one': draw(st.booleans()), 'flip': draw(st.booleans()),
            'sparse': draw(st.booleans()), 'extra': draw(st.booleans())}


def closed_form(EI, L, P, w, H, kind, x):
    """Deflection and bending moment EI·v'' at x of a beam-column with compression P, uniform load w along +v, and a tip load H
    (cantilever), by solving EI v'''' + P v'' = w with the boundary conditions of each kind."""
    k2 = P/EI
    if abs(k2)*L*L < 1e-6:
        raise ValueError
    k = np.sqrt(complex(k2))
    # v = a + b x + c cos kx + d sin kx + w x²/(2P)
    def row(deriv, x):
        c, s = np.cos(k*x), np.sin(k*x)
        return {0: [1, x, c, s], 1: [0, 1, -k*s, k*c], 2: [0, 0, -k*k*c, -k*k*s], 3: [0, 0, k**3*s, -k**3*c]}[deriv]

    def part(deriv, x):
        return {0: w*x*x/(2*P), 1: w*x/P, 2: w/P, 3: 0.0}[deriv]
    if kind == 'cantilever':        # fixed at 0, free at L: M = 0 and V = EI v''' + P v' = -H
        A = [row(0, 0), row(1, 0), row(2, L), np.array(row(3, L)) + k*k*np.array(row(1, L))]
        b = [-part(0, 0), -part(1, 0), -part(2, L), -H/EI - part(3, L) - k*k*part(1, L)]
    elif kind == 'simple':
        A = [row(0, 0), row(2, 0), row(0, L), row(2, L)]
        b = [-part(0, 0), -part(2, 0), -part(0, L), -part(2, L)]
    else:                           # fixed at 0, simply supported at L
        A = [row(0, 0), row(1, 0), row(0, L), row(2, L)]
        b = [-part(0, 0), -part(1, 0), -part(0, L), -part(2, L)]
    c = np.linalg.solve(np.array(A, complex), np.array(b, complex))
    v = np.real(np.array(row(0, x)) @ c) + part(0, x)
    M = EI*(np.real(np.array(row(2, x)) @ c) + part(2, x))
    return v, M


def check_column(q):
    L, n, sec, kind = q['L'], q['n'], q['sec'], q['kind']
    R, o = gen.rot_matrix(q['R']), q['o']
    E = q['mat'][0]
    Imin = min(sec['Iy'], sec['Iz'])
    K = {'cantilever': 2.0, 'simple': 1.0, 'propped': 0.7}[kind]
    P = q['ratio']*np.pi**2*E*Imin/(K*L)**2
    if abs(P) < 1e-3*E*Imin/L**2:
        return ()
    spec = specs.empty()
    spec['mats'] = [q['mat']]
    spec['nodes'] = [gen.place([L*i/n, 0.0, 0.0], R, o) for i in range(n + 1)]
    aux = None
    if q['aux'] >= 0:
        t = 0.3 + q['aux']*np.pi/4
        aux = gen.place([1.0, np.cos(t)*2, np.sin(t)*2], R, o)
    if q['one']:
        ends = [(n, 0) if q['flip'] else (0, n)]
    else:
        ends = [(i + 1, i) if q['flip'] else (i, i + 1) for i in range(n)]
    for i, j in ends:
        e = {'i': i, 'j': j, 'mat': 0, **sec}
        if aux is not None:
            e['aux'] = aux
        spec['members'].append(e)
    T = axes(spec['nodes'][ends[0][0]], spec['nodes'][ends[0][1]], aux)      # local axes (rows)
    x = np.array(gen.place([1.0, 0.0, 0.0], R, [0, 0, 0]))
    # supports in the global directions: all translations and rotations at 0 for fixed ends; hinges are end releases
    pinned = [0, 0, 0, 0, 1, 1]
    spec['sup'] = [[0, [1]*6]]
    first, last = spec['members'][0], spec['members'][-1]
    at0, atL = ('j', 'i') if q['flip'] else ('i', 'j')

    def release(e, end):
        r = e.get('rel') or [0]*12
        for d in (4, 5):
            r[d + (6 if end == 'j' else 0)] = 1
        e['rel'] = r
    if kind == 'simple':
        release(first, at0)
    if kind != 'cantilever':
        # the far node may only move along the member: carried by a stiff guide across, via a node that is held in all directions but x
        release(last, atL)
    # axial load by nodal force components, lateral loads in local directions of the members
    load = -P*x
    h = (T[1]*q['h'][0] + T[2]*q['h'][1])/10 if kind == 'cantilever' else np.zeros(3)
    if kind != 'cantilever':
        # support at L across the member: needs global axes, so only positions along an axis are used
        a = int(np.argmax(np.abs(x)))
        if abs(abs(x[a]) - 1) > 1e-12:
            return ()
        spec['sup'].append([n, [int(d != a) for d in range(3)] + [1, 1, 1]])
    for d in range(3):
        if abs((load + h)[d]) > 1e-12*abs(P):
            spec['nl'].append([n, d, float((load + h)[d]), 0])
    wy, wz = q['w'][0]/10, q['w'][1]/10
    for i in range(len(spec['members'])):
        spec['dl'].append([i, 'Fy', wy, wy, None, None, 0])
        spec['dl'].append([i, 'Fz', wz, wz, None, None, 0])
    if q['extra']:
        spec['combos'] = [[{'1': 1.0}, None], [{'0': 1.0}, None]]
        combo = 'Combo 2'
    else:
        combo = 'Combo 1'
    m = specs.build(spec)
    specs.analyze(m, 'pdelta', sparse=q['sparse'])
    D = specs.disp(m, combo, count=n + 1)
    labels = {kind, 'compression' if P > 0 else 'tension'}
    for c, I, w, H, lat in ((1, sec['Iz'], wy, q['h'][0]/10, T[1]), (2, sec['Iy'], wz, q['h'][1]/10, T[2])):
        EI = E*I
        H = H if kind == 'cantilever' else 0.0
        ref = [closed_form(EI, L, P, w, H, kind, s) for s in np.linspace(0, L, 33)]
        dv, dm = max(abs(v) for v, _ in ref), max(abs(M) for _, M in ref)
        for i in range(n + 1):
            v, M = closed_form(EI, L, P, w, H, kind, L*i/n)
            got = float(D[i, :3] @ lat)
            require(abs(got - v) <= 2e-3*dv + 1e-12, f'{combo}: displacement of node {i} across the beam-column (local {"xyz"[c]}) is {got}, beam-column theory gives {v} (P = {P:.4g})')
        # moments: EI v'' = -Mz in local y, and = -My(reported) in local z
        for f in (0.05, 0.3, 0.55, 0.77, 0.95):
            s = L*f
            v, M = closed_form(EI, L, P, w, H, kind, s)
            if q['one']:
                mem, xx = m.members['M1'], (L - s if q['flip'] else s)
            else:
                i = min(int(f*n), n - 1)
                mem, xx = m.members[f'M{i + 1}'], (L*(i + 1)/n - s if q['flip'] else s - L*i/n)
            got = -specs.at(mem, 'Mz' if c == 1 else 'My', xx, combo)
            require(abs(got - M) <= 0.03*dm + 1e-9, f'{combo}: EI·v\'\' from the reported {"Mz" if c == 1 else "My"} at {s:.4g} is {got}, beam-column theory gives {M} (P = {P:.4g})')
            gv = specs.at(mem, 'dy' if c == 1 else 'dz', xx, combo)
            require(abs(gv - v) <= 0.03*dv + 1e-12, f'{combo}: deflection at {s:.4g} is {gv}, beam-column theory gives {v} (P = {P:.4g})')
    return labels


# ---------------------------------------------------------------------------- the first-order limit
def check_limit(arg):
    spec, sparse = arg
    small = specs.copy(spec)
    eps = 1e-6
    small['combos'] = [[{k: v*eps for k, v in f.items()}, t] for f, t in (spec['combos'] or [[{'0': 1.0}, None]])]
    small['disp'] = [[k, d, v*eps] for k, d, v in spec['disp']]
    if not second_order_safe(small, 100.0):
        return ()
    a, b = specs.build(small), specs.build(small)
    specs.analyze(a, 'pdelta', sparse=sparse)
    specs.analyze(b, 'linear', sparse=sparse)
    for ci in range(len(small['combos'])):
        combo = specs.NAMES.combo(ci)
        ra, rb = results(a, small, combo), results(b, small, combo)
        s = {k: max(v, 1e-9) for k, v in scale_max(ra, rb).items()}
        for r in (ra, rb):
            for k in r:
                r[k] = r[k]/s[k[0]] if s[k[0]] else r[k]
        same(ra, rb, f'{combo}: P-Delta results for vanishing loads against first-order results (relative)', scales={k: 1.0 for k in s}, rtol=3e-4)
    return {'vanishing axial forces'} if max(abs(x) for ci, (f, _) in enumerate(specs.combos(spec)) for x in strain_axial(Ref(spec).solve(f)) + [0.0]) > 1e-3 else ()


# ---------------------------------------------------------------------------- one-way members
def check_one_way(arg):
    spec, sparse = arg
    bare = specs.copy(spec)
    bare['members'] = [e for e in spec['members'] if not e.get('tc')]
    m = specs.build(spec)
    try:
        specs.analyze(m, 'pdelta', sparse=sparse)
    except Exception as e:
        if 'diverged' in str(e) or 'singular' in str(e):
            return ()
        raise
    labels = set()
    for ci in range(len(specs.combos(spec))):
        combo = specs.NAMES.combo(ci)
        om, os_, sp = inactive(m, spec, combo)
        red = specs.copy(spec)
        red['members'] = [dict(e, tc=None) for i, e in enumerate(spec['members']) if i not in om]
        red['springs'] = [dict(e, tc=None) for i, e in enumerate(spec['springs']) if i not in os_]
        red['sprsup'] = [q[:3] + [None] for i, q in enumerate(spec['sprsup']) if i not in sp]
        if not second_order_safe(red, 2.0):
            continue
        shift = np.cumsum([i in om for i in range(len(spec['members']))])
        for k in ('pl', 'dl'):
            red[k] = [[q[0] - int(shift[q[0]])] + q[1:] for q in spec[k] if q[0] not in om]
        if any(q[0] in om for k in ('pl', 'dl') for q in spec[k]):
            continue
        r = specs.build(red)
        specs.analyze(r, 'pdelta', sparse=sparse)
        D, E = specs.disp(m, combo, count=len(spec['nodes'])), specs.disp(r, combo, count=len(spec['nodes']))
        close(D, E, 1e-6*size(E) + 1e-13, f'{combo}: P-Delta displacements against the model without the inactive elements {om} {os_} {sp} [node, dof]')
        Ra, Rb = specs.reac(m, combo, count=len(spec['nodes'])), specs.reac(r, combo, count=len(spec['nodes']))
        tf = np.array([np.abs(Rb[:, :3]).max()]*3 + [np.abs(Rb[:, 3:]).max()]*3)*1e-5 + 1e-6
        close(Ra, Rb, tf, f'{combo}: P-Delta reactions against the model without the inactive elements [node, dof]')
        kept = [i for i in range(len(spec['members'])) if i not in om]
        for j, i in enumerate(kept):
            close(specs.vec(m.members[specs.NAMES.member(i)].f(combo)), specs.vec(r.members[specs.NAMES.member(j)].f(combo)), np.concatenate([tf, tf]),
                  f'{combo}: P-Delta end forces of member {i} against the model without the inactive elements')
        if om or os_ or sp:
            labels.add('inactive elements')
    return labels


CASES = [
    Case('tree', st.tuples(tree, st.booleans()), check_tree, quick=250, thorough=8000),
    Case('chain', st.tuples(loaded(chain()), st.booleans()), check_tree, quick=200, thorough=8000),
    Case('frame', st.tuples(loaded(any_frame()), st.booleans()), check_frame, quick=250, thorough=8000),
    Case('column', column(), check_column, quick=300, thorough=8000),
    Case('limit', st.tuples(gen.frames(max_members=4), st.booleans()), check_limit, quick=120, thorough=4000),
    Case('one_way', st.tuples(loaded(one_way_frames()), st.booleans()), check_one_way, quick=150, thorough=4000),
]

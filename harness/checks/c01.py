"""C01: reactions balance loads, globally and at every node."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, require
from ..oracle import close
from ..refmodel import axes

RULE = 'the combination has loads or enforced displacements that give non-zero reactions'
ASSUMPTIONS = ['plates and quads attach a weak grounded rotational spring about their normal to each corner (documented in their code '
               'to suppress drilling singularities); the moments these springs report in the element end forces are counted as reactions',
               'tolerance 1e-6 of the largest force in the model']


def load_resultants(spec, factors):
    """[(point, force, moment, node or None)] of all factored loads, computed from the specification alone."""
    out = []
    nodes = [np.array(p, float) for p in spec['nodes']]
    for n, d, p, c in spec['nl']:
        v = np.zeros(6)
        v[d] = p*factors.get(c or 0, 0.0)
        out.append((nodes[n], v[:3], v[3:]))
    comp = {'x': 0, 'y': 1, 'z': 2}

    def to_global(k, d, p):
        e = spec['members'][k]
        v = np.zeros(3)
        v[comp[d[1].lower()]] = p
        return v if d[1].isupper() else axes(nodes[e['i']], nodes[e['j']], e.get('aux')).T @ v
    for k, d, p, x, c in spec['pl']:
        e = spec['members'][k]
        u = (nodes[e['j']] - nodes[e['i']])/np.linalg.norm(nodes[e['j']] - nodes[e['i']])
        v = to_global(k, d, p*factors.get(c or 0, 0.0))
        z = np.zeros(3)
        out.append((nodes[e['i']] + x*u, v if d[0] == 'F' else z, v if d[0] == 'M' else z))
    dl = [tuple(q) for q in spec['dl']]
    for d, f, c in spec['sw']:
        for k, e in enumerate(spec['members']):
            w = f*spec['mats'][e['mat']][3]*e['A']
            dl.append((k, d, w, w, None, None, c))
    for k, d, w1, w2, x1, x2, c in dl:
        e = spec['members'][k]
        L = specs.length(spec, e)
        u = (nodes[e['j']] - nodes[e['i']])/L
        x1, x2 = (0.0 if x1 is None else x1), (L if x2 is None else x2)
        f = factors.get(c or 0, 0.0)
        for w, xc in ((w1, (2*x1 + x2)/3), (w2, (x1 + 2*x2)/3)):       # two triangles
            out.append((nodes[e['i']] + xc*u, to_global(k, d, w*f*(x2 - x1)/2), np.zeros(3)))
    for kind, k, p, c in spec['pp']:
        q = [nodes[i] for i in spec[kind + 's'][k]['n']]
        p = p*factors.get(c or 0, 0.0)
        for tri in ((q[0], q[1], q[2]), (q[0], q[2], q[3])):
            a = np.cross(tri[1] - tri[0], tri[2] - tri[0])/2
            out.append(((tri[0] + tri[1] + tri[2])/3, p*a, np.zeros(3)))
    return out


def balance(m, spec, names=specs.NAMES, analysed=None, rtol=1e-6):
    """Global and nodal equilibrium of every combination; returns whether anything was loaded."""
    nn = len(spec['nodes'])
    X = np.array(spec['nodes'], float)
    any_load = False
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        combo = names.combo(ci)
        if analysed is not None and combo not in analysed:
            continue
        R = specs.reac(m, combo, names, nn)
        ext = np.zeros((nn, 6))
        for n, d, p, c in spec['nl']:
            ext[n, d] += p*factors.get(c or 0, 0.0)
        ends = np.zeros((nn, 6))
        index = {id(m.nodes[names.node(i)]): i for i in range(nn)}
        drill = np.zeros((nn, 3))
        size = 1e-3
        elements = []
        for i in range(len(spec['members'])):
            elements += [(s, ('i_node', 'j_node')) for s in m.members[names.member(i)].sub_members.values()]
        for i in range(len(spec['springs'])):
            elements.append((m.springs[names.spring(i)], ('i_node', 'j_node')))
        for kind in ('plate', 'quad'):
            for i in range(len(spec[kind + 's'])):
                e = getattr(m, kind + 's')[getattr(names, kind)(i)]
                elements.append((e, ('i_node', 'j_node', 'm_node', 'n_node')))
        for e, which in elements:
            F = specs.vec(e.F(combo)).reshape(-1, 6)
            size = max(size, np.abs(F).max())
            for q, w in enumerate(which):
                ends[index[id(getattr(e, w))]] += F[q]
            if len(which) == 4:
                f = specs.vec(e.f(combo)).reshape(-1, 6)
                a = [X[index[id(getattr(e, w))]] for w in which]
                z = np.cross(a[1] - a[0], a[3] - a[0])
                z /= np.linalg.norm(z)
                for q, w in enumerate(which):
                    drill[index[id(getattr(e, w))]] += f[q, 5]*z
        size = max(size, np.abs(R).max(), np.abs(ext).max(initial=0))
        res = load_resultants(spec, factors)
        size = max([size] + [np.abs(f).max() for _, f, _ in res])
        close(ends, ext + R, rtol*size, f'{combo}: end forces of the attached elements against load plus reaction [node, dof]')
        # no reaction where there is no support
        sup = np.zeros((nn, 6), bool)
        for n, s in spec['sup']:
            sup[n] = s
        for n, d, *_ in spec['sprsup'] + spec['disp']:
            sup[n, d] = True
        require(not np.abs(R[~sup]).max(initial=0) > 0, f'{combo}: a direction without support reports a reaction')
        # global equilibrium about two points
        tot = R[:, :3].sum(axis=0) + sum((f for _, f, _ in res), np.zeros(3))
        close(tot, np.zeros(3), rtol*size, f'{combo}: sum of forces')
        span = max(1.0, float(np.ptp(X, axis=0).max()))
        for o in (X.mean(axis=0), X[0] + np.array([7.0, -5.0, 3.0])):
            mom = R[:, 3:].sum(axis=0) - drill.sum(axis=0) + np.cross(X - o, R[:, :3]).sum(axis=0)
            for p, f, mm in res:
                mom = mom + mm + np.cross(p - o, f)
            close(mom, np.zeros(3), rtol*size*span*3, f'{combo}: sum of moments')
        any_load = any_load or np.abs(R).max(initial=0) > 1e-6
    return any_load


def check(spec):
    m = specs.build(spec)
    kind = 'linear' if len(spec['nodes']) % 2 else 'general'
    specs.analyze(m, kind, sparse=bool(len(spec['nl']) % 2))
    return gen.label_set(spec) | {kind} if balance(m, spec) else ()


@st.composite
def one_way(draw):
    from .c13 import one_way_frames
    spec = draw(one_way_frames())
    if draw(st.booleans()):         # loads on any member, also on those that become inactive
        draw(gen.loads(spec, 1, 3, kinds=('pl', 'dl', 'sw')))
    return spec


def check_one_way(spec):
    m = specs.build(spec)
    try:
        specs.analyze(m, 'general')
    except Exception as e:
        if 'diverged' in str(e) or 'unstable' in str(e).lower():
            return ()
        raise
    out = {'one-way elements'}
    loaded = {q[0] for q in spec['pl'] + spec['dl']} | (set(range(len(spec['members']))) if spec['sw'] else set())
    if any(not all(m.members[specs.NAMES.member(i)].active.values()) for i in loaded):
        out.add('loads on an inactive member')
    return out if balance(m, spec) else ()


CASES = [
    Case('frame', gen.frames(), check, quick=1000, thorough=24000),
    Case('shell', gen.shells(), check, quick=480, thorough=8000),
    Case('oneway', one_way(), check_one_way, quick=400, thorough=8000),
]

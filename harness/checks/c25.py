"""C25: results scale with units."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, require
from ..oracle import close, results, same, size
from ..refmodel import Ref, second_order_safe
from .c06 import idle_supports
from .c09 import collinear
from .c13 import converged_is_consistent, inactive, one_way_frames

RULE = 'the model has non-zero results and the units changed by a factor other than one'
ASSUMPTIONS = ['lengths change by factors from 1e-3 to 1e3, forces by factors from 1e-6 to 1e6 (models of a few units in size and load)',
               'member results are compared away from concentrated loads']
FR = (0.00037, 0.2307, 0.48713, 0.81109, 0.99963)


def scaled(spec, a, b):
    """The model in units a times smaller (lengths) and b times smaller (forces)."""
    s = specs.copy(spec)
    s['nodes'] = [[c*a for c in p] for p in s['nodes']]
    s['mats'] = [[E*b/a**2, G*b/a**2, nu, rho*b/a**3] for E, G, nu, rho in s['mats']]
    for e in s['members']:
        e['A'] *= a**2
        for k in ('Iy', 'Iz', 'J'):
            e[k] *= a**4
        if e.get('aux'):
            e['aux'] = [c*a for c in e['aux']]
    for e in s['springs']:
        e['ks'] *= b/a
    for k in ('plates', 'quads'):
        for e in s[k]:
            e['t'] *= a
    for q in s['sprsup']:
        q[2] *= b/a if q[1] < 3 else b*a
    for q in s['disp']:
        q[2] *= a if q[1] < 3 else 1.0
    for q in s['nl']:
        q[2] *= b if q[1] < 3 else b*a
    for q in s['pl']:
        q[2] *= b if q[1][0] == 'F' else b*a
        q[3] *= a
    for q in s['dl']:
        q[2] *= b/a
        q[3] *= b/a
        q[4] = None if q[4] is None else q[4]*a
        q[5] = None if q[5] is None else q[5]*a
    for q in s['pp']:
        q[2] *= b/a**2
    return s


def back(r, a, b):
    out = type(r)(r)
    out.Lc = r.Lc/a
    fac = {'u': a, 'r': 1.0, 'f': b, 'm': a*b, 'F': b/a, 'M': b}
    for k in r:
        out[k] = r[k]/fac[k[0]]
    return out


def at_end(ref, i):
    """Whether a concentrated load acts at the very end of a piece of the member (on which side is a matter of round-off)."""
    return any(x < 1e-6*p.L or x > p.L*(1 - 1e-6) for p in ref.of_member[i] for _, x, _ in p.pts)


def check(arg):
    spec, a, b, kind, sparse = arg
    if a == 1.0 and b == 1.0:
        return ()
    if kind == 'pdelta' and not second_order_safe(spec):
        kind = 'general'
    other = scaled(spec, a, b)
    m, n = specs.build(spec), specs.build(other)
    try:
        specs.analyze(m, kind, sparse=sparse)
    except Exception as e:
        if 'diverged' in str(e):
            return ()
        raise
    try:
        specs.analyze(n, kind, sparse=sparse)
    except Exception as e:
        if 'diverged' in str(e) and idle_supports(m, spec):
            return ()
        raise
    one_way = any(q.get('tc') for q in spec['members'] + spec['springs']) or any(q[3] for q in spec['sprsup'])
    ref = Ref(spec)
    big = False
    for ci in range(len(specs.combos(spec))):
        combo = specs.NAMES.combo(ci)
        if one_way and inactive(m, spec, combo) != inactive(n, other, combo):
            converged_is_consistent(m, spec, ci)
            continue
        ra, rb = results(m, spec, combo, fracs=FR), back(results(n, other, combo, fracs=FR), a, b)
        big = big or size(ra) > 1e-6
        same(rb, ra, f'{combo}: lengths times {a}, forces times {b}', rtol=2e-6)
        for i, e in enumerate(spec['members']):
            if one_way or at_end(ref, i):
                continue
            x, y = m.members[specs.NAMES.member(i)], n.members[specs.NAMES.member(i)]
            L = specs.length(spec, e)
            F = max(1e-3, np.abs(specs.vec(x.f(combo))).max())
            for w, f in (('axial', b), ('Fy', b), ('Fz', b), ('torque', a*b), ('My', a*b), ('Mz', a*b)):
                for q in ('min', 'max'):
                    u, v = specs.extreme(x, q, w, combo), specs.extreme(y, q, w, combo)/f
                    close(v, u, 5e-6*(F*max(L, 1.0) + abs(u)) + 1e-6, f'{combo}: {q} {w} of member {i} with lengths times {a}, forces times {b}')
    if not big:
        return ()
    out = {kind}
    if a != 1.0:
        out.add(f'lengths {a:g}')
    if b != 1.0:
        out.add(f'forces {b:g}')
    return out


# ---------------------------------------------------------------------------- meshes
MESHES = ('rectangle', 'annulus', 'frustrum', 'cylinder')


@st.composite
def mesh_case(draw):
    kind = draw(st.sampled_from(MESHES))
    p = {'kind': kind, 'size': draw(st.sampled_from([0.4873, 0.7313, 1.0171, 1.3127])), 'origin': draw(st.sampled_from([[0.0, 0.0, 0.0], [3.5, -2.25, 10.0]])),
         'type': draw(st.sampled_from(['Quad', 'Rect'])), 't': 0.2}
    if kind == 'rectangle':
        p.update(w=draw(st.integers(4, 24))/4, h=draw(st.integers(4, 24))/4, plane=draw(st.sampled_from(['XY', 'YZ', 'XZ'])),
                 xc=[q/16*1.0 for q in draw(st.lists(st.integers(1, 15), max_size=2))], yc=[q/16 for q in draw(st.lists(st.integers(1, 15), max_size=2))])
        p['op'] = [draw(st.integers(1, 6))/16, draw(st.integers(1, 6))/16, draw(st.integers(2, 8))/16, draw(st.integers(2, 8))/16] if draw(st.booleans()) else None
    else:
        r = draw(st.integers(6, 16))/4
        p.update(r1=r, r2=r*draw(st.sampled_from([0.3, 0.5, 0.8])), h=draw(st.integers(4, 16))/4, axis=draw(st.sampled_from('XYZ')))
    return [p, draw(LENGTHS)]


def make_mesh(m, p, a=1.0):
    o = [c*a for c in p['origin']]
    if p['kind'] == 'rectangle':
        m.add_rectangle_mesh('MSH', p['size']*a, p['w']*a, p['h']*a, p['t']*a, 'Mat', origin=o, plane=p['plane'],
                             x_control=[q*p['w']*a for q in p['xc']], y_control=[q*p['h']*a for q in p['yc']], element_type=p['type'])
        if p['op']:
            x, y, w, h = p['op']
            m.meshes['MSH'].add_rect_opening('O1', x*p['w']*a, y*p['h']*a, w*p['w']*a, h*p['h']*a)
    elif p['kind'] == 'annulus':
        m.add_annulus_mesh('MSH', p['size']*a, p['r1']*a, p['r2']*a, p['t']*a, 'Mat', origin=o, axis=p['axis'])
    elif p['kind'] == 'frustrum':
        m.add_frustrum_mesh('MSH', p['size']*a, p['r1']*a, p['r2']*a, p['h']*a, p['t']*a, 'Mat', origin=o, axis=p['axis'])
    else:
        m.add_cylinder_mesh('MSH', p['size']*a, p['r1']*a, p['h']*a, p['t']*a, 'Mat', origin=o, axis=p['axis'], element_type=p['type'])
    if not m.meshes['MSH'].is_generated():
        m.meshes['MSH'].generate()
    return m


def check_mesh(arg):
    p, a = arg
    from PyNite import FEModel3D
    both = []
    for s in (1.0, a):
        m = FEModel3D()
        m.add_material('Mat', 3e7/s**2, 1.25e7/s**2, 0.2, 24.0/s**3)
        make_mesh(m, p, s)
        both.append(m)
    m, n = both
    require(list(m.nodes) == list(n.nodes), f'{len(n.nodes)} nodes instead of {len(m.nodes)} with lengths times {a}')
    P = np.array([[q.X, q.Y, q.Z] for q in m.nodes.values()])
    Q = np.array([[q.X, q.Y, q.Z] for q in n.nodes.values()])/a
    close(Q, P, 1e-7*np.abs(P).max(), f'mesh nodes with lengths times {a} [node, axis]')
    for k in ('plates', 'quads'):
        x, y = getattr(m, k), getattr(n, k)
        corners = lambda d: {q.name: [c.name for c in (q.i_node, q.j_node, q.m_node, q.n_node)] for q in d.values()}
        require(corners(x) == corners(y), f'other {k} with lengths times {a}')
    return {p['kind']}


LENGTHS = st.sampled_from([1e-3, 0.01, 0.1, 0.3048, 3.28084, 12.0, 100.0, 1000.0])
FORCES = st.sampled_from([1e-6, 1e-3, 0.2248, 1.0, 4.4482, 1e3, 1e6])
LIN = st.sampled_from(['linear', 'general'])


def case(base, kinds=LIN):
    return st.tuples(base, st.one_of(st.just(1.0), LENGTHS, LENGTHS), FORCES, kinds, st.booleans())


CASES = [
    Case('frame', case(gen.frames(max_members=5), st.sampled_from(['linear', 'general', 'pdelta'])), check, quick=560, thorough=20000),
    Case('along', case(collinear()), check, quick=240, thorough=9000),
    Case('one_way', case(one_way_frames(), st.just('general')), check, quick=240, thorough=9000),
    Case('shell', case(gen.shells()), check, quick=120, thorough=4000),
    Case('mesh', mesh_case(), check_mesh, quick=240, thorough=6000),
]

"""C12: supports and enforced displacements are honoured exactly."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, require
from ..oracle import close, results, same, scales_of
from .c13 import one_way_frames

RULE = 'the model deforms or is moved; labels name what kind of support or movement was examined'
ASSUMPTIONS = ['rigid movements are small (linear theory), are the same in every combination and have no rotation about the normal of '
               'plates and quads, whose corners carry weak grounded drilling springs']


def supported(spec):
    s = {}
    for n, bits in spec['sup']:
        for d in range(6):
            s[(n, d)] = bool(bits[d])
    return {k for k, v in s.items() if v}


def honoured(m, spec):
    """Supports, enforced displacements and spring supports in every combination."""
    labels = set()
    n = len(spec['nodes'])
    fixed = supported(spec)
    enforced = {(k, d): v for k, d, v in spec['disp']}
    sp = {(k, d): (ks, way) for k, d, ks, way in spec['sprsup']}
    for ci in range(len(specs.combos(spec))):
        combo = specs.NAMES.combo(ci)
        D, R = specs.disp(m, combo, count=n), specs.reac(m, combo, count=n)
        require(np.isfinite(D).all() and np.isfinite(R).all(), f'{combo}: results are not finite')
        for k, d in fixed:
            want = enforced.get((k, d), 0.0)
            require(D[k, d] == want, f'{combo}: {specs.DOF[d]} of supported node {k} is {D[k, d]!r} instead of {want!r}')
        for (k, d), want in enforced.items():
            require(D[k, d] == want, f'{combo}: enforced {specs.DOF[d]} of node {k} is {D[k, d]!r} instead of {want!r}')
        fs = max(1e-3, np.abs(R).max())
        for (k, d), (ks, way) in sp.items():
            if (k, d) in fixed or (k, d) in enforced:
                continue
            want = -ks*D[k, d]
            if way == '+' and D[k, d] < 0 or way == '-' and D[k, d] > 0:
                want = 0.0
            close(R[k, d], want, 1e-9*fs + 1e-12, f'{combo}: reaction of the spring support {specs.DOF[d]} at node {k} displaced by {D[k, d]!r}')
            if abs(R[k, d]) > 1e-6:
                labels.add('spring support' + (f' {way}' if way else ''))
        for k in range(n):
            for d in range(6):
                if (k, d) not in fixed and (k, d) not in sp and (k, d) not in enforced:
                    require(R[k, d] == 0, f'{combo}: unsupported {specs.DOF[d]} of node {k} has a reaction {R[k, d]!r}')
        if np.abs(D).max() > 0:
            labels.add('supports')
            if enforced:
                labels.add('enforced displacements')
            if set(enforced) - fixed:
                labels.add('enforced without a support')
    return labels


def check(arg):
    spec, kind, sparse = arg
    m = specs.build(spec)
    try:
        specs.analyze(m, kind, sparse=sparse)
    except Exception as e:
        if kind == 'pdelta' and ('singular' in str(e).lower() or 'unstable' in str(e).lower() or 'diverged' in str(e)):
            return ()
        if 'diverged' in str(e):
            return ()
        raise
    return {q + ' ' + kind for q in honoured(m, spec)}


# ---------------------------------------------------------------------------- rigid movement
@st.composite
def moved(draw, base, plane=False):
    spec = draw(base)
    for key in ('nl', 'pl', 'dl', 'sw', 'pp', 'sprsup', 'disp'):
        spec[key] = []
    t = [draw(st.integers(-30, 30))/1000 for _ in range(3)]
    r = [draw(st.integers(-20, 20))/4000 for _ in range(3)]
    o = [draw(st.integers(-4, 4))/1.0 for _ in range(3)]
    return [spec, t, r, o, draw(st.sampled_from(['linear', 'general', 'pdelta']))]


def check_rigid(arg):
    spec, t, r, o, kind = arg
    spec = specs.copy(spec)
    r = np.array(r)
    flat = spec['plates'] + spec['quads']
    if flat:
        a = [np.array(spec['nodes'][q]) for q in flat[0]['n']]
        z = np.cross(a[1] - a[0], a[3] - a[0])
        z /= np.linalg.norm(z)
        r = r - z*(z @ r)
    if not flat and not gen.ok(spec):
        return ()
    X = np.array(spec['nodes'], float)
    want = np.hstack([np.array(t) + np.cross(r, X - np.array(o)), np.tile(r, (len(X), 1))])
    for k, d in sorted(supported(spec)):
        spec['disp'].append([k, d, float(want[k, d])])
    m = specs.build(spec)
    specs.analyze(m, kind)
    # the forces that moving a single end by this much would cause
    stiff = max([spec['mats'][e['mat']][0]*max(e['A']/specs.length(spec, e), 12*max(e['Iy'], e['Iz'])/specs.length(spec, e)**3) for e in spec['members']]
                + [s['ks'] for s in spec['springs']] + [spec['mats'][e['mat']][0]*e['t'] for e in flat] + [1.0])
    u = np.abs(want).max()
    span = max(1.0, np.ptp(X, axis=0).max())
    for ci in range(len(specs.combos(spec))):
        combo = specs.NAMES.combo(ci)
        close(specs.disp(m, combo, count=len(X)), want, 1e-7*u*span + 1e-13, f'{combo}: displacements against the rigid movement [node, dof]')
        f = results(m, spec, combo)
        tol = 1e-8*stiff*u*span + 1e-9
        for k, v in f.items():
            if k[0] in 'fF':
                close(v, 0*v, tol, f'{combo}: {k[2:]} under a rigid movement')
            elif k[0] in 'mM':
                close(v, 0*v, tol*span, f'{combo}: {k[2:]} under a rigid movement')
    return {kind, 'translation' if np.abs(r).max() < 1e-9 else 'rotation'} if u > 0 else ()


# ---------------------------------------------------------------------------- enforcing what happens anyway
@st.composite
def anyway(draw, base):
    return [draw(base), draw(st.lists(st.tuples(st.integers(0, 30), st.integers(0, 5)).map(list), min_size=1, max_size=2)), draw(st.sampled_from(['linear', 'general']))]


def check_anyway(arg):
    spec, which, kind = arg
    if len(spec['combos']) > 1:
        spec['combos'] = spec['combos'][:1]
    m = specs.build(spec)
    specs.analyze(m, kind)
    want = results(m, spec, 'Combo 1')
    D = specs.disp(m, 'Combo 1', count=len(spec['nodes']))
    fixed = supported(spec) | {(k, d) for k, d, _ in spec['disp']}
    other = specs.copy(spec)
    for k, d in which:
        k %= len(spec['nodes'])
        if (k, d) not in fixed and not any(q[:2] == [k, d] for q in other['disp']):
            other['disp'].append([k, d, float(D[k, d])])
    if other['disp'] == spec['disp']:
        return ()
    m2 = specs.build(other)
    specs.analyze(m2, kind)
    same(results(m2, spec, 'Combo 1'), want, 'results after enforcing displacements that occur anyway', rtol=1e-5)
    return {'enforced'} if np.abs(D).max() > 0 else ()


@st.composite
def held(draw, base):
    """Also enforces displacements, often zero, where there is no support."""
    spec = draw(base)
    for k, d in draw(st.lists(st.tuples(st.integers(0, 30), st.integers(0, 5)), min_size=1, max_size=3)):
        k %= len(spec['nodes'])
        if not any(q[:2] == [k, d] for q in spec['disp']):
            spec['disp'].append([k, d, 0.0 if draw(st.booleans()) else draw(st.integers(-40, 40))/4000])
    return spec


kinds = st.sampled_from(['linear', 'general', 'pdelta'])
CASES = [
    Case('frame', st.tuples(gen.frames(), kinds, st.booleans()), check, quick=640, thorough=16000),
    Case('held', st.tuples(held(gen.frames()), kinds, st.booleans()), check, quick=400, thorough=8000),
    Case('held_shell', st.tuples(held(gen.shells(max_n=2)), kinds, st.booleans()), check, quick=80, thorough=2000),
    Case('shell', st.tuples(gen.shells(max_n=2), kinds, st.booleans()), check, quick=160, thorough=3000),
    Case('oneway', st.tuples(one_way_frames(), st.sampled_from(['general', 'pdelta']), st.booleans()), check, quick=320, thorough=6000),
    Case('rigid', moved(gen.frames(max_members=5)), check_rigid, quick=480, thorough=12000),
    Case('rigid_shell', moved(gen.shells(max_n=2)), check_rigid, quick=160, thorough=3000),
    Case('anyway', anyway(gen.frames(max_members=4, sprsup=True)), check_anyway, quick=320, thorough=8000),
    Case('anyway_shell', anyway(gen.shells(max_n=2, n_combos=(0, 1))), check_anyway, quick=80, thorough=2000),
]

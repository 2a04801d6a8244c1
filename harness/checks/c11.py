"""C11: equivalent ways to describe a load give identical results; invalid descriptions are refused."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import results, same, scale_max
from ..refmodel import axes

RULE = 'the loads rewritten cause non-zero results; labels name the rewriting'
ASSUMPTIONS = ['member results are compared away from concentrated loads', 'distributed loads extending beyond a member are not covered']
FR = (0.00037, 0.2307, 0.48713, 0.81109, 0.99963)
COMP = {'x': 0, 'y': 1, 'z': 2}


def rotation(spec, k):
    e = spec['members'][k]
    return axes(spec['nodes'][e['i']], spec['nodes'][e['j']], e.get('aux'))


def to_components(spec, rng):
    """Loads in global directions as loads in local directions and the other way round."""
    out = specs.copy(spec)
    out['pl'], out['dl'] = [], []
    for key in ('pl', 'dl'):
        for q in spec[key]:
            k, d = q[0], q[1]
            v = np.zeros(3)
            v[COMP[d[1].lower()]] = 1.0
            R = rotation(spec, k)
            w = R @ v if d[1].isupper() else R.T @ v
            names = 'xyz' if d[1].isupper() else 'XYZ'
            for c in range(3):
                if abs(w[c]) > 1e-12:
                    if key == 'pl':
                        out[key].append([k, d[0] + names[c], float(q[2]*w[c]), q[3], q[4]])
                    else:
                        out[key].append([k, d[0] + names[c], float(q[2]*w[c]), float(q[3]*w[c])] + q[4:])
    return out


def split_pieces(spec, rng):
    """Every load in two parts: magnitudes, or for distributed loads also adjoining lengths."""
    out = specs.copy(spec)
    out['pl'], out['dl'], out['nl'], out['pp'], out['sw'] = [], [], [], [], []
    for q in spec['nl']:
        a = rng.choice([0.25, 0.5, -1.0])*q[2]
        out['nl'] += [[q[0], q[1], a, q[3]], [q[0], q[1], q[2] - a, q[3]]]
    for q in spec['pp']:
        a = rng.choice([0.25, 0.5, -1.0])*q[2]
        out['pp'] += [[q[0], q[1], a, q[3]], [q[0], q[1], q[2] - a, q[3]]]
    for q in spec['sw']:
        out['sw'] += [[q[0], 0.25*q[1], q[2]], [q[0], 0.75*q[1], q[2]]]
    for q in spec['pl']:
        a = rng.choice([0.25, 0.5, -1.0])*q[2]
        out['pl'] += [[q[0], q[1], a, q[3], q[4]], [q[0], q[1], q[2] - a, q[3], q[4]]]
    for k, d, w1, w2, x1, x2, c in spec['dl']:
        L = specs.length(spec, spec['members'][k])
        if rng.random() < 0.5:          # uniform and triangular part
            out['dl'] += [[k, d, w1, w1, x1, x2, c], [k, d, 0.0, w2 - w1, x1, x2, c]]
        else:
            a, b = (0.0 if x1 is None else x1), (L if x2 is None else x2)
            xm = a + (b - a)*rng.choice([0.5, 0.125, 0.7])
            wm = w1 + (w2 - w1)*(xm - a)/(b - a)
            out['dl'] += [[k, d, w1, wm, x1, xm, c], [k, d, wm, w2, xm, x2, c]]
    return out


def split_cases(spec, rng):
    """Loads of a case spread over two cases that appear together in every combination; and a case twice as large with half the factor."""
    out = specs.copy(spec)
    fac = specs.combos(spec)
    if not spec['combos']:
        out['combos'] = [[{'0': 1.0}, None]]
    new = 7
    for f, _ in out['combos']:
        if '0' in f:
            f[str(new)] = f['0']
        if '1' in f:
            f['1'] = f['1']/2
    for key in ('nl', 'pl', 'dl', 'sw', 'pp'):
        for q in out[key]:
            if (q[-1] or 0) == 0 and rng.random() < 0.5:
                q[-1] = new
            elif q[-1] == 1:
                pos = {'nl': [2], 'pl': [2], 'dl': [2, 3], 'sw': [1], 'pp': [2]}[key]
                for p in pos:
                    q[p] *= 2
    return out


def extents(spec, rng):
    """Full-length defaults written out."""
    out = specs.copy(spec)
    for q in out['dl']:
        L = specs.length(spec, spec['members'][q[0]])
        q[4], q[5] = (0.0 if q[4] is None else q[4]), (L if q[5] is None else q[5])
    return out


def self_weight(spec, rng):
    out = specs.copy(spec)
    out['sw'] = []
    for d, f, c in spec['sw']:
        for k, e in enumerate(spec['members']):
            w = f*spec['mats'][e['mat']][3]*e['A']
            out['dl'].append([k, d, w, w, None, None, c])
    return out


def sections(spec, rng):
    """Sections instead of explicit properties and the other way round."""
    out = specs.copy(spec)
    for e in out['members']:
        e['sec'] = not e.get('sec')
    return out


def end_loads(spec, rng):
    """Point loads at member ends as nodal loads, and nodal forces as member end loads."""
    out = specs.copy(spec)
    out['pl'] = []
    for k, d, p, x, c in spec['pl']:
        e = spec['members'][k]
        L = specs.length(spec, e)
        end = 0 if x == 0.0 else (1 if x == L else None)
        if end is None or any((e.get('rel') or [0]*12)[6*end:6*end + 6]):
            out['pl'].append([k, d, p, x, c])
            continue
        v = np.zeros(3)
        v[COMP[d[1].lower()]] = p
        v = v if d[1].isupper() else rotation(spec, k).T @ v
        for q in range(3):
            if abs(v[q]) > 1e-12*abs(p):
                out['nl'].append([e['j' if end else 'i'], (0 if d[0] == 'F' else 3) + q, float(v[q]), c])
    return out


def order(spec, rng):
    out = specs.copy(spec)
    for key in ('nl', 'pl', 'dl', 'sw', 'pp'):
        rng.shuffle(out[key])
    return out


REWRITES = {f.__name__: f for f in (to_components, split_pieces, split_cases, extents, self_weight, sections, end_loads, order)}


class Rng:
    def __init__(self, seed):
        import random
        self.r = random.Random(seed)
        self.choice, self.random, self.shuffle = self.r.choice, self.r.random, self.r.shuffle


@st.composite
def loaded(draw):
    spec = draw(gen.frames(max_members=3, n_loads=(1, 5)))
    # loads at the very ends of members
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.integers(0, len(spec['members']) - 1))
        L = specs.length(spec, spec['members'][k])
        spec['pl'].append([k, draw(st.sampled_from(gen.L_DIRS + gen.G_DIRS)), draw(gen.mag), draw(st.sampled_from([0.0, L])), draw(gen.case_no)])
    return spec


def check(arg):
    spec, which, seed, kind = arg
    m = specs.build(spec)
    specs.analyze(m, kind)
    rng = Rng(seed)
    other = spec
    for w in which:
        other = REWRITES[w](other, rng)
    same_loads = all(other[k] == spec[k] for k in other)
    m2 = specs.build(other)
    specs.analyze(m2, kind)
    big = False
    for k in range(len(specs.combos(spec))):
        a = results(m2, spec, f'Combo {k + 1}', fracs=FR)
        b = results(m, spec, f'Combo {k + 1}', fracs=FR)
        if 'end_loads' in which:        # end forces of members differ by the load itself
            for r in (a, b):
                for key in [q for q in r if 'end forces' in q]:
                    del r[key]
        s = scale_max(a, b)
        for q in spec['nl'] + spec['pl']:
            s['f'] = max(s['f'], abs(q[2]))
            s['m'] = s['f']*b.Lc
        same(a, b, f'loads rewritten by {" and ".join(which)}, combination {k + 1}', s, rtol=2e-6)
        big = big or s['f'] > 1e-6
    return set(which) if big and not same_loads else ()


# ---------------------------------------------------------------------------- refused descriptions
def public_state(m):
    """What the model contains, to tell whether a refused call left something behind."""
    return {
        'nodes': {k: (n.X, n.Y, n.Z, tuple(map(tuple, n.NodeLoads)), n.support_DX, n.support_RZ, tuple(n.spring_DX), n.EnforcedDX, n.EnforcedRZ) for k, n in m.nodes.items()},
        'members': {k: (e.i_node.name, e.j_node.name, tuple(map(tuple, e.PtLoads)), tuple(map(tuple, e.DistLoads)), tuple(e.Releases)) for k, e in m.members.items()},
        'springs': list(m.springs), 'plates': list(m.plates), 'quads': {k: tuple(map(tuple, q.pressures)) for k, q in m.quads.items()},
        'combos': {k: dict(c.factors) for k, c in m.load_combos.items()}, 'cases': sorted(m.load_cases),
        'materials': sorted(m.materials), 'aux': sorted(m.aux_nodes),
    }


bad_dirs = st.sampled_from(['fx', 'Fq', 'X', '', 'DX', 'FXY', 'FZ ', 'rz', 'F1'])
bad_calls = st.one_of(
    st.tuples(st.just('add_member_pt_load'), st.tuples(st.just('M1'), bad_dirs, st.just(5.0), st.just(1.0))),
    st.tuples(st.just('add_member_pt_load'), st.tuples(st.just('M1'), st.sampled_from(['FY', 'Fz', 'MX']), st.just(5.0), st.sampled_from([-0.5, -1e-3, 4.5, 400.0]))),
    st.tuples(st.just('add_member_dist_load'), st.tuples(st.just('M1'), st.one_of(bad_dirs, st.sampled_from(['Mx', 'MY', 'mz'])), st.just(5.0), st.just(1.0))),
    st.tuples(st.just('add_node_load'), st.tuples(st.just('N1'), st.one_of(bad_dirs, st.sampled_from(['Fx', 'Mz'])), st.just(5.0))),
    st.tuples(st.just('def_node_disp'), st.tuples(st.just('N1'), st.sampled_from(['FX', 'dx', '', 'D', 'RXX']), st.just(0.1))),
    st.tuples(st.just('def_support_spring'), st.tuples(st.just('N1'), st.sampled_from(['FX', 'dx', '', 'D', 'RXX']), st.just(10.0))),
    st.tuples(st.just('def_support_spring'), st.tuples(st.just('N1'), st.just('DX'), st.just(10.0), st.sampled_from(['x', '++', 'up']))),
    st.tuples(st.sampled_from(['add_member_self_weight']), st.tuples(bad_dirs, st.just(1.0))),
    st.tuples(st.just('add_node_load'), st.tuples(st.just('none'), st.just('FX'), st.just(5.0))),
    st.tuples(st.just('add_member_pt_load'), st.tuples(st.just('none'), st.just('FX'), st.just(5.0), st.just(0.5))),
    st.tuples(st.just('add_member_dist_load'), st.tuples(st.just('none'), st.just('FX'), st.just(5.0), st.just(5.0))),
    st.tuples(st.just('add_quad_surface_pressure'), st.tuples(st.just('none'), st.just(5.0))),
    st.tuples(st.just('add_plate_surface_pressure'), st.tuples(st.just('none'), st.just(5.0))),
    st.tuples(st.just('def_support'), st.tuples(st.just('none'), st.just(True))),
    st.tuples(st.just('def_releases'), st.tuples(st.just('none'), st.just(True))),
)


def check_refused(arg):
    calls, loads = arg
    m = specs.FEModel3D()
    m.add_material('Mat', 2e8, 8e7, 0.3, 77.0)
    m.add_node('N1', 0, 0, 0)
    m.add_node('N2', 4.0, 0, 0)
    m.add_node('N3', 4.0, 2, 0)
    m.add_node('N4', 0.0, 2, 0)
    m.add_member('M1', 'N1', 'N2', 'Mat', 1e-4, 1e-4, 1e-4, 0.01)
    m.add_quad('Q1', 'N1', 'N2', 'N3', 'N4', 0.2, 'Mat')
    m.def_support('N1', *[True]*6)
    for p in loads:
        m.add_member_pt_load('M1', 'FY', p, 2.0)
    labels = set()
    for name, args in calls:
        before = public_state(m)
        try:
            getattr(m, name)(*args)
        except Exception:
            pass
        else:
            raise Violation(f'{name}{tuple(args)} was accepted')
        require(public_state(m) == before, f'{name}{tuple(args)} was refused but changed the model')
        labels.add('refused ' + name)
    specs.analyze(m, 'linear')
    return labels


# ---------------------------------------------------------------------------- shells: pressures split and distributed over cases
def check_shell(arg):
    spec, which, seed, kind = arg
    return check((spec, which, seed, kind))


kinds = st.sampled_from(['linear', 'general'])
CASES = [
    Case('rewrite', st.tuples(loaded(), st.lists(st.sampled_from(sorted(REWRITES)), min_size=1, max_size=2, unique=True), st.integers(0, 999), kinds), check,
         quick=1600, thorough=30000),
    Case('shell', st.tuples(gen.shells(max_n=2), st.lists(st.sampled_from(['split_pieces', 'split_cases', 'order']), min_size=1, max_size=2, unique=True),
                            st.integers(0, 999), kinds), check_shell, quick=160, thorough=3000),
    Case('refused', st.tuples(st.lists(bad_calls.map(lambda c: [c[0], list(c[1])]), min_size=1, max_size=6), st.lists(gen.mag, max_size=2)), check_refused,
         quick=400, thorough=4000),
]

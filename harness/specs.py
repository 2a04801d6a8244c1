"""JSON-able model specifications, the builder that turns one into a PyNite model through its public
interface, and readers that collect the results a PyNite model reports."""
from . import env  # noqa: F401
import contextlib
import io

import numpy as np
from PyNite import FEModel3D
from PyNite.Section import Section

DOF = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
FORCE = ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')
RXN = ('RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ')
LOCAL = ('Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz')


def empty():
    return {'nodes': [], 'mats': [], 'members': [], 'springs': [], 'plates': [], 'quads': [], 'sup': [], 'sprsup': [],
            'disp': [], 'nl': [], 'pl': [], 'dl': [], 'sw': [], 'pp': [], 'combos': []}


def copy(spec):
    import json
    return json.loads(json.dumps(spec))


class Names:
    """Default naming of the items of a specification."""

    def node(self, i): return f'N{i + 1}'
    def aux(self, i): return f'A{i + 1}'
    def mat(self, i): return f'Mat{i + 1}'
    def sec(self, i): return f'Sec{i + 1}'
    def member(self, i): return f'M{i + 1}'
    def spring(self, i): return f'S{i + 1}'
    def plate(self, i): return f'P{i + 1}'
    def quad(self, i): return f'Q{i + 1}'
    def case(self, i): return f'Case {i + 1}'
    def combo(self, i): return f'Combo {i + 1}'


NAMES = Names()


def length(spec, m):
    a, b = spec['nodes'][m['i']], spec['nodes'][m['j']]
    return ((a[0] - b[0])**2 + (a[1] - b[1])**2 + (a[2] - b[2])**2)**0.5


def combos(spec):
    """[(factors by case index, tags)]; the default combination when none is defined."""
    if not spec.get('combos'):
        return [({0: 1.0}, None)]
    return [({int(k): v for k, v in c[0].items()}, c[1] if len(c) > 1 else None) for c in spec['combos']]


def build(spec, names=NAMES, order=None, model=None):
    """Builds the model. `order` optionally maps an item kind to a permutation of its indices."""
    n = names
    order = order or {}

    def seq(kind, items):
        idx = order.get(kind)
        rng = range(len(items)) if idx is None else idx
        return [(i, items[i]) for i in rng]

    m = model if model is not None else FEModel3D()
    for i, a in seq('mats', spec['mats']):
        m.add_material(n.mat(i), *a)
    for i, p in seq('nodes', spec['nodes']):
        m.add_node(n.node(i), *p)
    for i, e in seq('members', spec['members']):
        aux = None
        if e.get('aux') is not None:
            aux = n.aux(i)
            m.add_auxnode(aux, *e['aux'])
        kw = {'tension_only': e.get('tc') == 't', 'comp_only': e.get('tc') == 'c'}
        if e.get('sec'):
            m.add_section(n.sec(i), Section(m, n.sec(i), e['A'], e['Iy'], e['Iz'], e['J'], n.mat(e['mat'])))
            m.add_member(n.member(i), n.node(e['i']), n.node(e['j']), n.mat(e['mat']), aux_node=aux, section_name=n.sec(i), **kw)
        else:
            m.add_member(n.member(i), n.node(e['i']), n.node(e['j']), n.mat(e['mat']), e['Iy'], e['Iz'], e['J'], e['A'], aux_node=aux, **kw)
        if e.get('rel'):
            m.def_releases(n.member(i), *[bool(r) for r in e['rel']])
    for i, e in seq('springs', spec['springs']):
        m.add_spring(n.spring(i), n.node(e['i']), n.node(e['j']), e['ks'], tension_only=e.get('tc') == 't', comp_only=e.get('tc') == 'c')
    for i, e in seq('plates', spec['plates']):
        m.add_plate(n.plate(i), *[n.node(k) for k in e['n']], e['t'], n.mat(e['mat']), e.get('kx', 1.0), e.get('ky', 1.0))
    for i, e in seq('quads', spec['quads']):
        m.add_quad(n.quad(i), *[n.node(k) for k in e['n']], e['t'], n.mat(e['mat']), e.get('kx', 1.0), e.get('ky', 1.0))
    for _, (k, s) in seq('sup', spec['sup']):
        m.def_support(n.node(k), *[bool(b) for b in s])
    for _, (k, d, ks, way) in seq('sprsup', spec['sprsup']):
        m.def_support_spring(n.node(k), DOF[d], ks, way)
    for _, (k, d, v) in seq('disp', spec['disp']):
        m.def_node_disp(n.node(k), DOF[d], v)
    apply_loads(m, spec, names, order)
    for i, (f, tags) in seq('combos', combos(spec) if spec.get('combos') else []):
        fac = {n.case(k): v for k, v in f.items()}
        if tags is None:
            m.add_load_combo(n.combo(i), fac)
        else:
            m.add_load_combo(n.combo(i), fac, list(tags))
    return m


def _case(n, c):
    return {} if c is None else {'case': n.case(c)}


def apply_loads(m, spec, names=NAMES, order=None):
    n = names
    order = order or {}

    def seq(kind, items):
        idx = order.get(kind)
        return items if idx is None else [items[i] for i in idx]

    for k, d, p, c in seq('nl', spec['nl']):
        m.add_node_load(n.node(k), FORCE[d], p, **_case(n, c))
    for k, d, p, x, c in seq('pl', spec['pl']):
        m.add_member_pt_load(n.member(k), d, p, x, **_case(n, c))
    for k, d, w1, w2, x1, x2, c in seq('dl', spec['dl']):
        m.add_member_dist_load(n.member(k), d, w1, w2, x1, x2, **_case(n, c))
    for d, f, c in seq('sw', spec['sw']):
        m.add_member_self_weight(d, f, **_case(n, c))
    for kind, k, p, c in seq('pp', spec['pp']):
        if kind == 'plate':
            m.add_plate_surface_pressure(n.plate(k), p, **_case(n, c))
        else:
            m.add_quad_surface_pressure(n.quad(k), p, **_case(n, c))


ANALYSES = ('general', 'linear', 'pdelta')


def analyze(m, kind='linear', **kw):
    """Runs an analysis; returns what it printed."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if kind == 'general':
            m.analyze(**kw)
        elif kind == 'linear':
            m.analyze_linear(**kw)
        else:
            m.analyze_PDelta(**kw)
    return out.getvalue()


def num(v):
    return float(np.asarray(v).reshape(-1)[0])


def disp(m, combo, names=NAMES, count=None):
    count = len(m.nodes) if count is None else count
    return np.array([[num(getattr(m.nodes[names.node(i)], d)[combo]) for d in DOF] for i in range(count)]).reshape(-1, 6)


def reac(m, combo, names=NAMES, count=None):
    count = len(m.nodes) if count is None else count
    return np.array([[num(getattr(m.nodes[names.node(i)], d)[combo]) for d in RXN] for i in range(count)]).reshape(-1, 6)


def vec(a):
    return np.asarray(a, dtype=float).reshape(-1)


MEMBER_RESULTS = ('axial', 'Fy', 'Fz', 'torque', 'My', 'Mz', 'dx', 'dy', 'dz')


def at(mem, what, x, combo):
    """One pointwise result of a member."""
    if what == 'axial':
        return num(mem.axial(x, combo))
    if what == 'torque':
        return num(mem.torque(x, combo))
    if what in ('Fy', 'Fz'):
        return num(mem.shear(what, x, combo))
    if what in ('My', 'Mz'):
        return num(mem.moment(what, x, combo))
    if what in ('rdy', 'rdz'):
        return num(mem.rel_deflection(what[1:], x, combo))
    return num(mem.deflection(what, x, combo))


def extreme(mem, which, what, combo):
    if what == 'axial':
        return num(getattr(mem, which + '_axial')(combo))
    if what == 'torque':
        return num(getattr(mem, which + '_torque')(combo))
    if what in ('Fy', 'Fz'):
        return num(getattr(mem, which + '_shear')(what, combo))
    if what in ('My', 'Mz'):
        return num(getattr(mem, which + '_moment')(what, combo))
    return num(getattr(mem, which + '_deflection')(what, combo))


def array(mem, what, n, combo, x_array=None):
    if what == 'axial':
        return mem.axial_array(n, combo, x_array)
    if what == 'torque':
        return mem.torque_array(n, combo, x_array)
    if what in ('Fy', 'Fz'):
        return mem.shear_array(what, n, combo, x_array)
    if what in ('My', 'Mz'):
        return mem.moment_array(what, n, combo, x_array)
    if what in ('rdy', 'rdz'):
        return mem.rel_deflection_array(what[1:], n, combo, x_array)
    return mem.deflection_array(what, n, combo, x_array)


def member_values(m, name, xs, combo):
    """Table (position, result) of every pointwise member result."""
    mem = m.members[name]
    return np.array([[at(mem, w, x, combo) for w in MEMBER_RESULTS] for x in xs])

"""C13: one-way members, springs and supports."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import close, compare_solution
from ..refmodel import Ref
from .c01 import load_resultants

RULE = ('the model has one-way elements and at least one of them is inactive in some combination of the converged analysis, or the '
        'analysis needed more iterations than allowed and said so')
ASSUMPTIONS = ['the frame without its one-way elements is stable, so removal of all of them still leaves a solvable structure',
               'loads on inactive members are only required to be balanced by the reactions (how they reach the nodes is not specified)',
               'forces within 1e-6 of the largest force are neither tension nor compression']


@st.composite
def one_way_frames(draw, n_loads=(1, 5), kinds=('nl', 'pl', 'dl'), disp=True, cond=1e6, max_members=4, springs=True, loaded=False):
    spec = draw(gen.frames(min_members=2, max_members=max_members, extra=1, n_loads=n_loads, kinds=kinds, n_combos=(1, 3), disp=disp,
                           cond=cond, more_supports=2, springs=springs, sprsup=springs))
    n = len(spec['nodes'])
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(['member', 'member', 'spring', 'support', 'support', 'rigid']))
        if kind == 'support':
            k, d = draw(st.integers(0, n - 1)), draw(st.integers(0, 5))
            if any(s[0] == k and s[1][d] for s in spec['sup']) or any(s[0] == k and s[1] == d for s in spec['sprsup']):
                continue
            spec['sprsup'].append([k, d, draw(st.sampled_from([100.0, 2000.0, 3e4])), draw(st.sampled_from('+-'))])
            continue
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if i == j:
            continue
        if kind == 'spring':
            spec['springs'].append({'i': i, 'j': j, 'ks': draw(st.sampled_from([500.0, 8000.0, 1e5])), 'tc': draw(st.sampled_from('tc'))})
        else:
            m = {'i': i, 'j': j, 'mat': 0, **draw(gen.section()), 'tc': draw(st.sampled_from('tc'))}
            if kind == 'member':
                m['rel'] = [0, 0, 0, 0, 1, 1, 0, 0, 0, 1, 1, 1]
            spec['members'].append(m)
            if gen.near_colinear(spec, m) or (kind == 'member' and _inner(spec, m)):
                spec['members'].pop()
    ow = [i for i, e in enumerate(spec['members']) if e.get('tc')]
    if loaded and ow:
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.sampled_from(ow))
            L, c = specs.length(spec, spec['members'][i]), draw(gen.case_no)
            if draw(st.booleans()):
                spec['pl'].append([i, draw(st.sampled_from(['Fx', 'Fx', 'FX', 'FY', 'Fy'])), draw(gen.mag), draw(gen.frac)*L, c])
            else:
                a, b = sorted([draw(gen.frac), draw(gen.frac)])
                x1, x2 = (a*L, b*L) if b - a > 0.05 else (None, None)
                spec['dl'].append([i, draw(st.sampled_from(['Fx', 'FY', 'FZ'])), draw(gen.mag), draw(gen.mag), x1, x2, c])
    return spec


def _inner(spec, m):
    from ..refmodel import split_nodes
    return bool(split_nodes(spec, m))


def inactive(m, spec, combo, names=specs.NAMES):
    om = [i for i, e in enumerate(spec['members']) if not m.members[names.member(i)].active[combo]]
    os_ = [i for i, e in enumerate(spec['springs']) if not m.springs[names.spring(i)].active[combo]]
    D = specs.disp(m, combo, names, len(spec['nodes']))
    # a support acts when the displacement is in its direction
    sp = [q for q, (n, d, k, way) in enumerate(spec['sprsup']) if (way == '+' and D[n, d] < 0) or (way == '-' and D[n, d] > 0)]
    return om, os_, sp


def converged_is_consistent(m, spec, ci, names=specs.NAMES):
    factors = specs.combos(spec)[ci][0]
    combo = names.combo(ci)
    om, os_, sp = inactive(m, spec, combo, names)
    require(all(spec['members'][i].get('tc') for i in om) and all(spec['springs'][i].get('tc') for i in os_),
            f'{combo}: an ordinary member or spring was deactivated')
    ref = Ref(spec, om, os_, sp)
    sol = ref.solve(factors)
    sc = sol.scales()
    ftol = max(1e-9, 1e-6*sc[2])
    D = specs.disp(m, combo, names, len(spec['nodes']))
    for i, e in enumerate(spec['members']):
        if not e.get('tc'):
            continue
        mem = m.members[names.member(i)]
        L = specs.length(spec, e)
        xs = [0.0, 0.37*L, L]
        if any(q[0] == i for q in spec['pl'] + spec['dl']):
            xs = sorted({k*L/24 for k in range(25)} | {min(max(p.x0 + d + s*1e-6*L, 0.0), L) for p in ref.of_member[i] for d in p.discontinuities() for s in (-1, 1)})
        if i in om:
            vals = np.array([[specs.at(mem, w, x, combo) for w in specs.MEMBER_RESULTS[:6]] for x in xs])
            close(vals, np.zeros_like(vals), 0.0, f'{combo}: results of inactive member {i} [position, result]')
            close([specs.extreme(mem, q, 'axial', combo) for q in ('min', 'max')], [0.0, 0.0], 0.0, f'{combo}: extreme axial of inactive member {i}')
        else:
            a = [specs.at(mem, 'axial', x, combo) for x in xs]
            if e['tc'] == 't':
                require(max(a) <= ftol, f'{combo}: active tension-only member {i} is in compression ({max(a)})')
            else:
                require(min(a) >= -ftol, f'{combo}: active compression-only member {i} is in tension ({min(a)})')
    for i, e in enumerate(spec['springs']):
        if e.get('tc') and i not in os_:
            a = specs.num(m.springs[names.spring(i)].axial(combo))
            require(a <= ftol if e['tc'] == 't' else a >= -ftol, f'{combo}: active {e["tc"]}-only spring {i} has force {a}')
    off = {i for i in om for q in spec['pl'] + spec['dl'] if q[0] == i}
    if off:
        # how the loads of an inactive member reach its nodes is not specified, but they must be balanced
        R = specs.reac(m, combo, names, len(spec['nodes']))
        total = -sum((f for _, f, _ in load_resultants(spec, factors)), np.zeros(3))
        close(R[:, :3].sum(axis=0), total, max(1e-9, 1e-6*max(sc[2], np.abs(R).max(), np.abs(total).max())),
              f'{combo}: sum of the reactions with loads on inactive members {sorted(off)}')
        return True
    check_needed(spec, factors, combo, om, os_)
    td = np.array([sc[0]]*3 + [sc[1]]*3)*1e-6 + 1e-13
    close(D, sol.D, td, f'{combo}: displacements against the linear model without the inactive elements {om} {os_} {sp} [node, dof]')
    tf = np.array([sc[2]]*3 + [sc[3]]*3)*1e-6 + 1e-9
    close(specs.reac(m, combo, names, len(spec['nodes'])), sol.R, tf, f'{combo}: reactions against the linear model without the inactive elements [node, dof]')
    for i in range(len(spec['members'])):
        if i not in om:
            close(specs.vec(m.members[names.member(i)].f(combo)), sol.member_f(i), np.concatenate([tf, tf]), f'{combo}: end forces of member {i}')
    for i, e in enumerate(spec['springs']):
        if i not in os_:
            close(specs.num(m.springs[names.spring(i)].axial(combo)), -sol.spring[i], tf[0], f'{combo}: force of spring {i}')
    return bool(om or os_ or sp)


def check_needed(spec, factors, combo, om, os_):
    """If everything already acts its own way when all is active, nothing may be deactivated."""
    if not om and not os_:
        return
    ref = Ref(spec)
    sol = ref.solve(factors)
    m = max(1e-9, 1e-5*sol.scales()[2])
    u = sol.scales()
    for n, d, k, way in spec['sprsup']:
        v = sol.D[n, d]*(1 if way == '+' else -1)
        if way and v <= 1e-5*u[0 if d < 3 else 1]:
            return
    for i, e in enumerate(spec['springs']):
        if e.get('tc') and not (-sol.spring[i]*(1 if e['tc'] == 'c' else -1) > m):
            return
    for i, e in enumerate(spec['members']):
        if e.get('tc'):
            L = specs.length(spec, e)
            xs = [0.0, L] if not any(q[0] == i for q in spec['pl'] + spec['dl']) else [k*L/24 for k in range(25)] + [
                min(max(p.x0 + d + s*1e-6*L, 0.0), L) for p in ref.of_member[i] for d in p.discontinuities() for s in (-1, 1)]
            if not all(sol.at(i, x)['axial']*(1 if e['tc'] == 'c' else -1) > m for x in xs):
                return
    raise Violation(f'{combo}: members {om} and springs {os_} were deactivated although every one-way element acts its own way with all of them active')


def check(arg):
    spec, max_iter, sparse = arg
    m = specs.build(spec)
    try:
        specs.analyze(m, 'general', max_iter=max_iter, sparse=sparse)
    except Exception as e:
        if 'diverged' in str(e):
            require(max_iter < 30 or any(s[3] for s in spec['sprsup']),
                    'members and springs can only be deactivated once each, yet the analysis did not converge')
            return {'failure to converge reported'}
        raise
    labels = set()
    for ci in range(len(specs.combos(spec))):
        if converged_is_consistent(m, spec, ci):
            labels.add('inactive elements')
    if len({tuple(map(tuple, inactive(m, spec, specs.NAMES.combo(ci)))) for ci in range(len(specs.combos(spec)))}) > 1:
        labels.add('different elements active in different combinations')
    return labels


def check_again(spec):
    """A second analysis starts from scratch."""
    m = specs.build(spec)
    try:
        specs.analyze(m, 'general')
        specs.analyze(m, 'general')
    except Exception as e:
        if 'diverged' in str(e):
            return ()
        raise
    return {'analysed twice'} if any([converged_is_consistent(m, spec, ci) for ci in range(len(specs.combos(spec)))]) else ()


def check_pdelta(spec):
    """Second order: active elements act only their way, and the result is that of a P-Delta analysis without the inactive ones."""
    m = specs.build(spec)
    try:
        specs.analyze(m, 'pdelta')
    except Exception as e:
        if 'diverged' in str(e) or 'singular' in str(e).lower() or 'unstable' in str(e).lower():
            return ()
        raise
    labels = set()
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        combo = specs.NAMES.combo(ci)
        om, os_, sp = inactive(m, spec, combo)
        left = specs.copy(spec)
        keep_m = [i for i in range(len(spec['members'])) if i not in om]
        keep_s = [i for i in range(len(spec['springs'])) if i not in os_]
        left['members'] = [left['members'][i] for i in keep_m]
        left['springs'] = [left['springs'][i] for i in keep_s]
        left['sprsup'] = [s for q, s in enumerate(left['sprsup']) if q not in sp]
        for e in left['members'] + left['springs']:
            e.pop('tc', None)
        for s in left['sprsup']:
            s[3] = None
        new = {old: k for k, old in enumerate(keep_m)}
        for key in ('pl', 'dl'):
            left[key] = [[new[q[0]]] + q[1:] for q in left[key] if q[0] in new]
        sol = Ref(left).solve(factors)
        sc = sol.scales()
        m2 = specs.build(left)
        specs.analyze(m2, 'pdelta')
        n = len(spec['nodes'])
        D, D2 = specs.disp(m, combo, count=n), specs.disp(m2, combo, count=n)
        u = max(sc[0], np.abs(D2).max())
        close(D, D2, u*1e-6 + 1e-12, f'{combo}: P-Delta displacements against the model without inactive elements {om} {os_} {sp} [node, dof]')
        ftol = max(1e-9, 1e-6*sc[2])
        for i in keep_m:
            e = spec['members'][i]
            if e.get('tc'):
                mem = m.members[specs.NAMES.member(i)]
                a = [specs.at(mem, 'axial', x, combo) for x in (0.0, specs.length(spec, e))]
                require(max(a) <= ftol if e['tc'] == 't' else min(a) >= -ftol, f'{combo}: active one-way member {i} acts the wrong way after P-Delta ({a})')
        if om or os_ or sp:
            labels.add('inactive elements')
    return labels


CASES = [
    Case('general', st.tuples(one_way_frames(), st.sampled_from([30, 30, 30, 1, 2]), st.booleans()), check, quick=1600, thorough=40000),
    Case('loaded', st.tuples(one_way_frames(loaded=True), st.just(30), st.booleans()), check, quick=640, thorough=16000),
    Case('again', one_way_frames(), check_again, quick=240, thorough=6000),
    Case('pdelta', one_way_frames(disp=False, n_loads=(1, 4)), check_pdelta, quick=240, thorough=6000),
]

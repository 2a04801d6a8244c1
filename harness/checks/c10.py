"""C10: released member ends carry no force and leave the rest intact."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, require
from ..oracle import close, compare_solution, results, same, scales_of, size
from ..refmodel import Ref

RULE = 'at least one member has a release, the structure is stable and some result is not zero; labels name the released components'
ASSUMPTIONS = ['hinges and sliders of the reference are additional unknowns of the end displacements, not condensed',
               'P-Delta members carry the axial force due to their axial strain']
NAMES12 = ('Dxi', 'Dyi', 'Dzi', 'Rxi', 'Ryi', 'Rzi', 'Dxj', 'Dyj', 'Dzj', 'Rxj', 'Ryj', 'Rzj')


@st.composite
def released(draw, n_loads=(1, 5), max_members=4, **kw):
    """A frame with as many releases as keep it stable."""
    spec = draw(gen.frames(max_members=max_members, n_loads=n_loads, **kw))
    for m in spec['members']:
        if not m.get('rel') and draw(st.integers(0, 3)) > 0:
            for _ in range(2):
                m['rel'] = draw(gen.release_set())
                if gen.ok(spec):
                    break
                m['rel'] = [0]*12
    return spec


def ends(m, mi):
    subs = list(m.members[specs.NAMES.member(mi)].sub_members.values())
    return subs[0], subs[-1]


def zero_at_releases(m, spec, combo, rtol=1e-9):
    labels = set()
    u_, r_, force, mom, Lc = scales_of(m, spec, combo)
    for mi, e in enumerate(spec['members']):
        rel = e.get('rel')
        if not rel or not any(rel):
            continue
        a, b = ends(m, mi)
        f = np.concatenate([specs.vec(a.f(combo))[:6], specs.vec(b.f(combo))[6:]])
        s = max(1e-6, np.abs(specs.vec(a.f(combo))).max(), np.abs(specs.vec(b.f(combo))).max(),
                np.abs(specs.vec(a._fer_unc(combo))).max(), np.abs(specs.vec(b._fer_unc(combo))).max(), force)
        g = specs.vec(m.members[specs.NAMES.member(mi)].f(combo))
        for c in range(12):
            if rel[c]:
                close(f[c], 0.0, rtol*s, f'{combo}: force at the released {NAMES12[c]} of member {mi}')
                close(g[c], 0.0, rtol*s, f'{combo}: end force at the released {NAMES12[c]} of member {mi}')
                if s > 1e-5:
                    labels.add(NAMES12[c])
        # the diagrams agree
        L = specs.length(spec, e)
        mem = m.members[specs.NAMES.member(mi)]
        loaded0 = any(q[0] == mi and q[3] < 1e-6*L for q in spec['pl'])
        loaded1 = any(q[0] == mi and q[3] > (1 - 1e-6)*L for q in spec['pl'])
        for off, x, skip in ((0, 0.0, loaded0), (6, L, loaded1)):
            for c, w in ((0, 'axial'), (1, 'Fy'), (2, 'Fz'), (3, 'torque'), (4, 'My'), (5, 'Mz')):
                if rel[off + c] and not skip:
                    close(specs.at(mem, w, x, combo), 0.0, 3e-6*(s + force)*max(1.0, L, Lc), f'{combo}: {w} of member {mi} at its released end {x:.4g}')
    return labels


def check(arg):
    spec, kind = arg
    m = specs.build(spec)
    specs.analyze(m, kind)
    ref = Ref(spec)
    labels = set()
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        combo = specs.NAMES.combo(ci)
        labels |= zero_at_releases(m, spec, combo)
        compare_solution(m, spec, ref.solve(factors), combo)
    return labels


def check_restore(arg):
    """Releases come and go through def_releases(), by position or by name."""
    spec, kind, order = arg
    plain = specs.copy(spec)
    for e in plain['members']:
        e.pop('rel', None)
    if not gen.ok(plain) or not gen.ok(spec):
        return ()
    m = specs.build(plain)
    specs.analyze(m, kind)
    n = len(specs.combos(spec))
    before = [results(m, spec, f'Combo {k + 1}') for k in range(n)]
    for mi, e in enumerate(spec['members']):
        if e.get('rel'):
            m.def_releases(specs.NAMES.member(mi), **{NAMES12[c]: bool(e['rel'][c]) for c in range(12) if e['rel'][c]})
    specs.analyze(m, kind)
    fresh = specs.build(spec)
    specs.analyze(fresh, kind)
    changed = False
    for k in range(n):
        a, b = results(m, spec, f'Combo {k + 1}'), results(fresh, spec, f'Combo {k + 1}')
        same(a, b, f'releases defined after an analysis, combination {k + 1}', rtol=1e-9)
        zero_at_releases(m, spec, f'Combo {k + 1}')
        s = size(b)
        changed = changed or any(np.abs(b[q] - before[k][q]).max(initial=0) > 1e-4*s for q in b)
    for mi in order:
        if mi < len(spec['members']):
            if mi % 2:
                m.def_releases(specs.NAMES.member(mi))
            else:
                m.def_releases(specs.NAMES.member(mi), *[False]*12)
    for mi in range(len(spec['members'])):
        m.def_releases(specs.NAMES.member(mi))
    specs.analyze(m, kind)
    for k in range(n):
        same(results(m, spec, f'Combo {k + 1}'), before[k], f'releases set back to fixed, combination {k + 1}', rtol=1e-9)
    return {'changed by releases', kind} if changed else ()


def check_second(spec):
    """P-Delta: released components carry no force."""
    if not gen.ok(spec):
        return ()
    m = specs.build(spec)
    try:
        specs.analyze(m, 'pdelta')
    except Exception as e:
        if 'singular' in str(e).lower() or 'unstable' in str(e).lower():
            return ()
        raise
    labels = set()
    for ci in range(len(specs.combos(spec))):
        combo = specs.NAMES.combo(ci)
        for mi, e in enumerate(spec['members']):
            rel = e.get('rel')
            if not rel or not any(rel):
                continue
            a, b = ends(m, mi)
            f = np.concatenate([specs.vec(a.f(combo))[:6], specs.vec(b.f(combo))[6:]])
            s = max(1e-6, np.abs(specs.vec(a.f(combo))).max(), np.abs(specs.vec(b.f(combo))).max(), np.abs(specs.vec(a._fer_unc(combo))).max())
            for c in range(12):
                if rel[c]:
                    close(f[c], 0.0, 1e-6*s, f'{combo}: second-order force at the released {NAMES12[c]} of member {mi}')
                    if abs(f[0]) > 1e-6:
                        labels.add('second order ' + NAMES12[c])
    return labels


kinds = st.sampled_from(['linear', 'general'])
CASES = [
    Case('frame', st.tuples(released(), kinds), check, quick=960, thorough=24000),
    Case('single', st.tuples(released(min_members=1, max_members=1, extra=0), kinds), check, quick=800, thorough=16000),
    Case('restore', st.tuples(released(max_members=3), kinds, st.lists(st.integers(0, 4), max_size=4)), check_restore, quick=240, thorough=5000),
    Case('second', released(disp=False, max_members=3), check_second, quick=240, thorough=5000),
]

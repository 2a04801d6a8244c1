"""C09: a node along a member changes nothing but continuity with it."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import close, results, same, scales_of
from ..refmodel import split_nodes

RULE = 'at least one member passes through one or more intermediate nodes and carries non-zero results'
ASSUMPTIONS = ['intermediate nodes lie on the member axis up to round-off', 'values exactly at an intermediate node or load may be taken from either side']


@st.composite
def collinear(draw, n_loads=(1, 5), kinds=('pl', 'dl', 'pl', 'dl', 'nl', 'sw'), tc=False, disp=True):
    """A frame, and one to four members of which pass through other nodes of the model."""
    spec = specs.empty()
    spec['mats'] = [list(m) for m in gen.MATS[:2]]
    v = np.array(draw(gen.step()))*draw(st.sampled_from([1.0, 2.0]))
    o = np.array(draw(st.sampled_from([[0.0, 0.0, 0.0], [3.5, -2.25, 10.0], [-40.0, 25.5, 7.75]])))
    # nodes along the line, in any order of definition
    k = draw(st.integers(1, 4))
    ts = sorted(draw(st.lists(st.one_of(st.integers(1, 15).map(lambda q: q/16), st.integers(3, 97).map(lambda q: q/100)), min_size=k, max_size=k, unique=True)))
    ts = [t for q, t in enumerate(ts) if (q == 0 or t - ts[q - 1] > 0.02)]
    on_line = [0.0] + ts + [1.0]
    pts = [list(map(float, o + t*v)) for t in on_line]
    perm = draw(st.permutations(range(len(pts))))
    spec['nodes'] = [pts[q] for q in perm]
    where = {q: i for i, q in enumerate(perm)}
    ends = [where[0], where[len(pts) - 1]]
    if draw(st.booleans()):
        ends.reverse()
    aux = None
    if draw(st.integers(0, 3)) == 0:
        from ..refmodel import axes
        x = axes(spec['nodes'][ends[0]], spec['nodes'][ends[1]])
        a = draw(st.integers(1, 15))*np.pi/8
        aux = [round(float(c), 3) for c in np.array(spec['nodes'][ends[0]]) + 2*(np.cos(a)*x[1] + np.sin(a)*x[2])]
    main = {'i': ends[0], 'j': ends[1], 'mat': draw(st.integers(0, 1)), **draw(gen.section())}
    if aux:
        main['aux'] = aux
    spec['members'].append(main)
    # members off the line, attached to any of its nodes
    for _ in range(draw(st.integers(0, 3))):
        i = draw(st.integers(0, len(spec['nodes']) - 1))
        p = [a + b for a, b in zip(spec['nodes'][i], draw(gen.step()))]
        if any(gen._close(p, q) for q in spec['nodes']):
            continue
        spec['nodes'].append(p)
        m = {'i': i, 'j': len(spec['nodes']) - 1, 'mat': 0, **draw(gen.section())}
        spec['members'].append(m)
        if any(gen.near_colinear(spec, e) for e in spec['members']):
            spec['nodes'].pop()
            spec['members'].pop()
    # a second member over part of the line
    if len(on_line) > 3 and draw(st.integers(0, 2)) == 0:
        a, b = sorted(draw(st.lists(st.integers(0, len(on_line) - 1), min_size=2, max_size=2, unique=True)))
        spec['members'].append({'i': where[a], 'j': where[b], 'mat': 0, **draw(gen.section())})
    draw(st.randoms(use_true_random=False)).shuffle(spec['members'])
    draw(gen.supports(spec, 3, True))
    draw(gen.weaken(spec))
    if disp:
        draw(gen.settlements(spec))
    draw(gen.loads(spec, *n_loads, kinds=kinds))
    draw(gen.combinations(spec, 0, 2))
    return spec


def chain(spec):
    """Every member replaced by separate members between adjacent nodes. Returns (spec, pieces by member)."""
    out = specs.copy(spec)
    out['members'], out['pl'], out['dl'] = [], [], []
    pieces = []
    for mi, e in enumerate(spec['members']):
        L = specs.length(spec, e)
        stops = [(0.0, e['i'])] + split_nodes(spec, e) + [(L, e['j'])]
        mine = []
        rel = e.get('rel') or [0]*12
        for q in range(len(stops) - 1):
            n = dict(e)
            n['i'], n['j'] = stops[q][1], stops[q + 1][1]
            n['rel'] = (list(rel[:6]) if q == 0 else [0]*6) + (list(rel[6:]) if q == len(stops) - 2 else [0]*6)
            if e.get('aux'):        # the local axes of the whole member
                a = np.array(spec['nodes'][e['i']])
                n['aux'] = [float(c) for c in np.array(e['aux']) - a + np.array(spec['nodes'][n['i']])]
            mine.append((len(out['members']), stops[q][0], stops[q + 1][0]))
            out['members'].append(n)
        pieces.append(mine)
    for k, d, p, x, c in spec['pl']:
        for q, a, b in pieces[k]:
            if x < b - 1e-9 or (q, a, b) == pieces[k][-1]:
                out['pl'].append([q, d, p, min(max(x - a, 0.0), specs.length(out, out['members'][q])), c])
                break
    for k, d, w1, w2, x1, x2, c in spec['dl']:
        L = specs.length(spec, spec['members'][k])
        x1, x2 = (0.0 if x1 is None else x1), (L if x2 is None else x2)
        for q, a, b in pieces[k]:
            lo, hi = max(x1, a), min(x2, b)
            if hi - lo > 1e-9:
                at = lambda x: w1 + (w2 - w1)*(x - x1)/(x2 - x1)
                out['dl'].append([q, d, at(lo), at(hi), lo - a, min(hi - a, specs.length(out, out['members'][q])), c])
    return out, pieces


def compare(m, spec, m2, spec2, pieces, combo, fracs, rtol=1e-6):
    u, r, f, mo, Lc = scales_of(m2, spec2, combo)
    td = np.array([u]*3 + [r]*3)*rtol + 1e-13
    tf = np.array([f]*3 + [mo]*3)*rtol + 1e-9
    n = len(spec['nodes'])
    close(specs.disp(m, combo, count=n), specs.disp(m2, combo, count=n), td, f'{combo}: displacements against the chain of separate members [node, dof]')
    close(specs.reac(m, combo, count=n), specs.reac(m2, combo, count=n), tf, f'{combo}: reactions against the chain of separate members [node, dof]')
    tol = np.array([f, f, f, mo, mo, mo, u, u, u])*rtol*5 + np.array([1e-9]*6 + [1e-13]*3)
    N = specs.NAMES
    for mi, e in enumerate(spec['members']):
        mem = m.members[N.member(mi)]
        if 'tc' not in e:
            close(specs.vec(mem.f(combo)), np.concatenate([specs.vec(m2.members[N.member(pieces[mi][0][0])].f(combo))[:6],
                                                           specs.vec(m2.members[N.member(pieces[mi][-1][0])].f(combo))[6:]]),
                  np.concatenate([tf, tf])*5, f'{combo}: end forces of member {mi}')
        L = specs.length(spec, e)
        for q, a, b in pieces[mi]:
            one = m2.members[N.member(q)]
            for x in fracs:
                got = np.array([specs.at(mem, w, a + x*(b - a), combo) for w in specs.MEMBER_RESULTS])
                want = np.array([specs.at(one, w, x*(b - a), combo) for w in specs.MEMBER_RESULTS])
                if not (np.abs(got - want) <= tol).all():        # on a load: either side
                    lo = np.array([specs.at(one, w, max(x - 1e-7, 0)*(b - a), combo) for w in specs.MEMBER_RESULTS])
                    hi = np.array([specs.at(one, w, min(x + 1e-7, 1)*(b - a), combo) for w in specs.MEMBER_RESULTS])
                    t2 = tol + 1e-6*(np.abs(lo) + np.abs(hi))
                    k = np.argmax(np.minimum(np.abs(got - lo), np.abs(got - hi)) - t2)
                    if not (np.minimum(np.abs(got - lo), np.abs(got - hi)) <= t2).all():
                        raise Violation(f'{combo}: {specs.MEMBER_RESULTS[k]} of member {mi} at {a + x*(b - a):.6g} of {L:.6g} is {got[k]!r}, '
                                        f'that of the separate member there {want[k]!r}')
        for w, t in zip(specs.MEMBER_RESULTS, tol):
            if w == 'dx':
                continue
            for which, fn in (('max', max), ('min', min)):
                want = fn(specs.extreme(m2.members[N.member(q)], which, w, combo) for q, a, b in pieces[mi])
                close(specs.extreme(mem, which, w, combo), want, t*2, f'{combo}: {which} {w} of member {mi} against the separate members')
    return f > 1e-6


def run(spec, kind):
    m = specs.build(spec)
    specs.analyze(m, kind)
    return m


def check(arg):
    spec, fracs, kind = arg
    if not gen.ok(spec):
        return ()
    spec2, pieces = chain(spec)
    m, m2 = run(spec, kind), run(spec2, kind)
    labels = set()
    for ci in range(len(specs.combos(spec))):
        if compare(m, spec, m2, spec2, pieces, specs.NAMES.combo(ci), fracs) and any(len(p) > 1 for p in pieces):
            labels |= {f'{len(p)} pieces' for p in pieces if len(p) > 1} | {kind}
    return labels


def check_second(arg):
    """Second order, where the axial forces stay well below buckling."""
    spec, fracs = arg
    if not gen.ok(spec):
        return ()
    for e in spec['members']:
        if e.get('rel'):
            e['rel'] = [0]*12
    for key in ('nl', 'pl', 'dl'):
        pass
    spec2, pieces = chain(spec)
    try:
        m, m2 = run(spec, 'pdelta'), run(spec2, 'pdelta')
    except Exception as e:
        if 'singular' in str(e).lower() or 'unstable' in str(e).lower():
            return ()
        raise
    from .c07 import critical
    labels = set()
    for ci in range(len(specs.combos(spec))):
        combo = specs.NAMES.combo(ci)
        if critical(m, spec, combo) or critical(m2, spec2, combo):
            continue
        if compare(m, spec, m2, spec2, pieces, combo, fracs, 1e-5) and any(len(p) > 1 for p in pieces):
            labels.add('second order')
    return labels


def check_added(arg):
    """Adding a node on a member, with nothing attached to it."""
    spec, k, t, kind = arg
    m = run(spec, kind)
    other = specs.copy(spec)
    e = spec['members'][k % len(spec['members'])]
    a, b = np.array(spec['nodes'][e['i']]), np.array(spec['nodes'][e['j']])
    p = [float(c) for c in a + t*(b - a)]
    if any(gen._close(p, q) for q in spec['nodes']):
        return ()
    # in front of another member's axis it would join that one too
    other['nodes'].append(p)
    hit = [i for i, q in enumerate(other['members']) if any(nd == len(spec['nodes']) for _, nd in split_nodes(other, q))]
    if hit != [k % len(spec['members'])] or any(gen.near_colinear(other, q) for q in other['members']):
        return ()
    m2 = run(other, kind)
    big = False
    for ci in range(len(specs.combos(spec))):
        combo = specs.NAMES.combo(ci)
        fr = (0.00037, 0.2307, 0.48713, 0.81109, 0.99963)
        want = results(m, spec, combo, fracs=fr)
        got = results(m2, spec, combo, fracs=fr)
        s = same(got, want, f'{combo}: results after adding a node on member {k % len(spec["members"])}', rtol=3e-6)
        big = big or s['f'] > 1e-6
    return {'node added', kind} if big else ()


frs = st.lists(gen.frac.map(lambda q: 0.0007 + 0.9986*q), min_size=1, max_size=4, unique=True)
CASES = [
    Case('chain', st.tuples(collinear(), frs, st.sampled_from(['linear', 'general'])), check, quick=640, thorough=16000),
    Case('second', st.tuples(collinear(disp=False), frs), check_second, quick=200, thorough=4000),
    Case('added', st.tuples(gen.frames(max_members=3), st.integers(0, 3), st.integers(2, 98).map(lambda q: q/100), st.sampled_from(['linear', 'general'])), check_added,
         quick=320, thorough=6000),
]

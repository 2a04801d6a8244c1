"""C07: member diagrams satisfy statics and beam theory everywhere."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import RTOL, close
from ..refmodel import Ref

RULE = 'some member has non-zero results; labels name the kinds of load present on members'
ASSUMPTIONS = ['reference diagrams (harness/refmodel.py) integrate the loads with singularity functions, written independently of PyNite',
               'at the position of a concentrated load either the left or the right value is accepted',
               'second order: the reported moment is the first-order cut moment plus the axial force times the reported deflection relative to '
               'the start of the member; members with varying axial force are not included']

SIGN_MY = -1.0      # PyNite reports My with the sign opposite to the end moment at the i-node


def positions(spec, mi, ref, fracs):
    L = specs.length(spec, spec['members'][mi])
    xs = [f*L for f in fracs] + [0.0, L]
    for p in ref.of_member[mi]:
        xs += [p.x0 + d for d in p.discontinuities()]
    return sorted(set(xs)), L


def expected(sol, mi, x, L):
    """Left and right values."""
    e = 1e-9*L
    out = []
    for q in (max(x - e, 0.0) if x > 0 else 0.0, min(x + e, L)):
        d = sol.at(mi, q)
        d['My'] *= SIGN_MY
        d['Mz'] *= 1.0
        out.append(np.array([d[w] for w in specs.MEMBER_RESULTS]))
    d = sol.at(mi, x)
    for o in out:                # deflections are continuous
        o[6:] = [d[w] for w in ('dx', 'dy', 'dz')]
    return out


def compare_at(mem, spec, sol, mi, xs, L, combo, tol):
    for x in xs:
        got = np.array([specs.at(mem, w, x, combo) for w in specs.MEMBER_RESULTS])
        a, b = expected(sol, mi, x, L)
        for k, w in enumerate(specs.MEMBER_RESULTS):
            if not (abs(got[k] - a[k]) <= tol[k] or abs(got[k] - b[k]) <= tol[k]):
                raise Violation(f'{combo}: {w} of member {mi} at x = {x:.6g} of {L:.6g} is {got[k]!r} instead of {a[k]!r}'
                                + (f' or {b[k]!r}' if abs(a[k] - b[k]) > tol[k] else ''))


def check(arg):
    spec, fracs, kind = arg
    m = specs.build(spec)
    specs.analyze(m, kind)
    ref = Ref(spec)
    labels = set()
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        sol = ref.solve(factors)
        u, r, f, mo, Lc = sol.scales()
        tol = np.array([f, f, f, mo, mo, mo, u, u, u])*RTOL*2 + np.array([1e-9]*6 + [1e-13]*3)
        for mi in range(len(spec['members'])):
            xs, L = positions(spec, mi, ref, fracs)
            compare_at(m.members[specs.NAMES.member(mi)], spec, sol, mi, xs, L, specs.NAMES.combo(ci), tol)
            mem = m.members[specs.NAMES.member(mi)]
            rel = spec['members'][mi].get('rel') or [0]*12
            if len(mem.sub_members) == 1 and not any(rel[q] for q in (1, 2, 7, 8)):
                d0, d1 = specs.at(mem, 'dy', 0.0, specs.NAMES.combo(ci)), specs.at(mem, 'dy', L, specs.NAMES.combo(ci))
                e0, e1 = specs.at(mem, 'dz', 0.0, specs.NAMES.combo(ci)), specs.at(mem, 'dz', L, specs.NAMES.combo(ci))
                for x in xs:
                    for w, a, b in (('rdy', d0, d1), ('rdz', e0, e1)):
                        v = specs.at(mem, w, x, specs.NAMES.combo(ci))
                        want = specs.at(mem, w[1:], x, specs.NAMES.combo(ci)) - (a + (b - a)*x/L)
                        close(v, want, tol[8]*2, f'relative deflection {w} of member {mi} at {x}')
        if f > 1e-6:
            for key, name in (('pl', 'point load'), ('dl', 'distributed load'), ('sw', 'self weight')):
                if spec[key]:
                    labels.add(name)
            labels.add('loaded')
    return labels


# ---------------------------------------------------------------------------- second order
@st.composite
def second_case(draw):
    spec = draw(gen.frames(max_members=4, kinds=('nl',), disp=False, n_loads=(1, 3), n_combos=(0, 2), cond=1e5))
    nm = len(spec['members'])
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, nm - 1))
        L = specs.length(spec, spec['members'][k])
        c = draw(gen.case_no)
        if draw(st.booleans()):
            spec['pl'].append([k, draw(st.sampled_from(['Fy', 'Fz', 'My', 'Mz'])), draw(gen.mag), draw(gen.frac)*L, c])
        else:
            a, b = sorted([draw(gen.frac), draw(gen.frac)])
            x1, x2 = (a*L, b*L) if b - a > 0.05 else (None, None)
            spec['dl'].append([k, draw(st.sampled_from(['Fy', 'Fz'])), draw(gen.mag), draw(gen.mag), x1, x2, c])
    return [spec, draw(st.lists(gen.frac, min_size=3, max_size=5))]


def critical(m, spec, combo):
    """Whether some member carries compression beyond a quarter of its Euler load."""
    for i, e in enumerate(spec['members']):
        mem = m.members[specs.NAMES.member(i)]
        E = spec['mats'][e['mat']][0]
        for s in mem.sub_members.values():
            P = abs(float(specs.vec(s.f(combo))[0]))
            if P > 2.5*E*min(e['Iy'], e['Iz'])/s.L()**2:
                return True
    return False


def check_second(arg):
    spec, fracs = arg
    m = specs.build(spec)
    try:
        specs.analyze(m, 'pdelta')
    except Exception as e:
        if 'singular' in str(e).lower() or 'unstable' in str(e).lower():
            return ()
        raise
    ref = Ref(spec)
    labels = set()
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        combo = specs.NAMES.combo(ci)
        if critical(m, spec, combo):
            continue
        for mi in range(len(spec['members'])):
            mem = m.members[specs.NAMES.member(mi)]
            subs = list(mem.sub_members.values())
            require(len(subs) == len(ref.of_member[mi]), f'member {mi} consists of {len(subs)} pieces instead of {len(ref.of_member[mi])}')
            for p, s in zip(ref.of_member[mi], subs):
                f = specs.vec(s.f(combo))
                d = np.zeros(12)
                fs = max(1e-3, np.abs(f[:3]).max(), np.abs(f[3:6]).max()/p.L, np.abs(f[9:]).max()/p.L)
                fer = p.fer(factors)
                fs = max(fs, np.abs(fer[:3]).max(), np.abs(fer[3:6]).max()/p.L)
                tol = 1e-6*fs + 1e-9
                d0 = {w: specs.at(s, w, 0.0, combo) for w in ('dy', 'dz')}
                for x in sorted({q*p.L for q in fracs} | set(p.discontinuities())):
                    got = {w: specs.at(s, w, x, combo) for w in ('axial', 'Fy', 'Fz', 'torque', 'My', 'Mz', 'dy', 'dz')}
                    lo = p.diagram(f, d, factors, max(x - 1e-9*p.L, 0.0))
                    hi = p.diagram(f, d, factors, min(x + 1e-9*p.L, p.L))
                    for w in ('axial', 'Fy', 'Fz', 'torque', 'My', 'Mz'):
                        add = 0.0
                        if w == 'Mz':
                            add = f[0]*(got['dy'] - d0['dy'])
                        elif w == 'My':
                            add = f[0]*(got['dz'] - d0['dz'])
                        sg = SIGN_MY if w == 'My' else 1.0
                        t = tol*(p.L if w[0] in 'Mt' else 1.0)
                        if not min(abs(got[w] - sg*lo[w] - add), abs(got[w] - sg*hi[w] - add)) <= t:
                            raise Violation(f'{combo}: second-order {w} of member {mi} at {x:.6g} of {p.L:.6g} is {got[w]!r} instead of {sg*lo[w] + add!r}')
                rel = s.Releases
                if not any(rel[q] for q in (1, 2, 7, 8)):
                    d1 = {w: specs.at(s, w, p.L, combo) for w in ('dy', 'dz')}
                    dn = specs.vec(s.d(combo))
                    for x in (fracs[0]*p.L, fracs[-1]*p.L):
                        for w, a, b in (('dy', dn[1], dn[7]), ('dz', dn[2], dn[8])):
                            want = specs.at(s, w, x, combo) - (a + (b - a)*x/p.L)
                            close(specs.at(s, 'r' + w, x, combo), want, 1e-6*(abs(a) + abs(b) + abs(d1[w]) + abs(want)) + 1e-13,
                                  f'{combo}: second-order relative deflection {w} of member {mi} at {x:.6g}')
                    # deflections: continuous and matching the curvature of the reported moment
                h = 1e-3*p.L
                x = fracs[0]*p.L
                if all(abs(x - q) > 3*h for q in p.discontinuities()) and h < x < p.L - h:
                    for w, mw, EI in (('dy', 'Mz', p.E*p.Iz), ('dz', 'My', p.E*p.Iy)):
                        v = [specs.at(s, w, x + q*h, combo) for q in (-1, 0, 1)]
                        curv = (v[0] - 2*v[1] + v[2])/h**2
                        want = -specs.at(s, mw, x, combo)/EI
                        mscale = (abs(f[5]) + abs(f[11]) + abs(f[4]) + abs(f[10]) + fs*p.L)/EI
                        close(curv, want, 2e-4*mscale + 1e-9*max(abs(q) for q in v)/h**2, f'{combo}: curvature of second-order {w} of member {mi} at {x:.6g} of {p.L:.6g}')
                if abs(f[0]) > 1e-6 and (abs(f[4:6]).max() > 1e-6):
                    labels.add('axial force with bending')
    return labels


CASES = [
    Case('frame', st.tuples(gen.frames(max_members=4), st.lists(gen.frac, min_size=2, max_size=5), st.sampled_from(['linear', 'general'])), check, quick=640, thorough=20000),
    Case('single', st.tuples(gen.frames(min_members=1, max_members=1, extra=0, n_loads=(1, 4), kinds=('pl', 'dl', 'sw')), st.lists(gen.frac, min_size=3, max_size=8),
                             st.sampled_from(['linear', 'general'])), check, quick=960, thorough=30000),
    Case('second', second_case(), check_second, quick=400, thorough=8000),
]

"""Comparisons shared by the checks. Every tolerance is relative to the largest magnitude in the model at hand."""
from . import env  # noqa: F401
import numpy as np

from . import specs
from .common import Violation
from .specs import NAMES

RTOL = 1e-6


def close(a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation(f'{what}: {a.shape} values instead of {b.shape}')
    bad = ~(np.abs(a - b) <= tol)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(np.isnan(a - b), np.inf, np.abs(a - b)*bad)), a.shape)
        raise Violation(f'{what}{list(int(v) for v in i) if i else ""}: {a[i]!r} instead of {b[i]!r} (tolerance {np.asarray(tol).max():.3g})')


def tol_row(ref_scales, rtol=RTOL):
    """Tolerances of a node's six displacements and six forces."""
    u, r, f, mo, Lc = ref_scales
    return (np.array([u]*3 + [r]*3)*rtol + 1e-13, np.array([f]*3 + [mo]*3)*rtol + 1e-9)


def compare_solution(m, spec, sol, combo, names=NAMES, rtol=RTOL, members=True):
    """Displacements, reactions, member end forces and spring forces against a reference solution."""
    sc = sol.scales()
    td, tf = tol_row(sc, rtol)
    n = len(spec['nodes'])
    close(specs.disp(m, combo, names, n), sol.D, td, f'{combo} nodal displacements [node, dof]')
    close(specs.reac(m, combo, names, n), sol.R, tf, f'{combo} reactions [node, dof]')
    if members:
        for i in range(len(spec['members'])):
            close(specs.vec(m.members[names.member(i)].f(combo)), sol.member_f(i), np.concatenate([tf, tf]), f'{combo} end forces of member {i}')
        for i in range(len(spec['springs'])):
            close(specs.num(m.springs[names.spring(i)].axial(combo)), -sol.spring[i], tf[0], f'{combo} force of spring {i}')


def result_tols(sc, rtol=RTOL):
    """Tolerances of specs.MEMBER_RESULTS."""
    u, r, f, mo, Lc = sc
    return np.array([f, f, f, mo, mo, mo, u, u, u])*rtol + np.array([1e-9]*6 + [1e-13]*3)


def scales_of(m, spec, combo, names=NAMES):
    """Magnitudes taken from the PyNite results themselves (for relations between two analyses)."""
    D, R = specs.disp(m, combo, names), specs.reac(m, combo, names)
    P = np.array(spec['nodes'])
    Lc = max([specs.length(spec, e) for e in spec['members']] + ([] if spec['members'] else [float(np.ptp(P, axis=0).max()) or 1.0]))
    u = max(np.abs(D[:, :3]).max(initial=0), Lc*np.abs(D[:, 3:]).max(initial=0))
    f = max(np.abs(R[:, :3]).max(initial=0), np.abs(R[:, 3:]).max(initial=0)/Lc)
    fac = dict(specs.combos(spec)[int(combo.split()[-1]) - 1][0]) if combo.startswith('Combo ') else {}
    for k, d, p, c in spec['nl']:
        f = max(f, abs(p*fac.get(c or 0, 0.0))/(1.0 if d < 3 else Lc))
    for i in range(len(spec['members'])):
        v = specs.vec(m.members[names.member(i)].f(combo))
        f = max(f, np.abs(v[[0, 1, 2, 6, 7, 8]]).max(), np.abs(v[[3, 4, 5, 9, 10, 11]]).max()/Lc)
    return u, u/Lc, f, f*Lc, Lc


# ---------------------------------------------------------------------------- everything a model reports
PLATE_PTS = ((0.5, 0.5), (0.0, 0.0), (1.0, 0.25), (0.3, 1.0))


class Results(dict):
    """name -> array of the results of one combination; the first character of the name is the kind:
    u translation, r rotation, f force, m moment, F force per length, M moment per length."""
    Lc = 1.0

    def group_scales(self):
        s = {}
        for k, v in self.items():
            s[k[0]] = max(s.get(k[0], 0.0), float(np.abs(v).max(initial=0)))
        L = self.Lc
        u = max(s.get('u', 0.0), s.get('r', 0.0)*L)
        f = max(s.get('f', 0.0), s.get('m', 0.0)/L)
        p = max(s.get('F', 0.0), s.get('M', 0.0)/L, f/L)
        return {'u': u, 'r': u/L, 'f': f, 'm': f*L, 'F': p, 'M': p*L}


def results(m, spec, combo, names=NAMES, fracs=(0.0, 0.23, 0.5, 0.81, 1.0), loads=True, springs=True, plate_pts=PLATE_PTS, skip_members=()):
    """Collects the results of one combination, items in the order of the specification."""
    out = Results()
    n = len(spec['nodes'])
    D, R = specs.disp(m, combo, names, n), specs.reac(m, combo, names, n)
    out['u nodes'], out['r nodes'] = D[:, :3], D[:, 3:]
    out['f reactions'], out['m reactions'] = R[:, :3], R[:, 3:]
    Ls = [specs.length(spec, e) for e in spec['members']]
    P = np.array(spec['nodes'], float).reshape(-1, 3)
    out.Lc = max(Ls) if Ls else (float(np.ptp(P, axis=0).max()) or 1.0)
    for i, e in enumerate(spec['members']):
        if i in skip_members:
            continue
        mem = m.members[names.member(i)]
        v = specs.vec(mem.f(combo)).reshape(4, 3)
        out[f'f end forces of member {i}'], out[f'm end forces of member {i}'] = v[[0, 2]], v[[1, 3]]
        t = np.array([[specs.at(mem, w, x*Ls[i], combo) for w in specs.MEMBER_RESULTS] for x in fracs])
        out[f'f member {i} [position, axial/Fy/Fz]'] = t[:, :3]
        out[f'm member {i} [position, torque/My/Mz]'] = t[:, 3:6]
        out[f'u member {i} [position, dx/dy/dz]'] = t[:, 6:]
    if springs:
        for i in range(len(spec['springs'])):
            out[f'f spring {i}'] = np.array([specs.num(m.springs[names.spring(i)].axial(combo))])
    for kind in ('plate', 'quad'):
        for i, e in enumerate(spec[kind + 's']):
            p = getattr(m, kind + 's')[getattr(names, kind)(i)]
            v = specs.vec(p.f(combo)).reshape(8, 3)
            out[f'f corner forces of {kind} {i}'], out[f'm corner forces of {kind} {i}'] = v[0::2], v[1::2]
            pts = [(2*a - 1, 2*b - 1) if kind == 'quad' else (a*p.width(), b*p.height()) for a, b in plate_pts]
            t = p.t
            out[f'F {kind} {i} [point, Qx/Qy]'] = np.array([specs.vec(p.shear(a, b, True, combo)) for a, b in pts])
            out[f'M {kind} {i} [point, Mx/My/Mxy]'] = np.array([specs.vec(p.moment(a, b, True, combo)) for a, b in pts])
            out[f'F {kind} {i} [point, Sx/Sy/Txy times t]'] = np.array([specs.vec(p.membrane(a, b, True, combo)) for a, b in pts])*t
    return out


def combine(parts):
    """Linear combination of results: parts is [(factor, Results)]."""
    out = Results()
    out.Lc = parts[0][1].Lc
    for k in parts[0][1]:
        out[k] = sum(f*r[k] for f, r in parts)
    return out


def scale_max(*rs, factors=None):
    s = {}
    for q, r in enumerate(rs):
        for k, v in r.group_scales().items():
            s[k] = max(s.get(k, 0.0), v*(abs(factors[q]) if factors else 1.0))
    return s


FLOOR = {'u': 1e-13, 'r': 1e-13, 'f': 1e-6, 'm': 1e-6, 'F': 1e-6, 'M': 1e-6}     # (round-off of settlements times stiffness)


def same(a, b, what, scales=None, rtol=RTOL, keys=None):
    s = scales or scale_max(a, b)
    if set(a) != set(b):
        raise Violation(f'{what}: different sets of results {sorted(set(a) ^ set(b))}')
    for k in (keys or b):
        close(a[k], b[k], rtol*s[k[0]] + FLOOR[k[0]], f'{what}: {k[2:]}')
    return s


def size(r):
    g = r.group_scales()
    return max(g['f'], g['u'])

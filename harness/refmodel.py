"""Independent reference: dense linear elastic space frame with releases as additional unknowns, consistent loads
by numerical integration, and diagrams by equilibrium of the cut-off part. Written from the textbook theory;
shares no code with PyNite."""
from . import env  # noqa: F401
from math import factorial

import numpy as np

from .specs import DOF, FORCE, combos, length

GAUSS = np.polynomial.legendre.leggauss(5)


def axes(a, b, aux=None):
    """Rows: local x, y, z of a member from a to b."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    x = (b - a)/np.linalg.norm(b - a)
    if aux is not None:
        # the auxiliary node lies in the local x-z plane, on the positive z side
        y = np.cross(np.asarray(aux, float) - a, x)
        y = y/np.linalg.norm(y)
        return np.array([x, y, np.cross(x, y)])
    if abs(x[0]) < 1e-9 and abs(x[2]) < 1e-9:
        s = 1.0 if x[1] > 0 else -1.0
        x = np.array([0.0, s, 0.0])
        return np.array([x, [-s, 0.0, 0.0], [0.0, 0.0, 1.0]])
    z = np.cross(x, [0.0, 1.0, 0.0])
    z = z/np.linalg.norm(z)
    return np.array([x, np.cross(z, x), z])


def k_beam(E, G, A, Iy, Iz, J, L):
    k = np.zeros((12, 12))

    def put(idx, m):
        k[np.ix_(idx, idx)] += m
    two = np.array([[1.0, -1.0], [-1.0, 1.0]])
    put([0, 6], E*A/L*two)
    put([3, 9], G*J/L*two)
    h = np.array([[12.0, 6*L, -12.0, 6*L], [6*L, 4*L*L, -6*L, 2*L*L], [-12.0, -6*L, 12.0, -6*L], [6*L, 2*L*L, -6*L, 4*L*L]])
    put([1, 5, 7, 11], E*Iz/L**3*h)
    s = np.diag([1.0, -1.0, 1.0, -1.0])
    put([2, 4, 8, 10], E*Iy/L**3*(s @ h @ s))
    return k


def kg_beam(P, L, r2=0.0):
    """Consistent geometric stiffness for an axial tension P (r2: squared polar radius of gyration)."""
    k = np.zeros((12, 12))
    h = np.array([[36.0, 3*L, -36.0, 3*L], [3*L, 4*L*L, -3*L, -L*L], [-36.0, -3*L, 36.0, -3*L], [3*L, -L*L, -3*L, 4*L*L]])/(30*L)
    s = np.diag([1.0, -1.0, 1.0, -1.0])
    k[np.ix_([1, 5, 7, 11], [1, 5, 7, 11])] += P*h
    k[np.ix_([2, 4, 8, 10], [2, 4, 8, 10])] += P*(s @ h @ s)
    k[np.ix_([3, 9], [3, 9])] += P*r2/L*np.array([[1.0, -1.0], [-1.0, 1.0]])
    return k


def shape(x, L):
    """Displacements (u, v, w, twist) and rotations (θy, θz) at x as rows over the 12 end displacements."""
    t = x/L
    n = [1 - 3*t**2 + 2*t**3, L*(t - 2*t**2 + t**3), 3*t**2 - 2*t**3, L*(-t**2 + t**3)]
    d = [(-6*t + 6*t**2)/L, 1 - 4*t + 3*t**2, (6*t - 6*t**2)/L, -2*t + 3*t**2]
    N = np.zeros((6, 12))
    N[0, 0], N[0, 6] = 1 - t, t
    N[3, 3], N[3, 9] = 1 - t, t
    N[1, [1, 5, 7, 11]] = n
    N[5, [1, 5, 7, 11]] = d
    N[2, [2, 4, 8, 10]] = [n[0], -n[1], n[2], -n[3]]
    N[4, [2, 4, 8, 10]] = [-d[0], d[1], -d[2], d[3]]
    return N


class Part:
    """A member or the piece of one between two adjacent nodes."""

    def __init__(self, owner, i, j, x0, x1, R, props, rel):
        self.owner, self.i, self.j, self.x0, self.x1 = owner, i, j, x0, x1
        self.L = x1 - x0
        self.R = R
        self.E, self.G, self.A, self.Iy, self.Iz, self.J = props
        self.rel = list(rel)
        self.pts, self.dists = [], []       # local: (vec6, x, case) ; (vec3, vec3, x1, x2, case)
        self.extra = {}
        self.T12 = np.kron(np.eye(4), R)

    def loads(self, factors):
        pts = [(v*factors.get(c, 0.0), x) for v, x, c in self.pts]
        ds = [(a*factors.get(c, 0.0), b*factors.get(c, 0.0), x1, x2) for a, b, x1, x2, c in self.dists]
        return pts, ds

    def fer(self, factors):
        """Fixed-end reactions."""
        out = np.zeros(12)
        pts, ds = self.loads(factors)
        for v, x in pts:
            out -= shape(x, self.L).T @ v
        for a, b, x1, x2 in ds:
            for g, w in zip(*GAUSS):
                s = 0.5*(x2 - x1)*(g + 1) + x1
                q = np.zeros(6)
                q[:3] = a + (b - a)*(s - x1)/(x2 - x1)
                out -= shape(s, self.L).T @ q*(w*0.5*(x2 - x1))
        return out

    def discontinuities(self):
        xs = {0.0, self.L}
        for _, x, _ in self.pts:
            xs.add(x)
        for _, _, x1, x2, _ in self.dists:
            xs |= {x1, x2}
        return sorted(xs)

    def diagram(self, f, d, factors, x):
        """Local internal forces and deflections at x from equilibrium of the part left of x and the moment
        curvature relation. f: end forces, d: end displacements of the member itself (behind its releases)."""
        pts, ds = self.loads(factors)

        def mac(a, n):
            return (x - a)**n/factorial(n) if x > a else 0.0

        def force(c, n):        # n-fold integral of the transverse/axial force c over the length
            r = f[c]*x**n/factorial(n)
            for v, a in pts:
                r += v[c]*mac(a, n)
            for w1, w2, x1, x2 in ds:
                s = (w2[c] - w1[c])/(x2 - x1)
                r += w1[c]*mac(x1, n + 1) + s*mac(x1, n + 2) - w2[c]*mac(x2, n + 1) - s*mac(x2, n + 2)
            return r

        def mom(c, n):
            r = f[c]*x**n/factorial(n)
            for v, a in pts:
                r += v[c]*mac(a, n)
            return r

        EIy, EIz, EA = self.E*self.Iy, self.E*self.Iz, self.E*self.A
        return {
            'axial': force(0, 0), 'Fy': force(1, 0), 'Fz': force(2, 0), 'torque': mom(3, 0),
            'My': mom(4, 0) + force(2, 1), 'Mz': mom(5, 0) - force(1, 1),
            'dx': d[0] - force(0, 1)/EA,
            'dy': d[1] + d[5]*x - (mom(5, 2) - force(1, 3))/EIz,
            'dz': d[2] - d[4]*x + (mom(4, 2) + force(2, 3))/EIy,
        }


def split_nodes(spec, m, tol=1e-7):
    """Nodes strictly inside a member: [(position, node)] sorted."""
    a, b = np.array(spec['nodes'][m['i']]), np.array(spec['nodes'][m['j']])
    L = np.linalg.norm(b - a)
    x = (b - a)/L
    out = []
    for k, p in enumerate(spec['nodes']):
        if k in (m['i'], m['j']):
            continue
        r = np.array(p) - a
        s = r @ x
        if tol*L < s < L*(1 - tol) and np.linalg.norm(r - s*x) < tol*L:
            out.append((s, k))
    return sorted(out)


class Ref:
    def __init__(self, spec, off_members=(), off_springs=(), off_sprsup=(), axial=None):
        """axial: axial tension by part (for the geometric stiffness), or None."""
        self.spec = spec
        self.n = len(spec['nodes'])
        self.off_springs, self.off_sprsup = set(off_springs), set(off_sprsup)
        self.parts = []
        self.of_member = []
        ndof = 6*self.n
        for mi, m in enumerate(spec['members']):
            mine = []
            self.of_member.append(mine)
            if mi in off_members:
                continue
            nodes = spec['nodes']
            R = axes(nodes[m['i']], nodes[m['j']], m.get('aux'))
            mat = spec['mats'][m['mat']]
            L = length(spec, m)
            stops = [(0.0, m['i'])] + split_nodes(spec, m) + [(L, m['j'])]
            for k in range(len(stops) - 1):
                rel = [False]*12
                if m.get('rel'):
                    if k == 0:
                        rel[:6] = m['rel'][:6]
                    if k == len(stops) - 2:
                        rel[6:] = m['rel'][6:]
                p = Part(mi, stops[k][1], stops[k + 1][1], stops[k][0], stops[k + 1][0], R,
                         (mat[0], mat[1], m['A'], m['Iy'], m['Iz'], m['J']), rel)
                for c in range(12):
                    if rel[c]:
                        p.extra[c] = ndof
                        ndof += 1
                mine.append(p)
                self.parts.append(p)
        self._loads()
        self.ndof = ndof
        K = np.zeros((ndof, ndof))
        for q, p in enumerate(self.parts):
            B = np.zeros((12, ndof))
            B[:, [6*p.i + c for c in range(6)] + [6*p.j + c for c in range(6)]] = p.T12
            for c, e in p.extra.items():
                B[c, :] = 0.0
                B[c, e] = 1.0
            p.B = B
            p.k = k_beam(p.E, p.G, p.A, p.Iy, p.Iz, p.J, p.L)
            if axial is not None:
                p.k = p.k + kg_beam(axial[q], p.L, (p.Iy + p.Iz)/p.A)
            K += B.T @ p.k @ B
        self.spring_x = {}
        for si, s in enumerate(spec['springs']):
            a, b = np.array(spec['nodes'][s['i']]), np.array(spec['nodes'][s['j']])
            x = (b - a)/np.linalg.norm(b - a)
            v = np.zeros(ndof)
            v[6*s['i']:6*s['i'] + 3] = -x
            v[6*s['j']:6*s['j'] + 3] = x
            self.spring_x[si] = v
            if si not in self.off_springs:
                K += s['ks']*np.outer(v, v)
        self.K0 = K.copy()                                       # elements only
        sp = {}
        for q, (node, d, ks, way) in enumerate(spec['sprsup']):
            sp[(node, d)] = (q, ks)                               # a later definition replaces an earlier one
        self.sprsup = sp
        for (node, d), (q, ks) in sp.items():
            if q not in self.off_sprsup:
                K[6*node + d, 6*node + d] += ks
        self.K = K
        known = {}
        for node, s in spec['sup']:
            for d in range(6):
                known.pop(6*node + d, None)
                if s[d]:
                    known[6*node + d] = 0.0
        for node, d, v in spec['disp']:
            known[6*node + d] = v
        self.known = known
        self.supported = set(known)     # an enforced displacement holds the node like a support
        self.free = [i for i in range(ndof) if i not in known]

    def _loads(self):
        spec = self.spec

        def member_local(mi, d, v):
            R = self.of_member[mi][0].R
            return R @ v if d[1].isupper() else v
        comp = {'x': 0, 'y': 1, 'z': 2}
        for mi, d, P, x, c in spec['pl']:
            if not self.of_member[mi]:
                continue
            v = np.zeros(3)
            v[comp[d[1].lower()]] = P
            v6 = np.zeros(6)
            v6[(0 if d[0] == 'F' else 3):(3 if d[0] == 'F' else 6)] = member_local(mi, d, v)
            parts = self.of_member[mi]
            for p in parts:
                if x < p.x1 or p is parts[-1]:
                    p.pts.append((v6, min(max(x - p.x0, 0.0), p.L), c or 0))
                    break
        dist = [(mi, d, w1, w2, x1, x2, c) for mi, d, w1, w2, x1, x2, c in spec['dl']]
        for d, f, c in spec['sw']:
            for mi, m in enumerate(spec['members']):
                w = f*spec['mats'][m['mat']][3]*m['A']
                dist.append((mi, d, w, w, None, None, c))
        for mi, d, w1, w2, x1, x2, c in dist:
            parts = self.of_member[mi]
            if not parts:
                continue
            L = length(spec, spec['members'][mi])
            x1 = 0.0 if x1 is None else x1
            x2 = L if x2 is None else x2
            if x2 <= x1:
                continue
            a, b = np.zeros(3), np.zeros(3)
            a[comp[d[1].lower()]], b[comp[d[1].lower()]] = w1, w2
            a, b = member_local(mi, d, a), member_local(mi, d, b)
            for p in parts:
                lo, hi = max(x1, p.x0), min(x2, p.x1)
                if hi - lo > 1e-12*L:
                    at = lambda s: a + (b - a)*(s - x1)/(x2 - x1)
                    p.dists.append((at(lo), at(hi), lo - p.x0, hi - p.x0, c or 0))

    def cond(self):
        """Condition number of the diagonally scaled stiffness of the unknown displacements."""
        if not self.free:
            return 1.0
        K = self.K[np.ix_(self.free, self.free)]
        d = np.diag(K)
        if (d <= 0).any():
            return np.inf
        s = 1/np.sqrt(d)
        K = K*np.outer(s, s)
        w = np.linalg.eigvalsh((K + K.T)/2)
        return w[-1]/w[0] if w[0] > 0 else np.inf

    def nodal(self, factors):
        P = np.zeros(self.ndof)
        for node, d, p, c in self.spec['nl']:
            P[6*node + d] += p*factors.get(c or 0, 0.0)
        return P

    def solve(self, factors):
        P = self.nodal(factors)
        F = P.copy()
        for p in self.parts:
            F -= p.B.T @ p.fer(factors)
        D = np.zeros(self.ndof)
        for i, v in self.known.items():
            D[i] = v
        kn = sorted(self.known)
        if self.free:
            rhs = F[self.free] - (self.K[np.ix_(self.free, kn)] @ D[kn] if kn else 0.0)
            D[self.free] = np.linalg.solve(self.K[np.ix_(self.free, self.free)], rhs)
        return Solution(self, factors, D, F, P)


class Solution:
    def __init__(self, ref, factors, D, F, P):
        self.ref, self.factors = ref, factors
        self.D = D[:6*ref.n].reshape(-1, 6)
        self.full = D
        R = ref.K0 @ D - F
        out = np.zeros(6*ref.n)
        for i in ref.supported:
            out[i] += R[i]
        for (node, d), (q, ks) in ref.sprsup.items():
            if q not in ref.off_sprsup and 6*node + d not in ref.supported:
                out[6*node + d] -= ks*D[6*node + d]
        self.R = out.reshape(-1, 6)
        self.f, self.d = {}, {}
        for q, p in enumerate(ref.parts):
            d = p.B @ D
            self.d[q] = d
            self.f[q] = p.k @ d + p.fer(factors)
        self.spring = [0.0 if si in ref.off_springs else ref.spec['springs'][si]['ks']*(v @ D) for si, v in ref.spring_x.items()]

    def member_f(self, mi):
        idx = [q for q, p in enumerate(self.ref.parts) if p.owner == mi]
        if not idx:
            return np.zeros(12)
        return np.concatenate([self.f[idx[0]][:6], self.f[idx[-1]][6:]])

    def at(self, mi, x):
        """All pointwise results of a member at x (right-hand value at part boundaries)."""
        parts = self.ref.of_member[mi]
        for p in parts:
            if x < p.x1 or p is parts[-1]:
                q = self.ref.parts.index(p)
                return p.diagram(self.f[q], self.d[q], self.factors, x - p.x0)

    def scales(self):
        """(displacement, rotation, force, moment) magnitudes for tolerances."""
        ref = self.ref
        Lc = max([p.L for p in ref.parts] + [1e-9]) if ref.parts else 1.0
        if not ref.parts and ref.spec['springs']:
            Lc = 1.0
        u = max(np.abs(self.D[:, :3]).max(initial=0), Lc*np.abs(self.D[:, 3:]).max(initial=0))
        f = 0.0
        for q, p in enumerate(ref.parts):
            v = self.f[q]
            f = max(f, np.abs(v[[0, 1, 2, 6, 7, 8]]).max(), np.abs(v[[3, 4, 5, 9, 10, 11]]).max()/Lc)
            fe = p.fer(self.factors)
            f = max(f, np.abs(fe[[0, 1, 2, 6, 7, 8]]).max(), np.abs(fe[[3, 4, 5, 9, 10, 11]]).max()/Lc)
        P = ref.nodal(self.factors)[:6*ref.n].reshape(-1, 6)
        f = max(f, np.abs(P[:, :3]).max(initial=0), np.abs(P[:, 3:]).max(initial=0)/Lc, np.abs(self.R[:, :3]).max(initial=0),
                np.abs(self.R[:, 3:]).max(initial=0)/Lc)
        return u, u/Lc, f, f*Lc, Lc


def solve_all(spec):
    ref = Ref(spec)
    return ref, [ref.solve(f) for f, _ in combos(spec)]


def strain_axial(sol):
    """Axial tension of every part from the stretch between its ends."""
    return [p.E*p.A*(sol.d[q][6] - sol.d[q][0])/p.L for q, p in enumerate(sol.ref.parts)]


def second_order_safe(spec, margin=2.5, cond=1e8):
    """Whether the structure stays stable at a multiple of its first-order axial forces, in every combination."""
    ref = Ref(spec)
    for factors, _ in combos(spec):
        try:
            ax = strain_axial(ref.solve(factors))
            for f in (1.0, margin):
                r = Ref(spec, axial=[f*a for a in ax])
                if not r.cond() < cond:
                    return False
        except np.linalg.LinAlgError:
            return False
    return True

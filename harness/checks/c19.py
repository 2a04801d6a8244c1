"""C19: editing keeps the model consistent and does what it says, whatever was done before."""
import copy as pycopy

import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import results, same

RULE = 'the history has at least three kinds of edits, one of them a deletion, merge, rename or refused addition (or, for whole structures, at least one node is merged)'
ASSUMPTIONS = ['merging is only asked for where no element would lose its length; nodes are joined to the first one within reach in the order of definition',
               'where merged nodes have different spring supports or enforced displacements in one direction, either may be kept']
END = {'springs': 'ij', 'members': 'ij', 'plates': 'ijmn', 'quads': 'ijmn'}
PREFIX = {'nodes': 'N', 'aux_nodes': 'AN', 'springs': 'S', 'members': 'M', 'plates': 'P', 'quads': 'Q'}
DOF = specs.DOF


def seen(m):
    """The model as its user sees it; raises a Violation where it is inconsistent."""
    s = {}
    s['nodes'] = {}
    for k, n in m.nodes.items():
        require(n.name == k, f'node {n.name} is listed as {k}')
        s['nodes'][k] = [(n.X, n.Y, n.Z), tuple(bool(getattr(n, 'support_' + d)) for d in DOF), tuple(tuple(getattr(n, 'spring_' + d)[:2]) for d in DOF),
                         tuple(getattr(n, 'Enforced' + d) for d in DOF), tuple(map(tuple, n.NodeLoads))]
    s['aux_nodes'] = {k: (n.X, n.Y, n.Z) for k, n in m.aux_nodes.items()}
    for kind, ends in END.items():
        s[kind] = {}
        for k, e in getattr(m, kind).items():
            require(e.name == k, f'{kind[:-1]} {e.name} is listed as {k}')
            names = []
            for q in ends:
                n = getattr(e, q + '_node')
                require(m.nodes.get(n.name) is n, f'{kind[:-1]} {k} refers to node {n.name}, which is not in the model under that name')
                names.append(n.name)
            if kind == 'springs':
                rest = (e.ks, e.tension_only, e.comp_only)
            elif kind == 'members':
                rest = (e.material_name, e.A, e.Iy, e.Iz, e.J, e.auxNode.name if e.auxNode else None, e.tension_only, e.comp_only, tuple(map(tuple, e.PtLoads)), tuple(map(tuple, e.DistLoads)), tuple(map(bool, e.Releases)))
            else:
                rest = (e.t, e.E, e.nu, e.kx_mod, e.ky_mod, tuple(map(tuple, e.pressures)))
            s[kind][k] = (tuple(names), rest)
    s['materials'] = {k: (q.name, q.E, q.G, q.nu, q.rho) for k, q in m.materials.items()}
    s['sections'] = {k: (q.A, q.Iy, q.Iz, q.J) for k, q in m.sections.items()}
    s['meshes'] = {}
    for k, q in m.meshes.items():
        for name, n in q.nodes.items():
            require(n.name == name and m.nodes.get(name) is n, f'mesh {k} lists node {n.name} as {name}, or it is not in the model')
        for name, e in q.elements.items():
            require(e.name == name and (m.plates if e.type == 'Rect' else m.quads).get(name) is e, f'mesh {k} lists element {e.name} as {name}, or it is not in the model')
        s['meshes'][k] = (sorted(q.nodes), sorted(q.elements))
    s['load_cases'] = m.load_cases
    s['orphans'] = list(m.orphaned_nodes())
    return s


def empty_state():
    return {k: {} for k in ('nodes', 'aux_nodes', 'springs', 'members', 'plates', 'quads', 'materials', 'sections', 'meshes')}


def derived(s):
    """Load cases and orphaned nodes that follow from a state."""
    cases = {q[2] for n in s['nodes'].values() for q in n[4]}
    cases |= {q[3] for e in s['members'].values() for q in e[1][8]} | {q[5] for e in s['members'].values() for q in e[1][9]}
    cases |= {q[1] for kind in ('plates', 'quads') for e in s[kind].values() for q in e[1][5]}
    used = {n for kind in END for e in s[kind].values() for n in e[0]}
    return sorted(cases), [n for n in s['nodes'] if n not in used]


class History:
    def __init__(self):
        from PyNite import FEModel3D
        self.m = FEModel3D()
        self.s = empty_state()
        self.labels = set()
        self.op_material(0, 0, 0)

    def agree(self, after):
        got = seen(self.m)
        want = dict(self.s)
        cases, orphans = derived(self.s)
        for k in want:
            if got[k] != want[k]:
                for name in list(got[k]) + list(want[k]):
                    a, b = got[k].get(name, 'absent'), want[k].get(name, 'absent')
                    if a != b and not (k == 'nodes' and a != 'absent' and b != 'absent' and alike(a, b)):
                        raise Violation(f'after {after}: {k} {name} is {a} instead of {b}')
        require(got['load_cases'] == cases, f'after {after}: load cases {got["load_cases"]} listed instead of {cases}')
        require(sorted(got['orphans']) == sorted(orphans), f'after {after}: orphaned nodes {got["orphans"]} listed instead of {orphans}')
        # where either value was right, carry on with the one kept
        self.s['nodes'] = {k: got['nodes'][k] for k in self.s['nodes']}

    def refused(self, what, f):
        before = seen(self.m)
        try:
            f()
        except Violation:
            raise
        except Exception:
            after = seen(self.m)
            require(after == before, f'{what} was refused, but changed the model')
            self.labels.add('refused')
            return
        raise Violation(f'{what} was not refused')

    def pick(self, kind, a):
        names = list(self.s[kind])
        return names[a % len(names)] if names else None

    def fresh(self, kind, a, b):
        """A name to add under: a new one, none (to be given one), or one in use (None, name, True)."""
        p = PREFIX[kind]
        if b % 5 == 0 and self.s[kind]:
            return self.pick(kind, a), True
        if b % 5 == 1:
            return [None, ''][a % 2], False
        name = [f'{p}{a % 12}', f'{p} {a}', f'{a}'][b % 3]
        return name, name in self.s[kind]

    def add(self, kind, name, used, f, state):
        if used:
            return self.refused(f'adding to {kind} under the name {name} in use', f)
        before = set(self.s[kind])
        got = f()
        if name:
            require(got is None or got == name, f'{name} was added to {kind} as {got}')
        else:
            new = set(getattr(self.m, kind)) - before
            require(len(new) == 1, f'adding without a name to {kind} left {sorted(getattr(self.m, kind))} after {sorted(before)}')
            require(got in new, f'the name {got} was returned for {new} in {kind}')
            name = new.pop()
        self.s[kind][name] = state
        self.labels.add('add ' + kind)

    def op_node(self, a, b, v):
        name, used = self.fresh('nodes', a, b)
        g = [2.0*((a//3) % 3), 2.0*((b//2) % 3), 3.0*(v % 2)]
        if v % 3 == 0:
            g = [c + [0.0, 2e-4, -2e-4][(a + b + i*v) % 3] for i, c in enumerate(g)]
        state = [tuple(g), (False,)*6, ((None, None),)*6, (None,)*6, ()]
        self.add('nodes', name, used, lambda: self.m.add_node(name, *g), state)

    def op_row(self, a, b, v):
        """Three nodes in a row of which only neighbours are within reach of each other, with something attached to each."""
        x = [60.0 + 3*(a % 4), 5.0*(b % 3), 0.0]
        at = [0.0, 6e-4, 1.2e-3]
        if v % 2:
            at.reverse()
        far = self.pick('nodes', b)
        for i, d in enumerate(at if v % 3 else at[:2]):
            g = (x[0] + d, x[1], x[2])
            new = self.m.add_node('', *g)
            require(new not in self.s['nodes'], f'the new node was named {new} like an old one')
            self.s['nodes'][new] = [g, (False,)*6, ((None, None),)*6, (None,)*6, ()]
            if far is not None and np.linalg.norm(np.array(self.s['nodes'][far][0]) - g) > 0.1:
                s = self.m.add_spring('', new, far, 5.0 + i)
                self.s['springs'][s] = ((new, far), (5.0 + i, False, False))
            if i == a % 3:
                self.m.def_support_spring(new, 'DY', 7.0)
                n = self.s['nodes'][new]
                n[2] = tuple((7.0, None) if k == 1 else q for k, q in enumerate(n[2]))

    def op_aux(self, a, b, v):
        name, used = self.fresh('aux_nodes', a, b)
        x = (50.0 + a, 40.0 + b, 30.0 + v)
        self.add('aux_nodes', name, used, lambda: self.m.add_auxnode(name, *x), x)

    def op_material(self, a, b, v):
        name = ['Mat', 'Steel', 'X'][a % 3]
        q = (3e7 + v, 1.2e7, 0.25, 20.0 + b)
        f = lambda: self.m.add_material(name, *q)
        if name in self.s['materials']:
            return self.refused(f'adding material {name} again', f)
        f()
        self.s['materials'][name] = (name,) + q

    def op_section(self, a, b, v):
        from PyNite.Section import Section
        name = ['Sec1', 'Sec2'][a % 2]
        q = (0.01 + b, 2e-5, 3e-5, 4e-5)
        f = lambda: self.m.add_section(name, Section(self.m, name, *q, self.pick('materials', b)))
        if name in self.s['sections']:
            return self.refused(f'adding section {name} again', f)
        f()
        self.s['sections'][name] = q

    def ends(self, n, a, b, v):
        names = list(self.s['nodes'])
        out = []
        for k in range(n):
            out.append(names[(a + k*(1 + b) + (v if k == 2 else 0)) % len(names)])
        return out

    def unknown(self, b, names):
        """With some probability replaces one of the names by one that is not in the model."""
        if b % 7 == 3:
            names = list(names)
            names[b % len(names)] = 'nowhere'
            return names, True
        return names, False

    def distinct(self, ends):
        return len({tuple(round(c) for c in self.s['nodes'][k][0]) for k in ends}) == len(ends)

    def op_spring(self, a, b, v):
        if len(self.s['nodes']) < 2:
            return
        e = self.ends(2, a, b, v)
        if not self.distinct(e):
            return
        name, used = self.fresh('springs', b, a)
        e, bad = self.unknown(a + b, e)
        rest = (10.0 + v, v % 3 == 0, v % 3 == 1)
        f = lambda: self.m.add_spring(name, *e, *rest)
        if bad:
            return self.refused(f'a spring between {e}', f)
        self.add('springs', name, used, f, (tuple(e), rest))

    def op_member(self, a, b, v):
        if len(self.s['nodes']) < 2:
            return
        e = self.ends(2, a, b, v)
        if not self.distinct(e):
            return
        name, used = self.fresh('members', b, a)
        e, bad = self.unknown(a + b, e)
        sec = self.pick('sections', a) if v % 2 else None
        mat = self.pick('materials', b)
        aux = self.pick('aux_nodes', v) if (a + v) % 3 == 0 else None
        what = f'a member between {e}'
        if (a + b + v) % 17 == 5:
            which = (a*b) % 3
            mat, sec, aux = ('nothing' if which == 0 else mat), ('nothing' if which == 1 else sec), ('nothing' if which == 2 else aux)
            bad, what = True, f'a member with {["material", "section", "auxiliary node"][which]} "nothing"'
        q = {'section_name': sec} if sec else {'Iy': 1e-4, 'Iz': 2e-4, 'J': 3e-4, 'A': 0.02}
        f = lambda: self.m.add_member(name, *e, mat, aux_node=aux, tension_only=v % 3 == 0, comp_only=v % 3 == 1, **q)
        if bad:
            return self.refused(what, f)
        A, Iy, Iz, J = self.s['sections'][sec] if sec else (0.02, 1e-4, 2e-4, 3e-4)
        self.add('members', name, used, f, (tuple(e), (mat, A, Iy, Iz, J, aux, v % 3 == 0, v % 3 == 1, (), (), (False,)*12)))

    def panel(self, kind, a, b, v):
        if len(self.s['nodes']) < 4:
            return
        e = self.ends(4, a, b, v)
        if not self.distinct(e):
            return
        name, used = self.fresh(kind, b, a)
        e, bad = self.unknown(a + b, e)
        mat = self.pick('materials', v)
        E, nu = self.s['materials'][mat][1], self.s['materials'][mat][3]
        t, kx, ky = 0.1*(1 + v), [1.0, 0.5][a % 2], [1.0, 0.35][b % 2]
        f = lambda: getattr(self.m, 'add_' + kind[:-1])(name, *e, t, mat, kx, ky)
        if bad:
            return self.refused(f'a {kind[:-1]} between {e}', f)
        self.add(kind, name, used, f, (tuple(e), (t, E, nu, kx, ky, ())))

    def op_plate(self, a, b, v):
        self.panel('plates', a, b, v)

    def op_quad(self, a, b, v):
        self.panel('quads', a, b, v)

    def op_mesh(self, a, b, v):
        name = [None, 'A', 'B'][a % 3]
        mat = self.pick('materials', b)
        if name in self.s['meshes']:
            return self.refused(f'adding mesh {name} again', lambda: self.m.add_rectangle_mesh(name, 1.0, 2.0, 2.0, 0.2, mat))
        before = {k: set(self.s[k]) for k in ('nodes', 'plates', 'quads')}
        typ = ['Quad', 'Rect'][b % 2]
        got = self.m.add_rectangle_mesh(name, 2.0, 2.0 + 2*(a % 2), 2.0, 0.2, mat, 0.5, 0.7, origin=[2.0*(v % 3), 0.0, 0.0], plane=['XY', 'XZ'][v % 2], element_type=typ)
        require(got in self.m.meshes and got not in self.s['meshes'] and (not name or got == name), f'mesh {name} was named {got}')
        self.m.meshes[got].generate()
        new = {k: [q for q in getattr(self.m, k) if q not in before[k]] for k in before}
        kind = 'quads' if typ == 'Quad' else 'plates'
        for k in new['nodes']:
            n = self.m.nodes[k]
            self.s['nodes'][k] = [(n.X, n.Y, n.Z), (False,)*6, ((None, None),)*6, (None,)*6, ()]
        E, nu = self.s['materials'][mat][1], self.s['materials'][mat][3]
        for k in new[kind]:
            e = self.m.meshes[got].elements.get(k)
            require(e is not None, f'{kind[:-1]} {k} appeared with mesh {got} but is not part of it')
            self.s[kind][k] = (tuple(getattr(e, q + '_node').name for q in 'ijmn'), (0.2, E, nu, 0.5, 0.7, ()))
        require(len(new[kind]) == 1 + a % 2 and len(new['nodes']) == 4 + 2*(a % 2), f'mesh {got} came with {len(new["nodes"])} nodes and {len(new[kind])} elements')
        self.s['meshes'][got] = (sorted(new['nodes']), sorted(new[kind]))
        self.labels.add('add meshes')

    # ---- deletions
    def without(self, k):
        for kind in END:
            gone = {q for q, e in self.s[kind].items() if k in e[0]}
            self.s[kind] = {q: e for q, e in self.s[kind].items() if q not in gone}
            for name, (ns, es) in self.s['meshes'].items():
                if kind in ('plates', 'quads') and gone & set(es) and ((kind == 'plates') == (self.m.meshes[name].element_type == 'Rect')):
                    self.s['meshes'][name] = (ns, [q for q in es if q not in gone])
        del self.s['nodes'][k]
        for name, (ns, es) in self.s['meshes'].items():
            self.s['meshes'][name] = ([q for q in ns if q != k], es)

    def op_delnode(self, a, b, v):
        if a % 5 == 0:
            return self.refused('deleting a node that does not exist', lambda: self.m.delete_node('nowhere'))
        k = self.pick('nodes', b)
        if k is None or v % 2:
            return
        self.m.delete_node(k)
        self.without(k)
        self.labels.add('delete')

    def op_delmember(self, a, b, v):
        kind = ['members', 'springs'][v % 2]
        f = getattr(self.m, 'delete_' + kind[:-1])
        k = self.pick(kind, b)
        if k is None or a % 5 == 0:
            return self.refused(f'deleting from {kind} what does not exist', lambda: f('nowhere'))
        f(k)
        del self.s[kind][k]
        self.labels.add('delete')

    def op_delaux(self, a, b, v):
        k = self.pick('aux_nodes', a)
        if k is None or b % 3 == 0:
            return self.refused('deleting an auxiliary node that does not exist', lambda: self.m.delete_auxnode('nowhere'))
        self.m.delete_auxnode(k)
        del self.s['aux_nodes'][k]
        for q, (e, r) in self.s['members'].items():
            if r[5] == k:
                self.s['members'][q] = (e, r[:5] + (None,) + r[6:])
        self.labels.add('delete')

    # ---- merge and rename
    def op_merge(self, a, b, v):
        tol = [0.001, 1e-5, 0.01, None][a % 4]
        reach = 0.001 if tol is None else tol
        names = list(self.s['nodes'])
        P = {k: np.array(self.s['nodes'][k][0]) for k in names}
        near = lambda p, q: np.linalg.norm(P[p] - P[q]) <= reach
        into = {}
        for i, p in enumerate(names):
            if p in into:
                continue
            for q in names[i + 1:]:
                if q not in into and near(p, q):
                    into[q] = p
        for kind in END:
            for e in self.s[kind].values():
                if len({into.get(n, n) for n in e[0]}) < len(e[0]):
                    return
        got = self.m.merge_duplicate_nodes() if tol is None else self.m.merge_duplicate_nodes(tol)
        require(sorted(got) == sorted(into), f'merging within {reach} removed {sorted(got)} instead of {sorted(into)}')
        for q, p in into.items():
            A, B = self.s['nodes'][p], self.s['nodes'][q]
            pick = lambda x, y, none: x if y == none else y
            self.s['nodes'][p] = [A[0], tuple(x or y for x, y in zip(A[1], B[1])), tuple(either(x, y, (None, None)) for x, y in zip(A[2], B[2])),
                                  tuple(either(x, y, None) for x, y in zip(A[3], B[3])), A[4] + B[4]]
            del self.s['nodes'][q]
        for kind in END:
            self.s[kind] = {k: (tuple(into.get(n, n) for n in e[0]), e[1]) for k, e in self.s[kind].items()}
        for name, (ns, es) in self.s['meshes'].items():
            self.s['meshes'][name] = (sorted({into.get(n, n) for n in ns}), es)
        if into:
            self.labels.add('merge')

    def op_rename(self, a, b, v):
        if a % 3:
            return
        self.m.rename()
        new = {}
        for kind, p in (('nodes', 'N'), ('springs', 'S'), ('members', 'M'), ('plates', 'P'), ('quads', 'Q')):
            new[kind] = {k: f'{p}{i + 1}' for i, k in enumerate(self.s[kind])}
            self.s[kind] = {new[kind][k]: e for k, e in self.s[kind].items()}
        for kind in END:
            self.s[kind] = {k: (tuple(new['nodes'][n] for n in e[0]), e[1]) for k, e in self.s[kind].items()}
        for name, (ns, es) in self.s['meshes'].items():
            which = new['plates'] if self.m.meshes[name].element_type == 'Rect' else new['quads']
            self.s['meshes'][name] = (sorted(new['nodes'][n] for n in ns), sorted(which[e] for e in es))
        self.labels.add('rename')

    # ---- loads and supports (what has to survive)
    def op_load(self, a, b, v):
        case = ['D', 'L', 'Case 1', 'a'][v % 4]
        kw = {} if case == 'Case 1' else {'case': case}
        kind = ['nodes', 'members', 'plates', 'quads', 'members'][a % 5]
        k = self.pick(kind, b)
        if k is None:
            return
        if kind == 'nodes':
            d = specs.FORCE[v % 6]
            self.m.add_node_load(k, d, 1.0 + b, **kw)
            self.s['nodes'][k][4] = self.s['nodes'][k][4] + ((d, 1.0 + b, case),)
        elif kind == 'members':
            e, r = self.s['members'][k]
            if a % 2:
                self.m.add_member_pt_load(k, 'Fy', 2.0 + b, 0.5, **kw)
                r = r[:8] + (r[8] + (('Fy', 2.0 + b, 0.5, case),),) + r[9:]
            else:
                self.m.add_member_dist_load(k, 'FZ', 1.0, 2.0 + b, 0.25, 0.75, **kw)
                r = r[:9] + (r[9] + (('FZ', 1.0, 2.0 + b, 0.25, 0.75, case),),) + r[10:]
            self.s['members'][k] = (e, r)
        else:
            getattr(self.m, f'add_{kind[:-1]}_surface_pressure')(k, 1.0 + b, **kw)
            e, r = self.s[kind][k]
            self.s[kind][k] = (e, r[:5] + (r[5] + ((1.0 + b, case),),))
        self.labels.add('loads')

    def op_badload(self, a, b, v):
        f = [lambda: self.m.add_node_load('nowhere', 'FX', 1.0), lambda: self.m.add_member_pt_load('nowhere', 'Fx', 1.0, 0.0), lambda: self.m.add_member_dist_load('nowhere', 'Fx', 1.0, 1.0),
             lambda: self.m.add_plate_surface_pressure('nowhere', 1.0), lambda: self.m.add_quad_surface_pressure('nowhere', 1.0), lambda: self.m.def_support('nowhere', True),
             lambda: self.m.def_support_spring('nowhere', 'DX', 1.0), lambda: self.m.def_node_disp('nowhere', 'DX', 1.0), lambda: self.m.def_releases('nowhere', True),
             lambda: self.m.add_node_load(self.pick('nodes', b), 'Fx', 1.0), lambda: self.m.def_support_spring(self.pick('nodes', b), 'X', 1.0),
             lambda: self.m.def_support_spring(self.pick('nodes', b), 'DX', 1.0, 'up'), lambda: self.m.def_node_disp(self.pick('nodes', b), 'FX', 1.0)]
        self.refused('a load, support or release with an unknown name or direction', f[(a + 5*b + v) % len(f)])

    def op_support(self, a, b, v):
        k = self.pick('nodes', a)
        if k is None:
            return
        n = self.s['nodes'][k]
        if v % 3 == 0:
            s = gen.SUPPORTS[b % len(gen.SUPPORTS)]
            self.m.def_support(k, *[bool(q) for q in s])
            n[1] = tuple(bool(q) for q in s)
        elif v % 3 == 1:
            d, way = b % 6, [None, '+', '-'][a % 3]
            self.m.def_support_spring(k, DOF[d], 10.0 + b, way)
            n[2] = n[2][:d] + ((10.0 + b, way),) + n[2][d + 1:]
        else:
            d = b % 6
            self.m.def_node_disp(k, DOF[d], 0.01*b)
            n[3] = n[3][:d] + (0.01*b,) + n[3][d + 1:]
        self.labels.add('supports')

    def op_releases(self, a, b, v):
        k = self.pick('members', a)
        if k is None:
            return
        r = tuple(i in (b % 12, 4, 11) for i in range(12))
        self.m.def_releases(k, *r)
        e, q = self.s['members'][k]
        self.s['members'][k] = (e, q[:10] + (r,))

    def op_delete_loads(self, a, b, v):
        if a % 3:
            return
        self.m.delete_loads()
        for n in self.s['nodes'].values():
            n[4] = ()
        self.s['members'] = {k: (e, r[:8] + ((), ()) + r[10:]) for k, (e, r) in self.s['members'].items()}
        for kind in ('plates', 'quads'):
            self.s[kind] = {k: (e, r[:5] + ((),)) for k, (e, r) in self.s[kind].items()}

    def op_unique(self, a, b, v):
        kind = list(PREFIX)[a % len(PREFIX)]
        p = ['N', 'M', 'Q', ''][b % 4]
        got = self.m.unique_name(getattr(self.m, kind), p)
        require(got not in self.s[kind] and got.startswith(p) and got[len(p):].isdigit(), f'{got} was given as a unique name with prefix "{p}" among {sorted(self.s[kind])}')


class Either(tuple):
    """Any of several values."""


def either(x, y, none):
    if y == none or x == y:
        return x
    if x == none:
        return y
    return Either((x, y))


def alike(got, want):
    """Whether a node is as wanted, where any of several values may do."""
    if got[0] != want[0] or got[1] != want[1] or got[4] != want[4]:
        return False
    ok = lambda g, w: g == w or (isinstance(w, Either) and any(ok(g, q) for q in w))
    return all(ok(g, w) for i in (2, 3) for g, w in zip(got[i], want[i]))


OPS = [k[3:] for k in dir(History) if k.startswith('op_')]
WEIGHTED = OPS + ['row'] + ['node']*5 + ['member', 'quad', 'plate', 'load', 'load', 'support', 'support', 'merge', 'rename', 'delnode', 'spring', 'member']
num = st.integers(0, 23)
OP = st.tuples(st.sampled_from(WEIGHTED), num, num, num)


def check_history(arg):
    start, ops = arg
    h = History()
    for k in range(start):
        h.op_node(3*k, 2*k + 5*(k % 2) + 2, k)
    h.labels.clear()
    for k, (op, a, b, v) in enumerate(ops):
        getattr(h, 'op_' + op)(a, b, v)
        h.agree(f'step {k} ({op})')
    big = {'delete', 'merge', 'rename', 'refused'} & h.labels
    return h.labels if big and len(h.labels) >= 4 else ()


# ---------------------------------------------------------------------------- whole structures
class Renamed(specs.Names):
    """The names rename() gives, for items in the order they were added."""
    def node(self, i): return f'N{self.order["nodes"].index(i) + 1}'
    def member(self, i): return f'M{i + 1}'
    def spring(self, i): return f'S{i + 1}'
    def plate(self, i): return f'P{i + 1}'
    def quad(self, i): return f'Q{i + 1}'


def check_merge(arg):
    """A structure taken apart at its nodes and merged together again behaves as the original."""
    spec, cut, seed, kind, rename = arg
    if any(e.get('tc') for e in spec['members'] + spec['springs']) or any(q[3] for q in spec['sprsup']):
        kind = 'general'
    elif kind == 'pdelta':
        kind = 'linear'
    rng = np.random.default_rng(seed)
    apart = specs.copy(spec)
    n = len(spec['nodes'])
    copies = {k: [k] for k in range(n)}
    # each end in its turn may get a node of its own; coordinates agree to within the tolerance
    for key in ('members', 'springs', 'plates', 'quads'):
        for e in apart[key]:
            slots = ['i', 'j'] if key in ('members', 'springs') else [0, 1, 2, 3]
            for q in slots:
                box = e if isinstance(q, str) else e['n']
                k = box[q]
                if rng.random() < cut:
                    apart['nodes'].append(list(apart['nodes'][k]))
                    copies[k].append(len(apart['nodes']) - 1)
                    box[q] = copies[k][-1]
    if len(apart['nodes']) == n:
        return ()
    spread = lambda k: int(rng.choice(copies[k]))
    apart['nl'] = [[spread(q[0])] + q[1:] for q in apart['nl']]
    apart['sprsup'] = [[spread(q[0])] + q[1:] for q in apart['sprsup']]
    apart['disp'] = [[spread(q[0])] + q[1:] for q in apart['disp']]
    sup = []
    for k, bits in apart['sup']:
        parts = {}
        for d in range(6):
            if bits[d]:
                parts.setdefault(spread(k), [0]*6)[d] = 1
        sup += [[q, b] for q, b in parts.items()]
    apart['sup'] = sup
    m, ref = specs.build(apart), specs.build(spec)
    gone = m.merge_duplicate_nodes()
    require(len(gone) == len(apart['nodes']) - n and len(m.nodes) == n, f'merging left {len(m.nodes)} nodes of {len(apart["nodes"])}, instead of {n}')
    names = specs.NAMES
    if rename:
        m.rename()
        require(list(m.nodes) == [f'N{i + 1}' for i in range(n)], f'rename() gave the nodes the names {list(m.nodes)}')
        names = After()
    specs.analyze(ref, kind)
    specs.analyze(m, kind)
    for ci in range(len(specs.combos(spec))):
        combo = names.combo(ci)
        a, b = results(ref, spec, combo), results(m, spec, combo, names=names)
        same(b, a, f'{combo}: structure merged from {len(apart["nodes"])} nodes', rtol=1e-6)
    return {'merged', 'renamed' if rename else 'kept names'}


class After(specs.Names):
    def node(self, i): return f'N{i + 1}'
    def member(self, i): return f'M{i + 1}'
    def spring(self, i): return f'S{i + 1}'
    def plate(self, i): return f'P{i + 1}'
    def quad(self, i): return f'Q{i + 1}'


STRUCTURES = st.one_of(gen.frames(max_members=6), gen.shells())
CASES = [
    Case('history', st.tuples(st.sampled_from([0, 6, 9]), st.lists(OP, min_size=10, max_size=60)), check_history, quick=1500, thorough=20000),
    Case('merge', st.tuples(STRUCTURES, st.sampled_from([0.3, 0.6, 1.0]), st.integers(0, 99), st.sampled_from(['linear', 'general']), st.booleans()), check_merge, quick=250, thorough=8000),
]

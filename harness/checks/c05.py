"""C05: results depend only on the current model, not on the history of edits, analyses and queries."""
import copy as pycopy
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import results, same
from PyNite.Section import Section

RULE = 'the history analyses the model at least twice with an edit in between (labels: the kinds of edits, analyses and elements involved)'
ASSUMPTIONS = ['edits go through the public methods, or set a public property (member section properties, spring stiffness, plate thickness, node '
               'coordinates of nodes whose elements carry no loads)',
               'results of combinations that the last analysis did not include are not compared',
               'where the fresh model is refused (unstable, diverged), the edited one has to be refused as well']
KINDS = ('node', 'member', 'spring', 'plate', 'quad', 'combo')


class LiveNames(specs.Names):
    """Names that stay with an item when others are deleted."""

    def __init__(self, spec):
        self.ids = {k: list(range(len(spec[k + 's']))) for k in KINDS}
        self.next = {k: len(v) for k, v in self.ids.items()}

    def add(self, kind):
        self.ids[kind].append(self.next[kind])
        self.next[kind] += 1

    def drop(self, kind, i):
        del self.ids[kind][i]

    def node(self, i): return f'N{self.ids["node"][i] + 1}'
    def member(self, i): return f'M{self.ids["member"][i] + 1}'
    def aux(self, i): return f'A{self.ids["member"][i] + 1}'
    def sec(self, i): return f'Sec{self.ids["member"][i] + 1}'
    def spring(self, i): return f'S{self.ids["spring"][i] + 1}'
    def plate(self, i): return f'P{self.ids["plate"][i] + 1}'
    def quad(self, i): return f'Q{self.ids["quad"][i] + 1}'
    def combo(self, i): return f'Combo {self.ids["combo"][i] + 1}'


def definition(m):
    """Everything the user defined, for telling whether an analysis changed it."""
    dirs = specs.DOF
    return pycopy.deepcopy({
        'nodes': {k: (n.name, n.X, n.Y, n.Z, list(map(tuple, n.NodeLoads)), [getattr(n, 'support_' + d) for d in dirs],
                      [getattr(n, 'spring_' + d)[:2] for d in dirs], [getattr(n, 'Enforced' + d) for d in dirs]) for k, n in m.nodes.items()},
        'members': {k: (e.name, e.i_node.name, e.j_node.name, e.material_name, e.A, e.Iy, e.Iz, e.J, e.E, e.G, list(map(tuple, e.PtLoads)), list(map(tuple, e.DistLoads)),
                        list(e.Releases), e.tension_only, e.comp_only, e.auxNode.name if e.auxNode else None) for k, e in m.members.items()},
        'springs': {k: (e.name, e.i_node.name, e.j_node.name, e.ks, e.tension_only, e.comp_only) for k, e in m.springs.items()},
        'plates': {k: (e.name, [getattr(e, q + '_node').name for q in 'ijmn'], e.t, e.E, e.nu, e.kx_mod, e.ky_mod, list(map(tuple, e.pressures))) for k, e in m.plates.items()},
        'quads': {k: (e.name, [getattr(e, q + '_node').name for q in 'ijmn'], e.t, e.E, e.nu, e.kx_mod, e.ky_mod, list(map(tuple, e.pressures))) for k, e in m.quads.items()},
        'materials': {k: (q.E, q.G, q.nu, q.rho) for k, q in m.materials.items()},
        'sections': {k: (q.A, q.Iy, q.Iz, q.J) for k, q in m.sections.items()},
        'combos': {k: (c.name, dict(c.factors), c.combo_tags) for k, c in m.load_combos.items()},
        'aux': {k: (n.X, n.Y, n.Z) for k, n in m.aux_nodes.items()}, 'meshes': list(m.meshes)})


def drop_node(spec, names, k):
    """Removes node k and everything attached to it."""
    for kind, ends in (('member', 'ij'), ('spring', 'ij'), ('plate', 'n'), ('quad', 'n')):
        for i in reversed(range(len(spec[kind + 's']))):
            e = spec[kind + 's'][i]
            if k in ([e['i'], e['j']] if ends == 'ij' else e['n']):
                drop(spec, names, kind, i)
    for key in ('sup', 'sprsup', 'disp', 'nl'):
        spec[key] = [[q[0] - (q[0] > k)] + q[1:] for q in spec[key] if q[0] != k]
    for kind in ('member', 'spring'):
        for e in spec[kind + 's']:
            e['i'] -= e['i'] > k
            e['j'] -= e['j'] > k
    for kind in ('plate', 'quad'):
        for e in spec[kind + 's']:
            e['n'] = [q - (q > k) for q in e['n']]
    del spec['nodes'][k]
    names.drop('node', k)


def drop(spec, names, kind, i):
    del spec[kind + 's'][i]
    names.drop(kind, i)
    if kind == 'member':
        for key in ('pl', 'dl'):
            spec[key] = [[q[0] - (q[0] > i)] + q[1:] for q in spec[key] if q[0] != i]
    elif kind in ('plate', 'quad'):
        spec['pp'] = [[q[0], q[1] - (q[0] == kind and q[1] > i)] + q[2:] for q in spec['pp'] if not (q[0] == kind and q[1] == i)]


def crowded(spec):
    return any(gen.near_colinear(spec, e) for e in spec['members'])


class Session:
    def __init__(self, spec):
        self.spec = specs.copy(spec)
        if not self.spec['combos']:
            self.spec['combos'] = [[{'0': 1.0}, None]]
        # self weight turns into loads on the members that exist when it is added
        self.names = LiveNames(self.spec)
        self.m = specs.build(self.spec, self.names)
        for d, f, c in self.spec['sw']:
            self.weigh(range(len(self.spec['members'])), d, f, c)
        self.spec['sw'] = []
        self.args = []
        self.labels = set()
        self.edited = self.moved = False
        self.analyses = 0

    def weigh(self, idx, d, f, c):
        for i in idx:
            e = self.spec['members'][i]
            w = f*self.spec['mats'][e['mat']][3]*e['A']
            self.spec['dl'].append([i, d, w, w, 0.0, specs.length(self.spec, e), c])

    def do(self, op):
        kind, a, b, v = op
        f = getattr(self, 'op_' + kind)
        if f(a, b, v) is not False and kind not in ('analyze', 'read'):
            self.edited = True
            self.labels.add(kind)

    def pick(self, kind, a):
        n = len(self.spec[kind + 's'])
        return a % n if n else None

    # ---- loads
    def op_nl(self, a, b, v):
        k = self.pick('node', a)
        q = [k, b % 6, v, a % 3]
        self.spec['nl'].append(q)
        self.m.add_node_load(self.names.node(k), specs.FORCE[q[1]], v, self.names.case(q[3]))

    def op_pl(self, a, b, v):
        i = self.pick('member', a)
        if i is None:
            return False
        x = (b % 9)/8*specs.length(self.spec, self.spec['members'][i])
        d = (gen.L_DIRS + gen.G_DIRS)[(a + b) % 12]
        self.spec['pl'].append([i, d, v, x, b % 3])
        self.m.add_member_pt_load(self.names.member(i), d, v, x, self.names.case(b % 3))

    def op_dl(self, a, b, v):
        i = self.pick('member', a)
        if i is None:
            return False
        d = (gen.L_DIRS[:3] + gen.G_DIRS[:3])[(a + b) % 6]
        L = specs.length(self.spec, self.spec['members'][i])
        x1, x2 = [(None, None), (0.25*L, 0.625*L), (None, 0.5*L), (0.3*L, None)][b % 4]
        self.spec['dl'].append([i, d, v, v*(b % 3)/2, x1, x2, b % 3])
        self.m.add_member_dist_load(self.names.member(i), d, v, v*(b % 3)/2, x1, x2, self.names.case(b % 3))

    def op_sw(self, a, b, v):
        d = gen.G_DIRS[a % 3]
        self.m.add_member_self_weight(d, v/8, self.names.case(b % 3))
        self.weigh(range(len(self.spec['members'])), d, v/8, b % 3)

    def op_pp(self, a, b, v):
        kind = 'plate' if self.spec['plates'] else 'quad'
        i = self.pick(kind, a)
        if i is None:
            return False
        self.spec['pp'].append([kind, i, v, b % 3])
        getattr(self.m, f'add_{kind}_surface_pressure')(getattr(self.names, kind)(i), v, self.names.case(b % 3))

    def op_delete_loads(self, a, b, v):
        if a % 2:
            return False
        self.m.delete_loads()
        for k in ('nl', 'pl', 'dl', 'pp'):
            self.spec[k] = []

    def op_combo(self, a, b, v):
        f = {str(b % 3): v/4, str((b + a) % 4): 1.0}
        tags = [None, ['a'], ['b', 'a'], []][b % 4]
        arg = {self.names.case(int(k)): q for k, q in f.items()}
        i = self.pick('combo', a)
        if a % 3 == 0:
            self.names.add('combo')
            i = len(self.spec['combos'])
            self.spec['combos'].append(None)
        self.spec['combos'][i] = [f, tags]
        targ = None if tags is None else list(tags)
        self.m.add_load_combo(self.names.combo(i), arg, targ)
        self.args.append((arg, dict(arg), targ, tags))

    # ---- supports
    def op_support(self, a, b, v):
        k = self.pick('node', a)
        if k == 0 and b % 4:
            return False
        s = list((gen.SUPPORTS + [[0]*6])[b % 9])
        self.spec['sup'] = [q for q in self.spec['sup'] if q[0] != k] + [[k, s]]
        self.m.def_support(self.names.node(k), *[bool(q) for q in s])

    def op_sprsup(self, a, b, v):
        k, d = self.pick('node', a), b % 6
        way = [None, '+', '-'][(a + b) % 3]
        self.spec['sprsup'] = [q for q in self.spec['sprsup'] if (q[0], q[1]) != (k, d)] + [[k, d, abs(v)*50, way]]
        self.m.def_support_spring(self.names.node(k), specs.DOF[d], abs(v)*50, way)

    def op_disp(self, a, b, v):
        sup = [(n, d) for n, s in self.spec['sup'] for d in range(6) if s[d]]
        if not sup:
            return False
        k, d = (self.pick('node', a), b//4 % 6) if v > 0 and b % 4 == 1 else sup[a % len(sup)]
        self.spec['disp'] = [q for q in self.spec['disp'] if (q[0], q[1]) != (k, d)]
        if b % 4 == 0:
            self.m.def_node_disp(self.names.node(k), specs.DOF[d], None)
        else:
            self.spec['disp'].append([k, d, v/4000])
            self.m.def_node_disp(self.names.node(k), specs.DOF[d], v/4000)

    # ---- elements
    def op_rel(self, a, b, v):
        i = self.pick('member', a)
        if i is None:
            return False
        r = [[], [5, 11], [4, 5], [10, 11], [3], [4, 5, 10, 11]][b % 6]
        r = [int(c in r) for c in range(12)]
        self.spec['members'][i]['rel'] = r
        self.m.def_releases(self.names.member(i), *[bool(q) for q in r])

    def op_member(self, a, b, v):
        n = len(self.spec['nodes'])
        i, j = a % n, b % n
        if i == j:
            return False
        e = {'i': i, 'j': j, 'mat': 0, 'A': 0.01, 'Iy': 6e-5, 'Iz': 9e-5, 'J': 5e-5, 'tc': [None, None, 't', 'c'][(a + b) % 4]}
        self.spec['members'].append(e)
        if crowded(self.spec):
            self.spec['members'].pop()
            return False
        self.names.add('member')
        self.m.add_member(self.names.member(len(self.spec['members']) - 1), self.names.node(i), self.names.node(j), self.names.mat(0), e['Iy'], e['Iz'],
                          e['J'], e['A'], tension_only=e['tc'] == 't', comp_only=e['tc'] == 'c')

    def op_delmember(self, a, b, v):
        i = self.pick('member', a)
        if i is None or (len(self.spec['members']) == 1 and not self.spec['plates'] and not self.spec['quads']):
            return False
        self.m.delete_member(self.names.member(i))
        drop(self.spec, self.names, 'member', i)

    def op_spring(self, a, b, v):
        n = len(self.spec['nodes'])
        i, j = a % n, b % n
        if i == j:
            return False
        e = {'i': i, 'j': j, 'ks': abs(v)*100, 'tc': [None, 't', 'c'][(a + b) % 3]}
        self.spec['springs'].append(e)
        self.names.add('spring')
        self.m.add_spring(self.names.spring(len(self.spec['springs']) - 1), self.names.node(i), self.names.node(j), e['ks'], e['tc'] == 't', e['tc'] == 'c')

    def op_delspring(self, a, b, v):
        i = self.pick('spring', a)
        if i is None:
            return False
        self.m.delete_spring(self.names.spring(i))
        drop(self.spec, self.names, 'spring', i)

    def op_node(self, a, b, v):
        """A node somewhere along a member."""
        i = self.pick('member', a)
        if i is None:
            return False
        e = self.spec['members'][i]
        p, q = (np.array(self.spec['nodes'][e[w]], float) for w in 'ij')
        x = [float(c) for c in p + (q - p)*[0.25, 0.5, 0.625, 0.8][b % 4]]
        if any(max(abs(s - t) for s, t in zip(x, y)) < 0.05 for y in self.spec['nodes']):
            return False
        self.spec['nodes'].append(x)
        if crowded(self.spec):
            self.spec['nodes'].pop()
            return False
        self.names.add('node')
        self.m.add_node(self.names.node(len(self.spec['nodes']) - 1), *x)

    def op_delnode(self, a, b, v):
        k = self.pick('node', a)
        if k == 0 or b % 2:
            return False
        self.m.delete_node(self.names.node(k))
        drop_node(self.spec, self.names, k)

    def op_delaux(self, a, b, v):
        have = [i for i, e in enumerate(self.spec['members']) if e.get('aux')]
        if not have:
            return False
        i = have[a % len(have)]
        self.m.delete_auxnode(self.names.aux(i))
        self.spec['members'][i]['aux'] = None

    def op_prop(self, a, b, v):
        which = ('member', 'spring', 'plate', 'quad')[b % 4]
        i = self.pick(which, a)
        if i is None:
            return False
        e, q = self.spec[which + 's'][i], getattr(self.m, which + 's')[getattr(self.names, which)(i)]
        if which == 'member':
            if e.get('sec'):
                return False            # its values belong to the section
            key = ('A', 'Iy', 'Iz', 'J')[a % 4]
        else:
            key = 'ks' if which == 'spring' else 't'
        e[key] *= (1.5 if v > 0 else 0.75)
        setattr(q, key, e[key])

    def op_move(self, a, b, v):
        k = self.pick('node', a)
        if any(k in (e['i'], e['j']) and any(q[0] == i for q in self.spec['pl'] + self.spec['dl']) for i, e in enumerate(self.spec['members'])):
            return False
        if any(k in e['n'] for e in self.spec['plates'] + self.spec['quads']) or any(e.get('aux') and k in (e['i'], e['j']) for e in self.spec['members']):
            return False
        old = list(self.spec['nodes'][k])
        self.spec['nodes'][k][b % 3] += v/40
        if crowded(self.spec) or any(max(abs(s - t) for s, t in zip(self.spec['nodes'][k], y)) < 0.05 for i, y in enumerate(self.spec['nodes']) if i != k):
            self.spec['nodes'][k] = old
            return False
        setattr(self.m.nodes[self.names.node(k)], 'XYZ'[b % 3], self.spec['nodes'][k][b % 3])
        self.moved = True           # (setting a coordinate does not tell the model that its results are out of date)

    # ---- analyses and queries
    def op_read(self, a, b, v):
        """Looks at results, which may fill caches."""
        if self.m.solution is None or self.moved:
            return
        i, c = self.pick('member', a), self.names.combo(b % len(self.spec['combos']))
        if i is None or c not in self.m.nodes[self.names.node(0)].DX:
            return
        mem = self.m.members[self.names.member(i)]
        x = (a % 5)/4*mem.L()
        what = specs.MEMBER_RESULTS[(a*7 + b) % 9]
        if a % 3 == 0:
            specs.at(mem, what, x, c)
        elif a % 3 == 1:
            specs.extreme(mem, 'max' if b % 2 else 'min', what, c)
        else:
            specs.array(mem, what, 7, c)
        self.labels.add('queries')

    def op_analyze(self, a, b, v):
        one_way = any(e.get('tc') for e in self.spec['members'] + self.spec['springs']) or any(q[3] for q in self.spec['sprsup'])
        kind = ('general', 'general', 'linear', 'pdelta')[a % 4]
        if one_way and kind == 'linear':
            kind = 'general'
        kw = {'sparse': bool(b % 2)}
        tags = None
        if b % 5 == 4:
            tags = [['a'], ['b'], ['a', 'b']][a % 3]
            kw['combo_tags'] = list(tags)
        if b % 7 == 6 and kind != 'pdelta':
            kw['check_statics'] = True
        if b % 7 == 5:
            kw['log'] = True
        run = [i for i, (_, t) in enumerate(self.spec['combos']) if tags is None or (t and set(t) & set(tags))]
        before = definition(self.m)
        err, err2 = None, None
        try:
            specs.analyze(self.m, kind, **kw)
        except Exception as e:
            err = e
        require(definition(self.m) == before, f'the {kind} analysis changed the definition of the model: {diff(before, definition(self.m))}')
        require(kw.get('combo_tags') == tags, 'the analysis changed the list of tags it was given')
        fresh = specs.build(self.spec, self.names)
        try:
            specs.analyze(fresh, kind, **kw)
        except Exception as e:
            err2 = e
        if err is not None or err2 is not None:
            require(err is not None and err2 is not None, f'the {kind} analysis {kw} ' + (
                f'failed on the edited model only ({type(err).__name__}: {err})' if err else f'failed on a fresh model only ({type(err2).__name__}: {err2})'))
            self.labels.add('refused')
            self.analyses += 1
            return
        self.moved = False
        require(self.m.solution == fresh.solution, f'solution flag {self.m.solution} instead of {fresh.solution}')
        for i in run:
            combo = self.names.combo(i)
            ra, rb = (results(q, self.spec, combo, self.names) for q in (self.m, fresh))
            same(ra, rb, f'{combo}: results after the history against a fresh model ({kind}, {kw})', rtol=1e-9)
            for j in range(len(self.spec['members'])):
                ms = [q.members[self.names.member(j)] for q in (self.m, fresh)]
                require(ms[0].active[combo] == ms[1].active[combo], f'{combo}: activation of {ms[0].name}')
                for w in ('Mz', 'Fy', 'axial', 'dy'):
                    x, y = (specs.extreme(q, 'max', w, combo) for q in ms)
                    require(abs(x - y) <= 1e-9*max(abs(x), abs(y)) + 1e-9 or x == y, f'{combo}: max {w} of {ms[0].name}: {x} instead of {y}')
        for arg, was, targ, tags_ in self.args:
            require(arg == was and targ == tags_, f'an argument object given to add_load_combo was changed: {was}, {tags_} to {arg}, {targ}')
        if self.analyses and self.edited:
            self.labels.add('reanalysis after edits')
        self.analyses += 1
        self.edited = False
        self.labels.add(kind)


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                for q in a[k]:
                    if a[k][q] != b[k].get(q):
                        return f'{k} {q}: {a[k][q]} became {b[k].get(q)}'
            return f'{k}: {a[k]} became {b[k]}'


def check(arg):
    spec, ops = arg
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = Session(spec)
        for op in ops:
            s.do(op)
        s.do(['analyze', len(ops), 1, 1.0])
    return s.labels if 'reanalysis after edits' in s.labels else ()


FRAME_OPS = ('nl', 'pl', 'dl', 'sw', 'delete_loads', 'combo', 'support', 'sprsup', 'disp', 'rel', 'member', 'delmember', 'spring', 'delspring', 'node',
             'delnode', 'delaux', 'prop', 'move', 'read', 'read', 'analyze', 'analyze', 'analyze', 'analyze')
SHELL_OPS = ('nl', 'pp', 'pp', 'delete_loads', 'combo', 'support', 'sprsup', 'disp', 'spring', 'delspring', 'prop', 'prop', 'analyze', 'analyze', 'analyze')


def ops(kinds, hi):
    def some(k, lo, hi):
        return st.lists(st.tuples(k, st.integers(0, 60), st.integers(0, 60), gen.mag).map(list), min_size=lo, max_size=hi)
    run = st.just('analyze')
    return st.tuples(some(st.sampled_from(kinds), 0, 2), some(run, 1, 1), some(st.sampled_from([k for k in kinds if k != 'analyze']), 1, 3),
                     some(run, 0, 1), some(st.sampled_from(kinds), 0, hi)).map(lambda t: sum(t, []))


frame = gen.frames(max_members=4, n_combos=(1, 2), tags=True)
shell = gen.shells(members=False, max_n=2, n_combos=(1, 2))
CASES = [
    Case('frame', st.tuples(frame, ops(FRAME_OPS, 9)), check, quick=500, thorough=20000),
    Case('shell', st.tuples(shell, ops(SHELL_OPS, 5)), check, quick=100, thorough=3000),
]

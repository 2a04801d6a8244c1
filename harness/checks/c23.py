"""C23: drawings show the model and its results where and as they are."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linear_sum_assignment

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import results, same
from .c05 import definition
from .c09 import collinear
from .c13 import one_way_frames
from .c26 import Named, explicit

RULE = 'the scene holds loads, a deformed shape or contours besides the undeformed model'
ASSUMPTIONS = ['scenes are judged before they are turned into pixels (there is no OpenGL here): points, lines, faces, values and texts of the actors that the renderers build',
               'colours, line widths, arrow heads\' thickness and the resolution of arcs are free', 'labels of the VTK renderer lie within two annotation sizes of what they label']
N_CURVE = 20


# ---------------------------------------------------------------------------- reading a scene
class Scene:
    """Line segments, curves, faces (with values), cones, spheres, points and labels of everything drawn."""

    def __init__(self):
        self.lines, self.faces, self.cones, self.balls, self.points, self.labels, self.bars = [], [], [], [], [], [], 0


def quiet():
    import vtkmodules.vtkCommonCore as core
    core.vtkObject.GlobalWarningDisplayOff()
    core.vtkLogger.SetStderrVerbosity(core.vtkLogger.VERBOSITY_OFF)


def cells(array):
    from vtkmodules.util.numpy_support import vtk_to_numpy
    if array is None or array.GetNumberOfCells() == 0:
        return []
    off, con = vtk_to_numpy(array.GetOffsetsArray()), vtk_to_numpy(array.GetConnectivityArray())
    return [con[a:b] for a, b in zip(off[:-1], off[1:])]


def read_data(scene, d, matrix, mapper):
    from vtkmodules.util.numpy_support import vtk_to_numpy
    if d is None or d.GetNumberOfPoints() == 0:
        return
    P = vtk_to_numpy(d.GetPoints().GetData()).astype(float)
    P = P @ matrix[:3, :3].T + matrix[:3, 3]
    values = None
    if mapper.GetScalarVisibility():
        arr = d.GetPointData().GetArray(mapper.GetArrayName()) if mapper.GetArrayName() else None
        arr = arr or d.GetPointData().GetScalars()
        values = vtk_to_numpy(arr).astype(float) if arr is not None else None
    for c in cells(d.GetVerts()):
        scene.points += [P[i] for i in c]
    for c in cells(d.GetLines()):
        scene.lines.append(P[c])
    polys, parent = cells(d.GetPolys()), {}
    rest = []
    for c in polys:
        if len(c) == 4:
            scene.faces.append((P[c], None if values is None else values[c]))
        else:
            rest.append(c)

    def find(a):
        while parent.setdefault(a, a) != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a

    for c in rest:
        for i in c[1:]:
            parent[find(int(c[0]))] = find(int(i))
    groups = {}
    for c in rest:
        groups.setdefault(find(int(c[0])), []).append(c)
    for g in groups.values():
        bases = [c for c in g if len(c) > 4]
        ids = sorted({int(i) for c in g for i in c})
        if len(bases) == 1:
            base = {int(i) for i in bases[0]}
            top = [i for i in ids if i not in base]
            require(len(top) == 1, 'a solid with a polygon for its base is not a cone')
            scene.cones.append((P[top[0]], P[sorted(base)].mean(axis=0)))
        else:
            q = P[ids]
            scene.balls.append(((q.min(axis=0) + q.max(axis=0)) / 2, (q.max(axis=0) - q.min(axis=0)).max() / 2))


def read(renderer):
    """The scene held by a vtkRenderer."""
    scene = Scene()
    for p in list(renderer.GetViewProps()):
        if not p.GetVisibility():
            continue
        kind = p.GetClassName()
        if 'ScalarBar' in kind:
            scene.bars += 1
            continue
        mapper = p.GetMapper() if hasattr(p, 'GetMapper') else None
        if mapper is None:
            continue
        alg = mapper.GetInputAlgorithm(0, 0) if mapper.GetNumberOfInputConnections(0) else None
        if mapper.GetClassName() == 'vtkLabelPlacementMapper':
            src = alg
            while src.GetNumberOfInputPorts() and src.GetNumberOfInputConnections(0):
                src = src.GetInputConnection(0, 0).GetProducer()
            src.Update()
            d = src.GetOutputDataObject(0)
            texts = d.GetPointData().GetAbstractArray(alg.GetLabelArrayName() or 'labels')
            for i in range(d.GetNumberOfPoints()):
                scene.labels.append((str(texts.GetValue(i)), np.array(d.GetPoint(i))))
        elif alg is not None and alg.GetClassName() == 'vtkVectorText':
            require(p.GetClassName().endswith('Follower'), f'a label is a {p.GetClassName()}')
            scene.labels.append((alg.GetText(), np.array(p.GetPosition())))
        else:
            mapper.Update()
            M = p.GetMatrix()
            M = np.array([[M.GetElement(i, j) for j in range(4)] for i in range(4)])
            read_data(scene, mapper.GetInput(), M, mapper)
    return scene


# ---------------------------------------------------------------------------- what should be drawn
def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


class Want(Scene):
    def __init__(self):
        super().__init__()
        self.arcs, self.optional = [], []

    def line(self, *pts):
        for a, b in zip(pts, pts[1:]):
            self.lines.append(np.array([a, b], float))

    def cube(self, c, s):
        c = np.asarray(c, float)
        for k in range(3):
            u, v = np.eye(3)[(k + 1) % 3] * s / 2, np.eye(3)[(k + 2) % 3] * s / 2
            for sg in (1, -1):
                o = c + sg * np.eye(3)[k] * s / 2
                self.faces.append((np.array([o - u - v, o + u - v, o + u + v, o - u + v]), None))

    def cone(self, centre, direction, height):
        c, d = np.asarray(centre, float), unit(direction)
        self.cones.append((c + d * height / 2, c - d * height / 2))

    def arrow(self, tip, d, length, text=None, near=0.0):
        """An arrow with its head at `tip`, pointing along d*sign(length)."""
        tip, d = np.asarray(tip, float), unit(d)
        tail = tip - d * length
        self.line(tip, tail)
        self.cones.append((tip, tip - d * length / 4))
        if text is not None:
            self.labels.append((text, tail, near))
        return tail


def xyz(n):
    return np.array([n.X, n.Y, n.Z], float)


def add_supports(w, node, a, vtk):
    p, sup = xyz(node), [bool(getattr(node, 'support_' + d)) for d in specs.DOF]
    b = 0.6 * a if vtk else a
    if vtk:
        w.balls.append((p, 0.6 * a))
    if all(sup):
        w.cube(p, 2 * b)
    elif all(sup[:3]) and not any(sup[3:]):
        w.cone(p - [0, b, 0], (0, 1, 0), 2 * b)
    else:
        for k in range(3):
            e = np.eye(3)[k]
            if sup[k]:
                w.line(p - a * e, p + a * e)
                w.cone(p - a * e, e, 0.6 * a)
                w.cone(p + a * e, -e, 0.6 * a)
            if sup[k + 3]:
                w.line(p - 1.6 * a * e, p + 1.6 * a * e)
                w.cube(p - 1.9 * a * e, 0.6 * a)
                w.cube(p + 1.9 * a * e, 0.6 * a)


AXIS = {'x': 0, 'y': 1, 'z': 2}


def direction(d, axes):
    return (np.eye(3) if d[1].isupper() else axes)[AXIS[d[1].lower()]]


def add_loads(w, m, factors, a, vtk):
    """Symbols for every load of the selected combination or case, sized relative to the greatest of its kind."""
    near = 1.2 * a if vtk else 0.0
    loads = []
    for n in m.nodes.values():
        for d, v, case in n.NodeLoads:
            if case in factors:
                loads.append(('F' if d[0] == 'F' else 'M', xyz(n), direction(d, None), v * factors[case], n))
    for mem in m.members.values():
        axes = np.asarray(mem.T())[:3, :3]
        for d, v, x, case in mem.PtLoads:
            if case in factors:
                loads.append(('F' if d[0] == 'F' else 'M', xyz(mem.i_node) + axes[0] * x, direction(d, axes), v * factors[case], mem))
        for d, w1, w2, x1, x2, case in mem.DistLoads:
            if case in factors:
                loads.append(('D', xyz(mem.i_node) + axes[0] * x1, direction(d, axes), (w1 * factors[case], w2 * factors[case]), xyz(mem.i_node) + axes[0] * x2))
    for q in list(m.plates.values()) + list(m.quads.values()):
        z = np.asarray(q.T())[2, :3]
        for p, case in q.pressures:
            if case in factors:
                loads.append(('A', [xyz(k) for k in (q.i_node, q.j_node, q.m_node, q.n_node)], z, p * factors[case], q))
    top = {}
    for kind, _, _, v, _ in loads:
        top[kind] = max([top.get(kind, 0.0)] + [abs(u) for u in np.atleast_1d(v)])
    for kind, p, d, v, more in loads:
        big = top[kind] or 1.0
        if kind == 'F':
            tip = p - d * 0.6 * a * (np.sign(v) or 1) if vtk and hasattr(more, 'NodeLoads') else p
            w.arrow(tip, d, v / big * 5 * a, v, near)
        elif kind == 'M':
            r = abs(v) / big * 2.5 * a
            w.arcs.append((p, d * (np.sign(v) or 1), r))
            w.labels.append((v, p, r + near + 0.26 * a))
        elif kind == 'D':
            l1, l2 = v[0] / big * 5 * a, v[1] / big * 5 * a
            span = np.linalg.norm(more - p)
            n = max(int(round(0.75 * span / max(abs(l1), abs(l2)))), 1) if max(abs(l1), abs(l2)) > 0 else 1
            for i in range(n + 1):
                w.arrow(p + (more - p) * i / n, d, l1 + (l2 - l1) * i / n, v[0] if i == 0 else v[1] if i == n else None, near)
            w.line(p - d * l1, more - d * l2)
        else:
            tails = [w.arrow(q, d, v / big * 5 * a, v if k == 0 else None, near) for k, q in enumerate(p)]
            w.faces.append((np.array(tails), None))
    return len(loads)


def moved(node, combo, scale):
    return xyz(node) + scale * np.array([float(getattr(node, d)[combo]) for d in specs.DOF[:3]])


CONTOUR = {'mx': ('moment', 0), 'my': ('moment', 1), 'mxy': ('moment', 2), 'qx': ('shear', 0), 'qy': ('shear', 1), 'sx': ('membrane', 0), 'sy': ('membrane', 1), 'txy': ('membrane', 2)}


def contours(m, what, combo):
    """Value of the contour at each node: the mean over the elements there of what they return at that corner."""
    got = {}
    for e in list(m.quads.values()) + list(m.plates.values()):
        corners = [(0, 0), (e.width(), 0), (e.width(), e.height()), (0, e.height())] if e.type == 'Rect' else [(-1, -1), (1, -1), (1, 1), (-1, 1)]
        z = np.asarray(e.T())[2, :3]
        for n, c in zip((e.i_node, e.j_node, e.m_node, e.n_node), corners):
            if what == 'dz':
                v = float(z @ [float(getattr(n, d)[combo]) for d in specs.DOF[:3]])
            else:
                f, k = CONTOUR[what.lower()]
                v = float(np.asarray(getattr(e, f)(c[0], c[1], True, combo), float).flatten()[k])
            got.setdefault(n.name, []).append(v)
    return {k: (sum(v) / len(v), max(map(abs, v))) for k, v in got.items()}


def expected(m, o, vtk):
    """o: options {a, deformed, scale, nodes, loads, color, combo, case, labels}."""
    w, a, near = Want(), o['a'], 1.2 * o['a'] if vtk else 0.0
    for n in list(m.nodes.values()) + list(m.aux_nodes.values()):
        aux = n.name in m.aux_nodes and m.aux_nodes[n.name] is n
        if o['nodes']:
            add_supports(w, n, a, vtk)
        if not aux or (vtk and o['nodes']):
            if not vtk or o['nodes']:
                w.labels.append((n.name, xyz(n), near))
        if not aux and not vtk:
            w.points.append(xyz(n))
    for e in list(m.members.values()) + list(m.springs.values()):
        p, q = xyz(e.i_node), xyz(e.j_node)
        w.line(p, q)
        w.labels.append((e.name, (p + q) / 2, near))
        if e.name in m.springs and m.springs[e.name] is e:
            w.optional.append((p + q) / 2)
    if o['deformed']:
        combo, sc = o['combo'], o['scale']
        if vtk and o['nodes']:
            w.balls += [(moved(n, combo, sc), 0.6 * a) for n in m.nodes.values()]
        for e in m.members.values():
            if e.active[combo]:
                T, L = np.asarray(e.T())[:3, :3], e.L()
                pts = []
                for i in range(N_CURVE):
                    x = L * i / (N_CURVE - 1)
                    u = np.array([float(e.deflection(k, x, combo)) for k in ('dx', 'dy', 'dz')])
                    pts.append(xyz(e.i_node) + T[0] * x + sc * (u @ T))
                w.line(*pts)
        for e in m.springs.values():
            if e.active[combo]:
                w.line(moved(e.i_node, combo, sc), moved(e.j_node, combo, sc))
    n_loads = 0
    if o['loads'] and (o['case'] is not None or o['combo'] is not None):
        factors = {o['case']: 1.0} if o['case'] is not None else m.load_combos[o['combo']].factors
        n_loads = add_loads(w, m, factors, a, vtk)
    values = contours(m, o['color'], o['combo']) if o['color'] else None
    for e in list(m.plates.values()) + list(m.quads.values()):
        nodes = (e.i_node, e.j_node, e.m_node, e.n_node)
        P = np.array([moved(n, o['combo'], o['scale']) if o['deformed'] else xyz(n) for n in nodes])
        w.faces.append((P, None if values is None else [values[n.name] for n in nodes]))
    if not o['labels']:
        w.labels = []
    return w, n_loads


# ---------------------------------------------------------------------------- comparing
def pair_up(want, got, dist, tol, what):
    """Match every wanted item with its own drawn item."""
    free = list(range(len(got)))
    for wi in want:
        best, k = None, None
        for i in free:
            d = dist(wi, got[i])
            if best is None or d < best:
                best, k = d, i
                if d <= 1e-3 * tol(wi):
                    break
        t = tol(wi)
        if k is None or best > t:
            raise Violation(f'{what} not drawn: {describe(wi)}; ' + (f'the nearest of the {len(free)} left is {describe(got[k])}, {best:.4g} away (allowed {t:.3g})' if k is not None else 'none left'))
        free.remove(k)
    if free:
        raise Violation(f'{len(free)} {what} too many, such as {describe(got[free[0]])}')


def describe(v):
    return str([np.round(np.asarray(x, float), 6).tolist() if not isinstance(x, str) and x is not None else x for x in v]) if isinstance(v, (tuple, list)) else str(np.round(v, 6).tolist())


def size_of(w):
    pts = [x for s in w.lines for x in s] + [x for f, _ in w.faces for x in f] + [x for c in w.cones for x in c] + [p for p, *_ in w.arcs] + list(w.points)
    return max(float(np.abs(np.array(pts)).max()), 1e-12) if pts else 1.0


def compare(got, w, o, vtk):
    size = size_of(w)
    tol = 1e-5 * size
    # arcs of moments
    lines, cones = [L for L in got.lines if np.isfinite(L).all() and np.ptp(L, axis=0).max() > tol], list(got.cones)
    for c, d, r in w.arcs:
        if r <= 2 * tol:        # (moments of zero cannot be seen)
            continue
        found = None
        for i, L in enumerate(lines):
            if len(L) < 8:
                continue
            v = L - c
            if np.abs(np.linalg.norm(v, axis=1) - r).max() <= tol and np.abs(v @ unit(d)).max() <= tol:
                found = i
                # the head of the arrow lies at one end and points the way the moment turns
                heads = [k for k, (tip, base) in enumerate(cones) if min(np.linalg.norm((tip + base) / 2 - L[0]), np.linalg.norm((tip + base) / 2 - L[-1])) <= 2e-2 * r + tol
                         and (r <= 20 * tol or np.dot(np.cross((tip + base) / 2 - c, tip - base), unit(d)) > 0)]
                if heads:
                    cones.pop(heads[0])
                    break
                found = None
        require(found is not None, f'no moment drawn about {np.round(c, 6)} with direction {np.round(d, 6)} and radius {r}')
        lines.pop(found)
    pair_up([L for L in w.lines if np.ptp(L, axis=0).max() > tol], [np.array([p, q]) for L in lines for p, q in zip(L, L[1:]) if np.abs(p - q).max() > tol], lambda u, v: min(np.abs(u - v).max(), np.abs(u - v[::-1]).max()), lambda u: tol, 'lines')
    pair_up([c for c in w.cones if np.linalg.norm(c[0] - c[1]) > 10 * tol], [c for c in cones if np.linalg.norm(c[0] - c[1]) > 10 * tol],
            lambda u, v: max(np.abs(u[0] - v[0]).max(), np.abs(u[1] - v[1]).max()), lambda u: tol, 'cones')
    turns = [[(k + s) % 4 for k in range(4)] for s in range(4)]
    turns += [t[::-1] for t in turns]
    top = max([v for f in w.faces if f[1] is not None for v in (abs(x[1]) for x in f[1])], default=0.0)

    def face(u, v):
        best = min(turns, key=lambda t: np.abs(u[0] - v[0][t]).max())
        d = np.abs(u[0] - v[0][best]).max()
        if u[1] is not None and d <= tol:
            if v[1] is None:
                return 2 * tol
            d += max(0.0 if abs(x[0] - y) <= 1e-5 * top else 2 * tol for x, y in zip(u[1], np.asarray(v[1]).reshape(4, -1)[:, 0][best]))
        return d

    pair_up(w.faces, got.faces, face, lambda u: tol, 'faces')
    pair_up(w.balls, got.balls, lambda u, v: max(np.abs(u[0] - v[0]).max(), abs(u[1] - v[1])), lambda u: 1e-2 * o['a'] + tol, 'spheres')
    if o['labels'] or got.points:
        # (marks halfway along springs are optional)
        short = len(got.points) < len(w.points) + len(w.optional)
        pair_up(w.points + ([] if short else w.optional), got.points, lambda u, v: np.abs(u - v).max(), lambda u: tol, 'points')

    def label(u, v):
        if isinstance(u[0], str):
            if u[0] != v[0]:
                return 1e300
        else:
            try:
                x = float(v[0])
            except ValueError:
                return 1e300
            if abs(x - u[0]) > 6e-3 * abs(u[0]):
                return 1e300
        return np.abs(u[1] - v[1]).max()

    off = np.array([[label(u, v) for v in got.labels] for u in w.labels]).reshape(len(w.labels), len(got.labels))
    ok = off <= np.array([u[2] + tol for u in w.labels]).reshape(-1, 1)
    rows, cols = linear_sum_assignment(~ok) if ok.size else ((), ())
    missing = sorted(set(range(len(w.labels))) - {r for r, c in zip(rows, cols) if ok[r, c]})
    extra = sorted(set(range(len(got.labels))) - {c for r, c in zip(rows, cols) if ok[r, c]})
    if missing:
        raise Violation(f'label {w.labels[missing[0]][0]!r} at {np.round(w.labels[missing[0]][1], 6)} not drawn; ' + str([(got.labels[c][0], np.round(got.labels[c][1], 6).tolist()) for c in extra]))
    if extra:
        raise Violation(f'{len(extra)} labels too many, such as {got.labels[extra[0]]}')


# ---------------------------------------------------------------------------- the renderers
def make(m, o, which, r=None):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        quiet()
        if which == 'pyvista':
            import pyvista
            pyvista.OFF_SCREEN = True
            from PyNite.Rendering import Renderer
            r = r or Renderer(m)
            r.annotation_size, r.deformed_shape, r.deformed_scale = o['a'], o['deformed'], o['scale']
            r.render_nodes, r.render_loads, r.color_map = o['nodes'], o['loads'], o['color']
            if o['case'] is not None:
                r.case = o['case']
            else:
                r.combo_name = o['combo']
            r.show_labels, r.scalar_bar = o['labels'], o['bar']
        else:
            from PyNite.Visualization import Renderer
            r = r or Renderer(m)
            r.set_annotation_size(o['a'])
            r.set_deformed_shape(o['deformed'])
            r.set_deformed_scale(o['scale'])
            r.set_render_nodes(o['nodes'])
            r.set_render_loads(o['loads'])
            r.set_color_map(o['color'])
            if o['case'] is not None:
                r.set_case(o['case'])
            else:
                r.set_combo_name(o['combo'])
            r.set_show_labels(o['labels'])
            r.set_scalar_bar(o['bar'])
        r.theme = o['theme']
        r.update(o['reset'])
    return r


def scene_of(r):
    return read(r.plotter.renderer if hasattr(r, 'plotter') else r.renderer)


OPTION = st.fixed_dictionaries({
    'a': st.sampled_from([0.05, 0.3, 1.0, 5.0]), 'deformed': st.booleans(), 'scale': st.sampled_from([1.0, 30, 250.0, 0.0]), 'nodes': st.sampled_from([True, True, True, False]),
    'loads': st.sampled_from([True, True, True, False]), 'color': st.sampled_from([None, 'dz', 'Mx', 'My', 'Mxy', 'Qx', 'Qy', 'Sx', 'Sy', 'Txy']), 'pick': st.integers(0, 5),
    'by_case': st.sampled_from([False, False, True]), 'labels': st.sampled_from([True, True, True, False]), 'bar': st.booleans(), 'theme': st.sampled_from(['default', 'default', 'print']),
    'reset': st.booleans()})


def settle(o, spec, names):
    """Concrete settings: the combination or case by name; no deformed shape or contours for cases."""
    o = dict(o)
    o['combo'], o['case'] = names.combo(o['pick'] % len(specs.combos(spec))), None
    if o['by_case']:
        o['case'] = names.case(o['pick'] % 3)
        o['combo'], o['deformed'], o['color'] = None, False, None
    if not (spec['plates'] or spec['quads']):
        o['color'] = None
    return o


@st.composite
def drawn(draw, base, kinds):
    spec = explicit(draw(base))
    # some loads of zero, alone or among others
    if draw(st.integers(0, 4)) == 0:
        for key, at in (('nl', (2,)), ('pl', (2,)), ('dl', (2, 3)), ('pp', (2,))):
            for l in spec[key]:
                if draw(st.integers(0, 1)):
                    for k in at:
                        l[k] = 0.0
    return [spec, draw(st.sampled_from(['plain', 'plain', 'reversed', 'same', 'text', 'digits'])), draw(st.sampled_from(list(kinds))), draw(st.lists(OPTION, min_size=1, max_size=3)),
            draw(st.sampled_from(['pyvista', 'vtk']))]


def check_scene(arg):
    spec, style, kind, options, which = arg
    names = Named(style, 0)
    m = specs.build(spec, names)
    try:
        specs.analyze(m, kind)
    except Exception as e:
        if 'diverged' in str(e) or (kind == 'pdelta' and ('singular' in str(e).lower() or 'unstable' in str(e).lower())):
            return ()
        raise
    combos = [names.combo(ci) for ci in range(len(specs.combos(spec)))]
    before = definition(m), [results(m, spec, c, names) for c in combos]
    labels, r = set(), None
    try:
        for o in options:
            o = settle(o, spec, names)
            w, n_loads = expected(m, o, which == 'vtk')
            if len(w.lines) > 1500:
                continue
            r = make(m, o, which, r)
            compare(scene_of(r), w, o, which == 'vtk')
            labels |= ({'loads'} if n_loads else set()) | ({'deformed'} if o['deformed'] else set()) | ({'contours ' + o['color']} if o['color'] else set())
            labels |= {'case'} if o['case'] is not None and n_loads else set()
        require(definition(m) == before[0], 'drawing the model changed its definition')
        for c, b in zip(combos, before[1]):
            same(results(m, spec, c, names), b, f'results of {c} after drawing', rtol=0.0)
    finally:
        if r is not None and which == 'pyvista':
            r.plotter.close()
    return labels | {which} if labels else ()


# ---------------------------------------------------------------------------- diagrams of members
@st.composite
def diagrams(draw, base):
    spec = explicit(draw(base))
    wants = draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from(specs.MEMBER_RESULTS + ('rdy', 'rdz')), st.integers(0, 5), st.sampled_from([None, 2, 3, 7, 20, 31])), min_size=1, max_size=3))
    return [spec, draw(st.sampled_from(['plain', 'same', 'text', 'digits'])), draw(st.sampled_from(['linear', 'general'])), [list(w) for w in wants]]


def check_diagram(arg):
    spec, style, kind, wants = arg
    names = Named(style, 0)
    m = specs.build(spec, names)
    specs.analyze(m, kind)
    from matplotlib import pyplot as plt
    combos = [names.combo(ci) for ci in range(len(specs.combos(spec)))]
    labels = set()
    for k, what, ci, n in wants:
        name, combo = names.member(k % len(spec['members'])), combos[ci % len(combos)]
        mem = m.members[name]
        plt.close('all')
        kw = {} if n is None else {'n_points': n}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if what == 'axial':
                mem.plot_axial(combo, **kw)
            elif what == 'torque':
                mem.plot_torque(combo, **kw)
            else:
                f = {'F': mem.plot_shear, 'M': mem.plot_moment, 'd': mem.plot_deflection, 'r': mem.plot_rel_deflection}[what[0]]
                f(what[1:] if what[0] == 'r' else what, combo, **kw)
        require(len(plt.get_fignums()) == 1, f'{len(plt.get_fignums())} figures drawn')
        ax = plt.gcf().axes
        require(len(ax) == 1, f'{len(ax)} sets of axes in the figure')
        ax = ax[0]
        x, y = map(specs.vec, specs.array(mem, what, n or 20, combo))
        curves = [(np.asarray(q.get_xdata(), float).flatten(), np.asarray(q.get_ydata(), float).flatten()) for q in ax.lines]
        fit = [q for q in curves if len(q[0]) == len(x) and np.allclose(q[0], x, rtol=1e-9, atol=1e-9 * float(x[-1])) and np.allclose(q[1], y, rtol=1e-9, atol=1e-12 * max(1.0, float(np.abs(y).max())))]
        require(bool(fit), f'the {what} diagram of {name} under {combo} shows {[(np.round(q[1], 6).tolist()) for q in curves]} instead of {np.round(y, 6).tolist()}')
        require(name in ax.get_title() and combo in ax.get_title(), f'the diagram is titled {ax.get_title()!r}')
        if np.abs(y).max() > 1e-9:
            labels.add(what)
    plt.close('all')
    return labels


CASES = [
    Case('diagram', diagrams(gen.frames(max_members=3, n_combos=(1, 3))), check_diagram, quick=120, thorough=3000),
    Case('diagram_along', diagrams(collinear()), check_diagram, quick=60, thorough=1500),
    Case('frame', drawn(gen.frames(max_members=4, n_combos=(1, 3)), ('linear', 'general', 'pdelta')), check_scene, quick=160, thorough=4000),
    Case('along', drawn(collinear(), ('linear', 'general')), check_scene, quick=60, thorough=1500),
    Case('one_way', drawn(one_way_frames(), ('general',)), check_scene, quick=60, thorough=1500),
    Case('shell', drawn(gen.shells(max_n=2), ('linear', 'general')), check_scene, quick=120, thorough=3000),
]

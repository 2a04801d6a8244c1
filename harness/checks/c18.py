"""C18: generated meshes have the specified geometry, conforming and complete."""
import contextlib
import io
from math import hypot, pi, sin

import numpy as np
from hypothesis import strategies as st

from ..common import Case, require
from ..oracle import close

RULE = 'the mesh has more than two elements; for rectangles with openings, at least one element was left out'
ASSUMPTIONS = ['control points and openings lie within the mesh, which keeps at least one element',
               'circumferences are at least three mesh sizes; on annuli, frustra and cylinders the mesh size is a target, only radial and vertical sizes are bounded (by twice the mesh size)',
               'the large radius of a frustrum is at the level of its origin, the small one its height below along the axis, as the generator has always had it',
               'local x-axes run along the mesh\'s own x-axis (rectangle) or around the circumference (others)']
S = st.sampled_from([1.0, 1.0, 1.0, 0.001, 0.3048, 12.0, 1000.0, 25.4, 10000.0])
ORIGINS = st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(st.integers(-4000, 4000).map(lambda v: v/37), min_size=3, max_size=3))
FRAC = st.one_of(st.integers(1, 23).map(lambda v: v/24), st.integers(1, 9).map(lambda v: v/10), st.integers(1, 996).map(lambda v: v/997))
PROPS = st.fixed_dictionaries({'t': st.sampled_from([0.2, 0.35]), 'kx': st.sampled_from([1.0, 0.35]), 'ky': st.sampled_from([1.0, 0.7]), 'mat': st.sampled_from(['Mat', 'Other']),
                               's': S, 'origin': ORIGINS, 'start': st.sampled_from([None, None, None, 1, 7, 101]), 'taken': st.sampled_from([0, 0, 1, 2, 3]), 'tuple': st.booleans(),
                               'through': st.sampled_from(['generate', 'generate', 'analyze', 'twice'])})


@st.composite
def rectangles(draw):
    p = draw(PROPS)
    w, h = draw(st.integers(2, 48))/4, draw(st.integers(2, 48))/4
    p.update(kind='rectangle', w=w, h=h, size=max(w, h)/draw(st.one_of(st.integers(1, 14), st.integers(1, 14).map(lambda v: v + 0.37))), plane=draw(st.sampled_from(['XY', 'YZ', 'XZ'])), type=draw(st.sampled_from(['Quad', 'Rect'])),
             xc=draw(st.lists(FRAC, max_size=3)), yc=draw(st.lists(FRAC, max_size=3)), op=[], late=draw(st.booleans()))
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))):
        x, y = draw(st.one_of(st.just(0.0), FRAC)), draw(st.one_of(st.just(0.0), FRAC))
        p['op'].append([x, y, draw(FRAC)*(1 - x) if draw(st.integers(0, 5)) else 1 - x, draw(FRAC)*(1 - y) if draw(st.integers(0, 5)) else 1 - y])
    if draw(st.integers(0, 9)) == 0:
        p['xc'].append(draw(st.sampled_from([1e-17, 1 - 1e-16, 1.0, 0.0])))
    return p


@st.composite
def rounds(draw):
    p = draw(PROPS)
    kind = draw(st.sampled_from(['annulus', 'frustrum', 'cylinder']))
    r1 = draw(st.integers(4, 40))/4
    p.update(kind=kind, r1=r1, r2=r1*draw(st.sampled_from([0.05, 0.12, 0.3, 0.5, 0.8, 0.97])), h=draw(st.integers(1, 48))/4, axis=draw(st.sampled_from('XYZ')),
             type=draw(st.sampled_from(['Quad', 'Rect'])) if kind == 'cylinder' else 'Quad', num=draw(st.one_of(st.none(), st.integers(3, 17))) if kind == 'cylinder' else None)
    c = 2*pi*(p['r1'] if kind == 'cylinder' else p['r2'])
    p['size'] = c/draw(st.one_of(st.integers(4, 24), st.integers(3, 24).map(lambda v: v + 0.41)))
    p['size'] = max(p['size'], min(p['h']/15 if kind == 'cylinder' else r1/14, c/3.05))
    return p


def unsupported(m):
    """An analysis generates the meshes first; nothing is supported, so it need not come to a solution."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m.analyze()
    except Exception as e:
        if 'unstable' not in str(e).lower() and 'singular' not in str(e).lower():
            raise


def add_mesh(m, name, p):
    """Adds the mesh described by p, generates it and returns it."""
    s = p['s']
    o = [c*s for c in p['origin']]
    if p.get('tuple'):
        o = tuple(o)
    kw = {'kx_mod': p['kx'], 'ky_mod': p['ky'], 'origin': o}
    if p.get('start'):
        kw['start_node'], kw['start_element'] = f'N{p["start"]}', ('R' if p.get('type') == 'Rect' else 'Q') + str(p['start'])
    t = p['t']*s
    if p['kind'] == 'rectangle':
        xc, yc = [q*p['w']*s for q in p['xc']], [q*p['h']*s for q in p['yc']]
        before = (list(xc), list(yc))
        got = m.add_rectangle_mesh(name, p['size']*s, p['w']*s, p['h']*s, t, p['mat'], plane=p['plane'], x_control=xc or None, y_control=yc or None, element_type=p['type'], **kw)
        late = p['op'] and p.get('late')
        if late:
            m.meshes[got].generate()
        for k, (x, y, w, h) in enumerate(p['op']):
            m.meshes[got].add_rect_opening(f'O{k}', x*p['w']*s, y*p['h']*s, w*p['w']*s, h*p['h']*s)
        if late:
            m.meshes[got].generate()
        require((xc, yc) == before, 'adding a mesh changed the lists of control points it was given')
    elif p['kind'] == 'annulus':
        got = m.add_annulus_mesh(name, p['size']*s, p['r1']*s, p['r2']*s, t, p['mat'], axis=p['axis'], **kw)
    elif p['kind'] == 'frustrum':
        got = m.add_frustrum_mesh(name, p['size']*s, p['r1']*s, p['r2']*s, p['h']*s, t, p['mat'], axis=p['axis'], **kw)
    else:
        got = m.add_cylinder_mesh(name, p['size']*s, p['r1']*s, p['h']*s, t, p['mat'], axis=p['axis'], num_elements=p['num'], element_type=p['type'], **kw)
    require(name is None or got == name, f'mesh {name} was named {got}')
    mesh = m.meshes[got]
    if not mesh.is_generated():
        if p.get('through') == 'analyze':
            unsupported(m)
        else:
            mesh.generate()
    if p.get('through') == 'twice':
        mesh.generate()
    return mesh


def occupied(m, n):
    """Nodes, a plate and a quad that are in the model already, under names a mesh would use."""
    if n:
        for k, name in enumerate(['N1', 'N3', 'N12', 'N104'] if n != 2 else ['N2', 'N3', 'N4', 'N5']):
            m.add_node(name, -900.0 - k % 2, 0.0 + k//2, 7.0)
        a, b, c, d = list(m.nodes)
        if n > 1:
            m.add_quad('Q2', a, b, d, c, 0.1, 'Mat')
            m.add_plate('R3', a, b, d, c, 0.1, 'Mat')


def view(m):
    return {('node', k): (q.name, q.X, q.Y, q.Z) for k, q in m.nodes.items()} | \
           {(d, k): (q.name, q.t, q.i_node.name, q.j_node.name, q.m_node.name, q.n_node.name) for d in ('plates', 'quads') for k, q in getattr(m, d).items()}


def new_model():
    from PyNite import FEModel3D
    m = FEModel3D()
    m.add_material('Mat', 3e7, 1.25e7, 0.2, 24.0)
    m.add_material('Other', 2e8, 7.7e7, 0.3, 77.0)
    return m


def corners(e):
    return [e.i_node, e.j_node, e.m_node, e.n_node]


def consistent(m, mesh, p):
    """Names, membership and properties; returns the elements."""
    for d in ('nodes', 'plates', 'quads', 'members', 'springs'):
        for k, q in getattr(m, d).items():
            require(q.name == k, f'{d[:-1]} {q.name} is listed as {k}')
    els = list(mesh.elements.values())
    require(len(els) > 0, 'the mesh has no elements')
    store = m.plates if p['type'] == 'Rect' else m.quads
    for k, e in mesh.elements.items():
        require(k == e.name and store.get(k) is e, f'element {k} of the mesh is not in the model under its name')
        require(e.type == p['type'], f'element {k} is a {e.type}')
        require(e.kx_mod == p['kx'] and e.ky_mod == p['ky'], f'element {k} has modifiers {e.kx_mod}, {e.ky_mod} instead of {p["kx"]}, {p["ky"]}')
        close(e.t, p['t']*p['s'], 1e-12*p['s'], f'thickness of element {k}')
        require(e.E == m.materials[p['mat']].E and e.nu == m.materials[p['mat']].nu, f'element {k} has not got the material {p["mat"]}')
        require(len({id(c) for c in corners(e)}) == 4, f'element {k} uses a node twice')
        for c in corners(e):
            require(m.nodes.get(c.name) is c and mesh.nodes.get(c.name) is c, f'element {k} uses node {c.name}, which is not in the model and the mesh under that name')
    used = {c.name for e in els for c in corners(e)}
    require(used == set(mesh.nodes), f'nodes of the mesh that no element uses: {sorted(set(mesh.nodes) - used)[:5]}')
    return els


def conforming(els, flat):
    """Every side is shared by two elements running it in opposite senses, or on the boundary; returns boundary sides."""
    side = {}
    for e in els:
        c = corners(e)
        for a in range(4):
            k = (c[a].name, c[(a + 1) % 4].name)
            require(k not in side, f'two elements use the side {k} in the same sense: they overlap or face opposite ways')
            side[k] = (c[a], c[(a + 1) % 4])
    return [q for k, q in side.items() if (k[1], k[0]) not in side]


def distinct(mesh, tol):
    P = np.array([[q.X, q.Y, q.Z] for q in mesh.nodes.values()])
    o = np.lexsort(np.round(P/tol).T)
    d = np.abs(np.diff(P[o], axis=0)).max(axis=1) if len(P) > 1 else np.array([1.0])
    require(d.min() > tol, 'two nodes of the mesh are in the same place')


def check_rectangle(p):
    s = p['s']
    w, h = p['w']*s, p['h']*s
    op = [[x*w, y*h, (x + a)*w, (y + b)*h] for x, y, a, b in p['op']]
    xs, ys = sorted({0.0, w} | {q*w for q in p['xc']} | {q for o in op for q in (o[0], o[2])}), sorted({0.0, h} | {q*h for q in p['yc']} | {q for o in op for q in (o[1], o[3])})
    tol = 1e-9*max(w, h) + 1e-13*max(abs(c) for c in p['origin'])*s
    # drop slivers between controls that coincide but for round-off; leave out ones that are nearly but not quite the same
    for v in (xs, ys):
        d = np.diff(v)
        if any(1e-12*v[-1] < q < 1e-4*v[-1] for q in d):
            return ()
    inside = lambda x, y: any(o[0] < x < o[2] and o[1] < y < o[3] for o in op)
    area = sum((xs[i + 1] - xs[i])*(ys[j + 1] - ys[j]) for i in range(len(xs) - 1) for j in range(len(ys) - 1) if not inside((xs[i] + xs[i + 1])/2, (ys[j] + ys[j + 1])/2))
    if area < 1e-6*w*h:
        return ()
    m = new_model()
    occupied(m, p['taken'])
    old = view(m)
    mesh = add_mesh(m, 'MSH', p)
    now = view(m)
    require(all(now.get(k) == q for k, q in old.items()), 'generating a mesh changed nodes or elements that were there before')
    els = consistent(m, mesh, p)
    require(len(m.nodes) == len(mesh.nodes) + sum(k[0] == 'node' for k in old), 'nodes were left in the model that are not in the mesh')
    require(len(m.plates) + len(m.quads) == len(els) + sum(k[0] != 'node' for k in old), 'elements were left in the model that are not in the mesh')
    ax = {'XY': (0, 1, 2), 'YZ': (2, 1, 0), 'XZ': (0, 2, 1)}[p['plane']]
    o = np.array(p['origin'])*s

    def local(n):
        X = np.array([n.X, n.Y, n.Z]) - o
        return X[ax[0]], X[ax[1]], X[ax[2]]
    for n in mesh.nodes.values():
        x, y, z = local(n)
        require(-tol <= x <= w + tol and -tol <= y <= h + tol and abs(z) <= tol, f'node {n.name} at {(x, y, z)} is off the {w} by {h} rectangle')
        a, b = mesh.node_local_coords(n)
        close([a, b], [x, y], tol, f'local coordinates of node {n.name}')
    distinct(mesh, 1e-6*min(w, h)/max(len(els), 1)**0.5 if len(els) > 3 else tol)
    total = 0.0
    for e in els:
        c = np.array([local(n)[:2] for n in corners(e)])
        b, d = c[1, 0] - c[0, 0], c[3, 1] - c[0, 1]
        close(c, [[c[0, 0], c[0, 1]], [c[0, 0] + b, c[0, 1]], [c[0, 0] + b, c[0, 1] + d], [c[0, 0], c[0, 1] + d]], 2*tol, f'element {e.name} is not a rectangle along the mesh')
        require(b > tol and d > tol, f'element {e.name} is {b} by {d}: degenerate, or not facing the way of the mesh')
        require(b <= p['size']*s*(1 + 1e-9) + tol and d <= p['size']*s*(1 + 1e-9) + tol, f'element {e.name} is {b} by {d}, larger than the mesh size {p["size"]*s}')
        for k, v in ((0, xs), (1, ys)):
            for q in v:
                require(not (c[:, k].min() + 2*tol < q < c[:, k].max() - 2*tol), f'element {e.name} straddles the control line at {q}')
        require(not inside(*c.mean(axis=0)), f'element {e.name} is in an opening')
        total += b*d
    close(total, area, 1e-7*area, 'area of the elements (that of the rectangle less its openings)')
    for a, b in conforming(els, True):
        (x1, y1, _), (x2, y2, _) = local(a), local(b)
        on = lambda v, lines: any(abs(v - q) <= 2*tol for q in lines)
        vert = abs(x1 - x2) < abs(y1 - y2)
        lines = [0.0, w] + [q for o in op for q in (o[0], o[2])] if vert else [0.0, h] + [q for o in op for q in (o[1], o[3])]
        require(on(x1 if vert else y1, lines), f'side {a.name}-{b.name} at {(x1, y1)}-{(x2, y2)} belongs to one element only but is not on a boundary')
    names(m, mesh, p, old)
    return {'openings' if op else 'whole', p['plane'], p['type']} if len(els) > 2 else ()


def names(m, mesh, p, old):
    """New names continue after the start given, where those are free."""
    if p.get('through') == 'generate' and not p.get('late'):
        start = p.get('start') or None
        if start and not p['taken']:
            nums = sorted(int(k[1:]) for k in mesh.nodes)
            require(nums[0] >= start, f'the mesh was to start with node N{start} but has N{nums[0]}')
            nums = sorted(int(k[1:]) for k in mesh.elements)
            require(nums[0] >= start, f'the mesh was to start with element {start} but has {nums[0]}')
    for k in mesh.elements:
        require(k[0] == ('R' if p['type'] == 'Rect' else 'Q'), f'a {p["type"]} element is named {k}')
    from PyNite.Mesh import check_mesh_integrity
    said = check_mesh_integrity(mesh, console_log=False)
    require(said == ['No errors detected.'], f'the integrity check reports {said} for a freshly generated mesh')


def check_round(p):
    s = p['s']
    m = new_model()
    occupied(m, p['taken'])
    old = view(m)
    mesh = add_mesh(m, 'MSH', p)
    now = view(m)
    require(all(now.get(k) == q for k, q in old.items()), 'generating a mesh changed nodes or elements that were there before')
    els = consistent(m, mesh, p)
    require(len(m.nodes) == len(mesh.nodes) + sum(k[0] == 'node' for k in old), 'nodes were left in the model that are not in the mesh')
    require(len(m.plates) + len(m.quads) == len(els) + sum(k[0] != 'node' for k in old), 'elements were left in the model that are not in the mesh')
    r1, r2, h, size = p['r1']*s, p['r2']*s, p['h']*s, p['size']*s
    o = np.array(p['origin'])*s
    k = 'XYZ'.index(p['axis'])
    tol = 1e-9*max(r1, h) + 1e-13*np.abs(o).max()
    i, j = (k + 1) % 3, (k + 2) % 3

    def polar(n):
        X = np.array([n.X, n.Y, n.Z]) - o
        return hypot(X[i], X[j]), X[k], np.array([X[i], X[j]])
    ends = (0.0, h) if p['kind'] == 'cylinder' else (r2, r1)
    for n in mesh.nodes.values():
        r, z, _ = polar(n)
        if p['kind'] == 'cylinder':
            require(abs(r - r1) <= tol and -tol <= z <= h + tol, f'node {n.name} at radius {r} and height {z} is off the cylinder of radius {r1} and height {h}')
        else:
            want = 0.0 if p['kind'] == 'annulus' else (r - r1)/(r1 - r2)*h
            require(r2 - tol <= r <= r1 + tol and abs(z - want) <= 2*tol*(1 + h/(r1 - r2)), f'node {n.name} at radius {r} and level {z} is off the {p["kind"]} of radii {r1}, {r2} and height {h}')
    distinct(mesh, 1e-6*min(r1, size))
    at = lambda n: polar(n)[1] if p['kind'] == 'cylinder' else polar(n)[0]
    sense = None
    for e in els:
        c = corners(e)
        R = [polar(n)[2] for n in c]
        a, b = at(c[3]), at(c[0])
        require(abs(at(c[0]) - at(c[1])) <= 2*tol*(1 + h/r1), f'the first side of element {e.name} does not run around the circumference')
        require(b - a > tol or a - b > tol, f'element {e.name} is degenerate')
        require(abs(a - b) <= 2*size*(1 + 1e-9) + tol, f'element {e.name} measures {abs(a - b)} across the circumference, more than twice the mesh size {size}')
        if p['kind'] == 'cylinder':
            turn = R[0][0]*R[1][1] - R[0][1]*R[1][0]
            ok = b > a
        else:
            A = 0.5*sum(R[q][0]*R[(q + 1) % 4][1] - R[q][1]*R[(q + 1) % 4][0] for q in range(4))
            turn, ok = A, True
            cr = [(R[(q + 1) % 4] - R[q])[0]*(R[(q + 2) % 4] - R[(q + 1) % 4])[1] - (R[(q + 1) % 4] - R[q])[1]*(R[(q + 2) % 4] - R[(q + 1) % 4])[0] for q in range(4)]
            require(min(cr)*max(cr) > 0, f'element {e.name} is not convex')
        require(ok and turn != 0, f'element {e.name} is upside down')
        sense = sense or np.sign(turn)
        require(np.sign(turn) == sense, f'element {e.name} faces the other way than the rest')
    edge = {0: [], 1: []}
    for a, b in conforming(els, False):
        q = [w for w in (0, 1) if abs(at(a) - ends[w]) <= 2*tol and abs(at(b) - ends[w]) <= 2*tol]
        require(q, f'side {a.name}-{b.name} belongs to one element only but is not on an edge of the {p["kind"]}')
        edge[q[0]].append((a, b))
    for w in (0, 1):
        total = sum(np.arctan2(A[0]*B[1] - A[1]*B[0], A @ B) for A, B in ((polar(a)[2], polar(b)[2]) for a, b in edge[w]))
        close(abs(total), 2*pi, 1e-6, f'angle covered by the edge at {"height" if p["kind"] == "cylinder" else "radius"} {ends[w]}')
        ang = [np.arctan2(A[0]*B[1] - A[1]*B[0], A @ B) for A, B in ((polar(a)[2], polar(b)[2]) for a, b in edge[w])]
        close(np.abs(ang), np.full(len(ang), 2*pi/len(ang)), 1e-6, f'the edge at {ends[w]} is not divided evenly')
    if p['kind'] == 'cylinder':
        n = p['num'] or round(2*pi*p['r1']/p['size'])
        require(len(edge[0]) == n, f'{len(edge[0])} elements around the cylinder instead of {n}')
        theta = 2*pi/n
        area = h*n*2*r1*sin(theta/2)
        got = sum(np.linalg.norm(polar(corners(e)[1])[2] - polar(corners(e)[0])[2])*abs(at(corners(e)[0]) - at(corners(e)[3])) for e in els)
        close(got, area, 1e-6*area, 'area of the elements')
    else:
        n = [len(edge[0]), len(edge[1])]
        area = sum(q*N*0.5*r*r*sin(2*pi/N) for q, r, N in ((1, r1, n[1]), (-1, r2, n[0])))
        got = 0.0
        for e in els:
            R = [polar(q)[2] for q in corners(e)]
            got += abs(0.5*sum(R[q][0]*R[(q + 1) % 4][1] - R[q][1]*R[(q + 1) % 4][0] for q in range(4)))
        close(got, area, 1e-6*area, 'area of the elements in plan (that between the polygons along the two edges)')
    names(m, mesh, p, old)
    return {p['kind'], p['axis']} if len(els) > 2 else ()


@st.composite
def several(draw):
    ps = [draw(st.one_of(rectangles(), rounds())) for _ in range(draw(st.integers(2, 3)))]
    for p in ps:
        p.update(start=None, s=1.0, through='generate', late=False, op=[], taken=0)
        p['size'] = max(p['size'], max(p.get('w', 0), p.get('h', 0), p.get('r1', 0))/6)
        if p['kind'] in ('annulus', 'frustrum'):
            p['size'] = min(p['size'], 2*pi*p['r2']/3.01)
        elif p['kind'] == 'cylinder':
            p['size'] = min(p['size'], 2*pi*p['r1']/3.01)
    return [ps, draw(st.sampled_from(['at once', 'one by one', 'analyze', 'again'])), draw(st.booleans())]


def check_several(arg):
    """Several meshes in one model: none disturbs another, in whatever order they are added and generated."""
    ps, how, named = arg
    alone = []
    for p in ps:
        m = new_model()
        mesh = add_mesh(m, 'MSH', p)
        alone.append(shape(mesh))
    m = new_model()
    made = []
    if how == 'one by one':
        made = [add_mesh(m, f'M{k}' if named else None, p) for k, p in enumerate(ps)]
    else:
        for k, p in enumerate(ps):
            before = set(m.meshes)
            q = dict(p)
            if how == 'analyze' or p['kind'] == 'cylinder':
                pass
            add_only(m, f'M{k}' if named else None, q)
            made.append(m.meshes[(set(m.meshes) - before).pop()])
        if how == 'analyze':
            unsupported(m)
        else:
            for mesh in made:
                if not mesh.is_generated():
                    mesh.generate()
        if how == 'again':
            for mesh in made:
                mesh.generate()
    require(len(m.meshes) == len(ps), f'{len(m.meshes)} meshes instead of {len(ps)}')
    for p, mesh, want in zip(ps, made, alone):
        consistent(m, mesh, p)
        got = shape(mesh)
        require(len(got) == len(want), f'a {p["kind"]} mesh has {len(got)} elements next to other meshes instead of {len(want)}')
        close(got, want, 1e-9*(1 + np.abs(want).max()), f'corners of the elements of a {p["kind"]} mesh next to other meshes')
    require(sum(len(q.nodes) for q in made) == len(m.nodes), 'meshes share nodes or nodes were lost')
    require(sum(len(q.elements) for q in made) == len(m.quads) + len(m.plates), 'meshes share elements or elements were lost')
    return {how, f'{len(ps)} meshes'}


def shape(mesh):
    return np.array([[[c.X, c.Y, c.Z] for c in corners(e)] for e in mesh.elements.values()])


def add_only(m, name, p):
    kw = {'kx_mod': p['kx'], 'ky_mod': p['ky'], 'origin': list(p['origin'])}
    if p['kind'] == 'rectangle':
        m.add_rectangle_mesh(name, p['size'], p['w'], p['h'], p['t'], p['mat'], plane=p['plane'], x_control=[q*p['w'] for q in p['xc']], y_control=[q*p['h'] for q in p['yc']], element_type=p['type'], **kw)
    elif p['kind'] == 'annulus':
        m.add_annulus_mesh(name, p['size'], p['r1'], p['r2'], p['t'], p['mat'], axis=p['axis'], **kw)
    elif p['kind'] == 'frustrum':
        m.add_frustrum_mesh(name, p['size'], p['r1'], p['r2'], p['h'], p['t'], p['mat'], axis=p['axis'], **kw)
    else:
        m.add_cylinder_mesh(name, p['size'], p['r1'], p['h'], p['t'], p['mat'], axis=p['axis'], num_elements=p['num'], element_type=p['type'], **kw)


CASES = [
    Case('rectangle', rectangles(), check_rectangle, quick=500, thorough=12000),
    Case('round', rounds(), check_round, quick=300, thorough=8000),
    Case('several', several(), check_several, quick=120, thorough=3000),
]

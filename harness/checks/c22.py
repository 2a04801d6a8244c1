"""C22: the generated report states the model and its results truthfully."""
import sys
import types
from html.parser import HTMLParser

from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import results, same
from .c09 import collinear
from .c13 import one_way_frames
from .c26 import Named, explicit

RULE = 'at least one section with results is switched on and the model has non-zero results'
ASSUMPTIONS = ['the conversion of the HTML to PDF (pdfkit with wkhtmltopdf, not installed here) is replaced by a stand-in that records the HTML it is given',
               'values are compared to three significant digits (two for plates and quads), the digits displayed being four and three',
               'names hold no characters special to HTML']
SWITCHES = ('node_table', 'member_table', 'member_releases', 'plate_table', 'node_reactions', 'node_displacements', 'member_end_forces', 'member_internal_forces',
            'plate_corner_forces', 'plate_center_forces', 'plate_corner_membrane', 'plate_center_membrane')
printed = []


def reporting():
    """The reporting module, with a stand-in for the PDF converter."""
    if 'pdfkit' not in sys.modules:
        stub = types.ModuleType('pdfkit')
        stub.from_string = lambda html, path=None, *a, **k: printed.append((html, path)) or True
        sys.modules['pdfkit'] = stub
    from PyNite import Reporting
    return Reporting


class Tables(HTMLParser):
    """Rows of data cells under each third level heading."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.out, self.head, self.cell, self.row = {}, None, None, None
        self.order = []

    def handle_starttag(self, tag, attrs):
        if tag == 'h3':
            self.head = ''
        elif tag == 'tr':
            self.row = []
        elif tag == 'td':
            self.cell = ''

    def handle_data(self, data):
        if self.cell is not None:
            self.cell += data
        elif self.head is not None and not self.order or self.head is not None and self.head not in self.out:
            self.head += data

    def handle_endtag(self, tag):
        if tag == 'h3':
            self.head = self.head.strip()
            self.order.append(self.head)
            require(self.head not in self.out, f'section {self.head!r} appears twice')
            self.out[self.head] = []
        elif tag == 'td':
            self.row.append(self.cell.strip())
            self.cell = None
        elif tag == 'tr':
            if self.row:
                self.out[self.head].append(self.row)
            self.row = None


def report(m, **kw):
    R = reporting()
    printed.clear()
    try:
        R.create_report(m, output_filepath='/nowhere/report.pdf', **kw)
    except Exception as e:
        raise Violation(f'creating the report fails with {type(e).__name__}: {e}')
    require(len(printed) == 1, f'{len(printed)} documents were printed')
    html, path = printed[0]
    require(str(path) == '/nowhere/report.pdf', f'the report went to {path}')
    t = Tables()
    t.feed(html)
    return t.out


def expected(m, spec, names, combos):
    """{section title: (switch, number of significant digits, [rows])}: cells are text, or numbers."""
    n = names
    N = [n.node(i) for i in range(len(spec['nodes']))]
    sup = {i: [False]*6 for i in range(len(N))}
    for k, s in spec['sup']:
        sup[k] = [bool(b) for b in s]
    mem = [(n.member(i), m.members[n.member(i)], e, specs.length(spec, e)) for i, e in enumerate(spec['members'])]
    out = {}
    out['Nodes & Supports'] = ('node_table', 4, [[N[i], *map(float, p), *[str(b) for b in sup[i]]] for i, p in enumerate(spec['nodes'])])
    mats = spec['mats']
    out['Members'] = ('member_table', 4, [[k, N[e['i']], N[e['j']], *[float(e[w]) for w in ('A', 'Iy', 'Iz', 'J')], float(mats[e['mat']][0]), float(mats[e['mat']][1])] for k, _, e, _ in mem])
    out['Member End Releases'] = ('member_releases', 4, [[k, *[str(bool(r)) for r in (e.get('rel') or [0]*12)]] for k, _, e, _ in mem])
    for title, kind in (('Plates', 'plate'), ('Quads', 'quad')):
        out[title] = ('plate_table', 4, [[getattr(n, kind)(i), *[N[c] for c in e['n']], float(e['t']), float(mats[e['mat']][0]), float(mats[e['mat']][2])] for i, e in enumerate(spec[kind + 's'])])
    num = specs.num
    out['Node Reactions'] = ('node_reactions', 4, [[k, c, *[num(getattr(m.nodes[k], d)[c]) for d in specs.RXN]] for c in combos for k in N])
    out['Node Displacements'] = ('node_displacements', 4, [[k, c, *[num(getattr(m.nodes[k], d)[c]) for d in specs.DOF]] for c in combos for k in N])
    A = lambda q, w, x, c: specs.at(q, w, x, c)
    out['Member End Forces'] = ('member_end_forces', 4, [[k, c, A(q, 'axial', 0, c), A(q, 'axial', L, c), A(q, 'Fy', 0, c), A(q, 'Fz', 0, c), A(q, 'Fy', L, c), A(q, 'Fz', L, c),
                                                         A(q, 'My', 0, c), A(q, 'Mz', 0, c), A(q, 'My', L, c), A(q, 'Mz', L, c), A(q, 'torque', 0, c), A(q, 'torque', L, c)]
                                                        for c in combos for k, q, _, L in [(k, q, e, q.L()) for k, q, e, _ in mem]])
    X = lambda q, c: [specs.extreme(q, w, what, c) for what in ('axial', 'Fy', 'Fz', 'My', 'Mz', 'torque') for w in ('max', 'min')]
    out['Member Max/Min Internal Forces'] = ('member_internal_forces', 4, [[k, c, *X(q, c)] for c in combos for k, q, _, _ in mem])
    shell = []
    for c in combos:
        for kind in ('plate', 'quad'):
            for i in range(len(spec[kind + 's'])):
                e = getattr(m, kind + 's')[getattr(n, kind)(i)]
                b, h = (e.width(), e.height()) if kind == 'plate' else (0, 0)
                at = [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, 0)] if kind == 'quad' else [(0, 0), (b, 0), (b, h), (0, h), (b/2, h/2)]
                shell.append((e.name, c, [[specs.vec(getattr(e, w)(x, y, True, c)) for w in ('shear', 'moment', 'membrane')] for x, y in at]))
    out['Plate Out-of-Plane Corner Forces'] = ('plate_corner_forces', 3, [[k, c, *[float(v) for p in P[:4] for w in p[:2] for v in w]] for k, c, P in shell])
    out['Plate Out-of-Plane Center Forces'] = ('plate_center_forces', 3, [[k, c, *[float(v) for w in P[4][:2] for v in w]] for k, c, P in shell])
    out['In-Plane (Membrane) Corner Stresses'] = ('plate_corner_membrane', 3, [[k, c, *[float(v) for p in P[:4] for v in p[2]]] for k, c, P in shell])
    out['In-Plane (Membrane) Center Stresses'] = ('plate_center_membrane', 3, [[k, c, *[float(v) for v in P[4][2]]] for k, c, P in shell])
    return out


def agree(got, want, digits, what):
    require(len(got) == len(want), f'{what}: {len(got)} cells instead of {len(want)}')
    for j, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, str):
            require(g == w, f'{what}: cell {j} shows {g!r} instead of {w!r}')
            continue
        try:
            v = float(g)
        except ValueError:
            raise Violation(f'{what}: cell {j} shows {g!r} instead of a number')
        require(abs(v - w) <= 0.51*10.0**(1 - digits)*abs(w) + 1e-300, f'{what}: cell {j} shows {g} instead of {w!r}')


def compare(got, m, spec, names, combos, off):
    want = expected(m, spec, names, combos)
    titles = [t for t, (s, _, _) in want.items() if s not in off]
    require(sorted(got) == sorted(titles), f'sections {sorted(set(got) ^ set(titles))} are missing or should be absent (switched off: {off})')
    for t in titles:
        _, digits, rows = want[t]
        require(len(got[t]) == len(rows), f'section {t!r} has {len(got[t])} rows instead of {len(rows)}')
        # items of a kind keep together with their combination; the order of the rows does not matter
        have = {}
        for r in got[t]:
            have.setdefault(tuple(c for c, w in zip(r, rows[0]) if isinstance(w, str)) if t in ('Members', 'Plates', 'Quads') else tuple(r[:1 + (t not in FIRST)]), []).append(r)
        for w in rows:
            key = tuple(c for c in w if isinstance(c, str)) if t in ('Members', 'Plates', 'Quads') else tuple(w[:1 + (t not in FIRST)])
            found = have.get(key)
            require(found, f'section {t!r} has no row for {key}')
            # a plate and a quad may share their name
            last = None
            for r in found:
                try:
                    agree(r, w, digits, f'section {t!r}, {key}')
                    break
                except Violation as e:
                    last = e
            else:
                raise last


FIRST = ('Nodes & Supports', 'Member End Releases')


@st.composite
def reported(draw, base, kinds):
    spec = explicit(draw(base))
    style = draw(st.sampled_from(['plain', 'plain', 'reversed', 'same', 'text', 'digits']))
    tags = None
    if draw(st.integers(0, 3)) == 0:
        for c in spec['combos']:
            c[1] = draw(st.sampled_from([['a'], ['b'], ['a', 'b']]))
        tags = draw(st.sampled_from([['a'], ['b'], ['a', 'b']]))
    on = draw(st.one_of(st.just(list(SWITCHES)), st.lists(st.sampled_from(SWITCHES), min_size=1, unique=True), st.lists(st.sampled_from(SWITCHES), min_size=8, unique=True)))
    return [spec, style, draw(st.integers(0, 5)), tags, draw(st.sampled_from(list(kinds))), [s for s in SWITCHES if s not in on], draw(st.booleans()), draw(st.booleans())]


def check_report(arg):
    spec, style, shift, tags, kind, off, say, again = arg
    names = Named(style, shift)
    m = specs.build(spec, names)
    try:
        specs.analyze(m, kind, **({'combo_tags': tags} if tags else {}))
    except Exception as e:
        if 'diverged' in str(e) or (kind == 'pdelta' and ('singular' in str(e).lower() or 'unstable' in str(e).lower())):
            return ()
        raise
    combos = [names.combo(ci) for ci, (_, t) in enumerate(specs.combos(spec)) if not tags or (t and set(t) & set(tags))]
    kw = {s: False for s in off}
    if say:
        kw.update({s: True for s in SWITCHES if s not in off})
    before = [{k: dict(getattr(q, k)) for k in specs.DOF + specs.RXN} for q in m.nodes.values()]
    got = report(m, **kw)
    compare(got, m, spec, names, combos, off)
    require(before == [{k: dict(getattr(q, k)) for k in specs.DOF + specs.RXN} for q in m.nodes.values()], 'the report changed the results of the model')
    if again:
        full = report(m)
        compare(full, m, spec, names, combos, [])
    big = max((abs(v) for q in before for d in q.values() for v in map(float, d.values())), default=0.0)
    shown = [s for s in SWITCHES[4:] if s not in off]
    if not shown or not combos or big < 1e-12:
        return ()
    return {f'{len(shown)} sections of results', f'{len(combos)} combinations', style} | ({'tags'} if tags else set()) | ({kind})


CASES = [
    Case('frame', reported(gen.frames(max_members=4, n_combos=(1, 3)), ('linear', 'general', 'pdelta')), check_report, quick=320, thorough=8000),
    Case('along', reported(collinear(), ('linear', 'general')), check_report, quick=100, thorough=3000),
    Case('one_way', reported(one_way_frames(), ('general',)), check_report, quick=100, thorough=3000),
    Case('shell', reported(gen.shells(max_n=2), ('linear', 'general')), check_report, quick=160, thorough=4000),
]

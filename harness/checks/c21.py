"""C21: combination tags and reporting options select without altering."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case, Violation, require
from ..oracle import results, same, size
from .c01 import load_resultants
from .c09 import collinear
from .c13 import one_way_frames

RULE = 'the model has non-zero results; for tags, some combinations are selected and others not; for the statics check, some sum is not zero'
ASSUMPTIONS = ['the sums printed by the statics check are compared to the three significant digits shown']
FR = (0.00037, 0.2307, 0.48713, 0.81109, 0.99963)
TAGS = ('a', 'b', 'strength', 'ab')


@st.composite
def tagged(draw, base, kinds):
    spec = draw(base)
    while len(spec['combos']) < 2:
        draw(gen.combinations(spec, 1, 2))
    for q in spec['combos']:
        q[1] = draw(st.one_of(st.none(), st.lists(st.sampled_from(TAGS), max_size=3, unique=True), st.lists(st.sampled_from(TAGS[:2]), min_size=1, max_size=2, unique=True)))
    want = draw(st.one_of(st.lists(st.sampled_from(TAGS + ('other',)), max_size=3), st.lists(st.sampled_from(TAGS[:2]), min_size=1, max_size=2)))
    return [spec, want, draw(st.sampled_from(list(kinds))), draw(st.booleans()), draw(st.booleans()), draw(st.booleans()),
            draw(st.sampled_from(['fresh', 'after all', 'after others', 'tuple']))]


def stored(m, combo):
    """Result tables that hold something for a combination."""
    out = []
    for n in m.nodes.values():
        for d in specs.DOF + specs.RXN:
            if combo in getattr(n, d):
                out.append(f'{d} of node {n.name}')
    return out


def refuses(call):
    try:
        call()
    except Exception:
        return True
    return False


def check_tags(arg):
    spec, want, kind, sparse, log, statics, history = arg
    kw = {'sparse': sparse}
    opt = dict(kw, log=log)
    if kind != 'pdelta':
        opt['check_statics'] = statics
    full = specs.build(spec)
    part = specs.build(spec)
    try:
        specs.analyze(full, kind, **kw)
        if history == 'after all':
            specs.analyze(part, 'general' if kind == 'linear' else kind, **kw)
        elif history == 'after others':
            specs.analyze(part, kind, combo_tags=['other', 'strength'], **kw)
    except Exception as e:
        if 'diverged' in str(e) or (kind == 'pdelta' and ('singular' in str(e).lower() or 'unstable' in str(e).lower())):
            return ()
        raise
    out = specs.analyze(part, kind, combo_tags=tuple(want) if history == 'tuple' else list(want), **opt)
    sel = [ci for ci, (f, t) in enumerate(specs.combos(spec)) if t is not None and set(t) & set(want)]
    big = False
    for ci in range(len(specs.combos(spec))):
        combo = specs.NAMES.combo(ci)
        if ci in sel:
            ra, rb = results(full, spec, combo, fracs=FR), results(part, spec, combo, fracs=FR)
            big = big or size(ra) > 1e-6
            same(rb, ra, f'{combo} (tags {specs.combos(spec)[ci][1]}) analysed with tags {want}', rtol=1e-9)
        else:
            left = stored(part, combo)
            require(not left, f'{combo} (tags {specs.combos(spec)[ci][1]}) was not analysed with tags {want}, yet there are results: {left[:3]}')
            require(refuses(lambda: part.D(combo)), f'{combo} (tags {specs.combos(spec)[ci][1]}) was not analysed with tags {want}, yet there is a displacement vector')
            for i in range(len(spec['members'])):
                mem = part.members[specs.NAMES.member(i)]
                for w in ('axial', 'Fy', 'My', 'torque', 'dy'):
                    require(refuses(lambda: specs.at(mem, w, 0.3*specs.length(spec, spec['members'][i]), combo)),
                            f'{w} of member {i} is reported for {combo}, which was not analysed with tags {want}')
            for i in range(len(spec['springs'])):
                require(refuses(lambda: part.springs[specs.NAMES.spring(i)].axial(combo)), f'the force of spring {i} is reported for {combo}, not analysed')
            for k in ('plate', 'quad'):
                for i in range(len(spec[k + 's'])):
                    e = getattr(part, k + 's')[getattr(specs.NAMES, k)(i)]
                    require(refuses(lambda: e.moment(0.0, 0.0, True, combo)), f'moments of {k} {i} are reported for {combo}, not analysed')
    if opt.get('check_statics'):
        shown = [r[0] for r in table(out)]
        require(shown == [specs.NAMES.combo(ci) for ci in sel], f'the statics check lists {shown} instead of the combinations analysed {sel}')
    if not big or len(sel) == len(spec['combos']):
        return ()
    return {f'{kind}', f'history: {history}', f'{len(sel)} of {len(spec["combos"])} selected'} | ({'log'} if log else set()) | ({'statics'} if opt.get('check_statics') else set())


# ---------------------------------------------------------------------------- statics check
def table(text):
    """Rows of the table printed by the statics check."""
    rows = [[c.strip() for c in line.strip().strip('|').split('|')] for line in text.splitlines() if line.strip().startswith('|') and line.count('|') > 5]
    require(rows and rows[0][0] == 'Load Combination', 'no statics table was printed')
    require(rows[0][1:] == ['Sum FX', 'Sum RX', 'Sum FY', 'Sum RY', 'Sum FZ', 'Sum RZ', 'Sum MX', 'Sum RMX', 'Sum MY', 'Sum RMY', 'Sum MZ', 'Sum RMZ'],
            f'columns of the statics table: {rows[0]}')
    return rows[1:]


def shown_as(value, text, noise):
    """Whether a value may be displayed like this with three significant digits."""
    try:
        v = float(text)
    except ValueError:
        return False
    return abs(v - value) <= 0.0051*abs(value) + noise


def check_statics(arg):
    spec, kind, sparse, log = arg
    m = specs.build(spec)
    try:
        out = specs.analyze(m, kind, check_statics=True, sparse=sparse, log=log)
    except Exception as e:
        if 'diverged' in str(e):
            return ()
        raise
    rows = table(out)
    cs = specs.combos(spec)
    require(len(rows) == len(cs), f'{len(rows)} rows for {len(cs)} combinations')
    X = np.array(spec['nodes'], float)
    labels = set()
    for ci, (row, (factors, _)) in enumerate(zip(rows, cs)):
        combo = specs.NAMES.combo(ci)
        require(row[0] == combo, f'row {ci} is for {row[0]}')
        F, M, size_ = np.zeros(3), np.zeros(3), 1e-3
        for p, f, mm in load_resultants(spec, factors):
            F, M = F + f, M + mm + np.cross(p, f)
            size_ = max(size_, np.abs(f).max(), np.abs(mm).max())
        R = specs.reac(m, combo, count=len(X))
        size_ = max(size_, np.abs(R).max())
        span = max(1.0, np.abs(X).max())
        RF, RM = R[:, :3].sum(axis=0), (R[:, 3:] + np.cross(X, R[:, :3])).sum(axis=0)
        n1, n2 = 1e-6*size_, 1e-6*size_*span
        if spec['plates'] or spec['quads']:
            # (their weak drilling springs take a moment that is not a reaction; the applied loads are still shown as they are)
            n2r = None
        else:
            n2r = n2
        for k in range(3):
            for col, val, noise, what in ((1 + 2*k, F[k], n1, 'applied force'), (2 + 2*k, RF[k], n1, 'reaction force'),
                                          (7 + 2*k, M[k], n2, 'applied moment'), (8 + 2*k, RM[k], n2, 'reaction moment')):
                require(shown_as(val, row[col], noise), f'{combo}: the sum of the {what}s about/along {"XYZ"[k]} is shown as {row[col]} instead of {val:.6g}')
            a, b = float(row[1 + 2*k]), float(row[2 + 2*k])
            require(abs(a + b) <= 0.0101*max(abs(a), abs(b)) + 2*n1, f'{combo}: loads {a} and reactions {b} along {"XYZ"[k]} do not balance')
            if n2r is not None:
                a, b = float(row[7 + 2*k]), float(row[8 + 2*k])
                require(abs(a + b) <= 0.0101*max(abs(a), abs(b)) + 2*n2, f'{combo}: loads {a} and reactions {b} about {"XYZ"[k]} do not balance')
        if np.abs(F).max() > 1e-3:
            labels.add('forces')
        if np.abs(M).max() > 1e-3:
            labels.add('moments')
    return labels and labels | {kind}


LIN = ('linear', 'general')
CASES = [
    Case('tags', tagged(gen.frames(max_members=4, n_combos=(2, 4)), LIN + ('pdelta',)), check_tags, quick=480, thorough=12000),
    Case('tags_along', tagged(collinear(), LIN), check_tags, quick=120, thorough=4000),
    Case('tags_one_way', tagged(one_way_frames(), ('general',)), check_tags, quick=160, thorough=6000),
    Case('tags_shell', tagged(gen.shells(max_n=2), LIN), check_tags, quick=80, thorough=3000),
    Case('statics', st.tuples(gen.frames(max_members=5), st.sampled_from(LIN), st.booleans(), st.booleans()), check_statics, quick=480, thorough=12000),
    Case('statics_one_way', st.tuples(one_way_frames(), st.just('general'), st.booleans(), st.booleans()), check_statics, quick=160, thorough=6000),
    Case('statics_shell', st.tuples(gen.shells(max_n=2), st.sampled_from(LIN), st.booleans(), st.booleans()), check_statics, quick=80, thorough=3000),
]

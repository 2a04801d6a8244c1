"""C04: all solvers and solver options give the same answer; running again changes nothing."""
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case
from ..oracle import results, same, size

RULE = 'the model has non-zero results; the labels give the analyses compared'
ASSUMPTIONS = ['"the same" means within 1e-6 of the largest result, exactly repeated runs within 1e-12 of it',
               'P-Delta is compared with first order on grillages (loads that cause no axial force) and on plates/quads (which it ignores)']


@st.composite
def options(draw, kinds):
    k = draw(st.sampled_from(list(kinds)))
    o = {'kind': k, 'sparse': draw(st.booleans()), 'check_stability': draw(st.booleans()), 'log': draw(st.booleans())}
    if k != 'pdelta':
        o['check_statics'] = draw(st.booleans())
    return o


@st.composite
def case(draw, base, kinds):
    return [draw(base), draw(st.lists(options(kinds), min_size=2, max_size=4)), draw(st.booleans())]


@st.composite
def grillages(draw):
    """A horizontal frame with loads out of its plane only: no axial forces."""
    spec = specs.empty()
    spec['mats'] = [list(gen.MATS[0])]
    n = draw(st.integers(1, 4))
    spec['nodes'] = [[0.0, 1.5, 0.0]]
    for _ in range(n):
        i = draw(st.integers(0, len(spec['nodes']) - 1))
        p = [spec['nodes'][i][0] + draw(st.integers(2, 16))/4*draw(st.sampled_from([-1, 1])), 1.5,
             spec['nodes'][i][2] + draw(st.sampled_from([0.0, 1.0, -2.5, 4.0]))]
        if any(gen._close(p, q) for q in spec['nodes']):
            continue
        spec['nodes'].append(p)
        m = {'i': i, 'j': len(spec['nodes']) - 1, 'mat': 0, **draw(gen.section())}
        if gen.near_colinear(spec, m):
            spec['nodes'].pop()
            continue
        spec['members'].append(m)
    if not spec['members']:
        spec['nodes'].append([4.0, 1.5, 0.0])
        spec['members'].append({'i': 0, 'j': len(spec['nodes']) - 1, 'mat': 0, **draw(gen.section())})
    spec['sup'] = [[0, [1]*6]]
    for k in range(1, len(spec['nodes'])):
        if draw(st.integers(0, 2)) == 0:
            spec['sup'].append([k, [0, 1, 0, 0, 0, 0]])
    for m in spec['members']:
        if draw(st.integers(0, 3)) == 0:
            m['rel'] = [0]*12
            m['rel'][draw(st.sampled_from([5, 11]))] = 1
            if not gen.ok(spec):
                del m['rel']
    if draw(st.booleans()):
        spec['sprsup'].append([len(spec['nodes']) - 1, draw(st.sampled_from([1, 3, 5])), 900.0, None])
    for _ in range(draw(st.integers(1, 4))):
        c = draw(gen.case_no)
        kind = draw(st.integers(0, 3))
        k = draw(st.integers(0, len(spec['members']) - 1))
        L = specs.length(spec, spec['members'][k])
        if kind == 0:
            spec['nl'].append([draw(st.integers(0, len(spec['nodes']) - 1)), draw(st.sampled_from([1, 3, 5])), draw(gen.mag), c])
        elif kind == 1:
            spec['pl'].append([k, draw(st.sampled_from(['FY', 'Fy', 'Mz', 'Mx'])), draw(gen.mag), draw(gen.frac)*L, c])
        else:
            spec['dl'].append([k, draw(st.sampled_from(['FY', 'Fy'])), draw(gen.mag), draw(gen.mag), None, None, c])
    draw(gen.combinations(spec, 0, 2))
    return spec


def run(spec, o):
    m = specs.build(spec)
    return run_on(m, o)


def run_on(m, o):
    o = dict(o)
    specs.analyze(m, o.pop('kind'), **o)
    return m


def check(arg):
    spec, opts, reuse = arg
    ref = run(spec, {'kind': 'general'})
    n = len(specs.combos(spec))
    want = [results(ref, spec, f'Combo {k + 1}') for k in range(n)]
    m = None
    for o in opts:
        m = run_on(m, o) if reuse and m is not None else run(spec, o)
        for k in range(n):
            same(results(m, spec, f'Combo {k + 1}'), want[k], f'{o} against the default analysis, combination {k + 1}')
    # running the same analysis again
    before = [results(m, spec, f'Combo {k + 1}') for k in range(n)]
    run_on(m, opts[-1])
    for k in range(n):
        same(results(m, spec, f'Combo {k + 1}'), before[k], f'{opts[-1]} run again, combination {k + 1}', rtol=1e-12)
    if not any(size(r) > 1e-6 for r in want):
        return ()
    return {o['kind'] + (' sparse' if o['sparse'] else ' dense') for o in opts} | ({'reanalysed'} if reuse else set())


CASES = [
    Case('frame', case(gen.frames(max_members=4), ('general', 'linear')), check, quick=480, thorough=12000),
    Case('grillage', case(grillages(), specs.ANALYSES), check, quick=480, thorough=12000),
    Case('shell', case(gen.shells(max_n=2, members=False), specs.ANALYSES), check, quick=120, thorough=2500),
    Case('shell_frame', case(gen.shells(max_n=2), ('general', 'linear')), check, quick=80, thorough=2000),
]

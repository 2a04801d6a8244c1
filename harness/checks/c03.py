"""C03: load combinations superpose linearly."""
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case
from ..oracle import combine, results, same, scale_max, size

RULE = 'the combination has non-zero results and combines two or more load cases, or a factor other than one'
ASSUMPTIONS = ['support displacements belong to no load case and act fully in every combination (so results are affine in the factors)']


@st.composite
def with_combos(draw, base):
    spec = draw(base)
    if not spec['combos']:
        draw(gen.combinations(spec, 1, 3))
    kind = draw(st.sampled_from(specs.ANALYSES[:2]))
    perm = draw(st.permutations(range(len(spec['combos']))))
    return [spec, kind, list(perm)]


def only_case(spec, c):
    s = specs.copy(spec)
    for key in ('nl', 'pl', 'dl', 'sw', 'pp'):
        s[key] = [q for q in s[key] if (q[-1] or 0) == c]
    s['combos'] = []
    for key in ('nl', 'pl', 'dl', 'sw', 'pp'):
        for q in s[key]:
            q[-1] = None            # no case given: the default case of the default combination
    return s


def check(arg):
    spec, kind, perm = arg
    m = specs.build(spec)
    specs.analyze(m, kind)
    base = only_case(spec, 99)
    m0 = specs.build(base)
    specs.analyze(m0, kind)
    r0 = results(m0, spec, 'Combo 1')
    single = {}
    labels = set()
    for ci, (factors, _) in enumerate(specs.combos(spec)):
        parts, tot = [], 1.0
        for c, f in factors.items():
            if c not in single:
                mc = specs.build(only_case(spec, c))
                specs.analyze(mc, kind)
                single[c] = results(mc, spec, 'Combo 1')
            parts.append((f, single[c]))
            tot -= f
        parts.append((tot, r0))
        want = combine(parts)
        got = results(m, spec, f'Combo {ci + 1}')
        sc = scale_max(got, want, *[r for _, r in parts], factors=[1, 1] + [f for f, _ in parts])
        same(got, want, f'combination {ci + 1} against the weighted sum of its cases', sc)
        if size(got) > 1e-6 and (len([1 for f, r in parts[:-1] if size(r) > 1e-6]) > 1):
            labels.add('several loaded cases')
        elif size(got) > 1e-6 and any(f != 1.0 for f in factors.values()):
            labels.add('factored case')
    # order of the combinations and of the factors in them, and the default case under its name
    other = specs.copy(spec)
    other['combos'] = [[dict(reversed(list(spec['combos'][q][0].items()))), spec['combos'][q][1]] for q in perm]
    for key in ('nl', 'pl', 'dl', 'sw', 'pp'):
        for q in other[key]:
            if q[-1] == 0:
                q[-1] = None
    m2 = specs.build(other)
    specs.analyze(m2, kind)
    for new, old in enumerate(perm):
        a, b = results(m2, spec, f'Combo {new + 1}'), results(m, spec, f'Combo {old + 1}')
        sc = scale_max(a, b, *single.values(), r0, factors=[1, 1] + [2]*(len(single) + 1))
        same(a, b, f'combination {old + 1} in another order', sc)
    return labels


CASES = [
    Case('frame', with_combos(gen.frames(max_members=4, n_loads=(2, 6))), check, quick=480, thorough=12000),
    Case('shell', with_combos(gen.shells(max_n=2, n_loads=(2, 4))), check, quick=160, thorough=3000),
]

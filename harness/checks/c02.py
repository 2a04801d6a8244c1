"""C02: frame results against an independent direct-stiffness solution."""
from hypothesis import strategies as st  # noqa: F401

from .. import gen, specs
from ..common import Case
from ..oracle import compare_solution
from ..refmodel import solve_all

RULE = ('a case counts as non-trivial when it is a stable frame whose results are not all zero and it has at least one of: several '
        'members, auxiliary nodes, releases, springs, spring supports, enforced displacements, member loads, self weight')
ASSUMPTIONS = ['the reference solver (harness/refmodel.py) is correct', 'relative tolerance 1e-6 of the largest result of the model',
               'generated frames have a scaled condition number below 1e7']


def check(spec):
    ref, sols = solve_all(spec)
    m = specs.build(spec)
    specs.analyze(m, 'linear' if len(spec['nodes']) % 2 else 'general')
    big = False
    for k, sol in enumerate(sols):
        compare_solution(m, spec, sol, specs.NAMES.combo(k))
        big = big or sol.scales()[2] > 1e-6
    return gen.label_set(spec) if big else ()


CASES = [
    Case('frame', gen.frames(), check, quick=2400, thorough=60000),
    Case('single', gen.frames(min_members=1, max_members=1, extra=0), check, quick=1200, thorough=20000),
    Case('large', gen.frames(min_members=6, max_members=14, extra=4, n_loads=(3, 10)), check, quick=240, thorough=6000),
]

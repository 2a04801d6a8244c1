"""C26: names and order of definition do not matter; swapping the ends of a member mirrors its local results."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, specs
from ..common import Case
from ..oracle import results, same, size
from ..refmodel import axes, second_order_safe
from .c06 import idle_supports
from .c09 import collinear
from .c13 import converged_is_consistent, inactive, one_way_frames

RULE = 'the model has non-zero results and something was renamed, defined in another order or listed from its other end'
ASSUMPTIONS = ['renamed cases are given explicitly with every load and combination', 'member results are compared away from concentrated loads',
               'after a P-Delta analysis the results within a member whose ends were swapped are not compared']
FR = (0.00037, 0.2307, 0.48713, 0.51287, 0.7693, 0.99963)     # (symmetric)
KINDS = ('mats', 'nodes', 'members', 'springs', 'plates', 'quads', 'sup', 'sprsup', 'disp', 'nl', 'pl', 'dl', 'pp', 'combos')
STYLES = ('plain', 'reversed', 'same', 'text', 'digits', 'default')


class Named(specs.Names):
    """Another naming; the same names may be in use for items of different kinds."""

    def __init__(self, style, shift):
        self.style, self.shift = style, shift

    def _n(self, kind, i):
        s, k = self.style, i + self.shift
        if s == 'reversed':
            return f'{kind}{997 - k}'
        if s == 'same':                 # one and the same name for items of every kind
            return f'N{k}'
        if s == 'text':
            return ['alpha', 'β 2', 'Combo 1', 'Case 1', 'x' * 30, 'N1', 'M1', 'zz-top', 'a', 'b', 'É'][k % 11] + '/' * (k // 11)
        if s == 'digits':
            return str(100 - k if k % 2 else k)
        if s == 'default':              # the usual names, shuffled around
            return f'{kind}{(k * 7) % 101 + 1}'
        return f'{kind}_{k}'

    def node(self, i): return self._n('N', i)
    def aux(self, i): return self._n('A', i) + '*'
    def mat(self, i): return self._n('Mat', i)
    def sec(self, i): return self._n('Sec', i)
    def member(self, i): return self._n('M', i)
    def spring(self, i): return self._n('S', i)
    def plate(self, i): return self._n('P', i)
    def quad(self, i): return self._n('Q', i)
    def case(self, i): return self._n('Case ', i)
    def combo(self, i): return self._n('Combo ', i)


def explicit(spec):
    out = specs.copy(spec)
    if not out['combos']:
        out['combos'] = [[{'0': 1.0}, None]]
    return out


def relist(spec, members, springs):
    """The ends of some members and springs swapped. Loads stay where they are."""
    out = specs.copy(spec)
    for k in members:
        e = out['members'][k]
        e['i'], e['j'] = e['j'], e['i']
        if e.get('rel'):
            e['rel'] = e['rel'][6:] + e['rel'][:6]
    for k in springs:
        e = out['springs'][k]
        e['i'], e['j'] = e['j'], e['i']

    def ax(sp, k):
        e = sp['members'][k]
        return axes(sp['nodes'][e['i']], sp['nodes'][e['j']], e.get('aux'))
    for key in ('pl', 'dl'):
        for q in out[key]:
            k = q[0]
            if k not in members:
                continue
            L = specs.length(spec, spec['members'][k])
            s = 1.0
            if not q[1][1].isupper():
                c = 'xyz'.index(q[1][1])
                s = float(np.sign(ax(spec, k)[c] @ ax(out, k)[c]))
            if key == 'pl':
                q[2], q[3] = q[2]*s, L - q[3]
            else:
                k, d, w1, w2, x1, x2, c = q
                q[2], q[3] = w2*s, w1*s
                q[4] = None if x2 is None else max(L - x2, 0.0)
                q[5] = None if x1 is None else L - x1
    return out


def mirrored(r, spec, other, members):
    """Results of the relisted model in terms of the original listing."""
    out = type(r)(r)
    out.Lc = r.Lc
    for k in members:
        a, b = spec['members'][k], other['members'][k]
        Ra = axes(spec['nodes'][a['i']], spec['nodes'][a['j']], a.get('aux'))
        Rb = axes(other['nodes'][b['i']], other['nodes'][b['j']], b.get('aux'))
        Q = np.round(Ra @ Rb.T)             # from the other local axes to the original ones
        flip = np.diag([1.0, -1.0, 1.0])    # reported My has the opposite sign
        for key in ('f end forces', 'm end forces'):
            key = f'{key} of member {k}'
            out[key] = (r[key] @ Q.T)[::-1]
        key = f'f member {k} [position, axial/Fy/Fz]'
        out[key] = -(r[key] @ Q.T)[::-1]
        key = f'm member {k} [position, torque/My/Mz]'
        out[key] = -(r[key] @ flip @ Q.T @ flip)[::-1]
        key = f'u member {k} [position, dx/dy/dz]'
        out[key] = (r[key] @ Q.T)[::-1]
    return out


@st.composite
def variation(draw, base, kinds, swap=True):
    spec = explicit(draw(base))
    order = {}
    for k in KINDS:
        if len(spec[k]) > 1 and draw(st.booleans()):
            order[k] = list(draw(st.permutations(range(len(spec[k])))))
    style = draw(st.sampled_from(STYLES + ('',)))
    sw_m = [k for k in range(len(spec['members'])) if swap and draw(st.booleans())]
    sw_s = [k for k in range(len(spec['springs'])) if swap and draw(st.booleans())]
    return [spec, order, style, draw(st.integers(0, 9)), sw_m, sw_s, draw(st.sampled_from(list(kinds))), draw(st.booleans())]


def check(arg):
    spec, order, style, shift, sw_m, sw_s, kind, sparse = arg
    if kind == 'pdelta' and not second_order_safe(spec):
        kind = 'general'
    names = Named(style, shift) if style else specs.NAMES
    other = relist(spec, sw_m, sw_s)
    for k, (f, t) in enumerate(other['combos']):        # (also the order of the factors)
        other['combos'][k][0] = dict(reversed(list(f.items()))) if 'combos' in order or shift % 2 else f
    a, b = specs.build(spec), specs.build(other, names, order)
    try:
        specs.analyze(a, kind, sparse=sparse)
    except Exception as e:
        if 'diverged' in str(e):
            return ()
        raise
    try:
        specs.analyze(b, kind, sparse=sparse)
    except Exception as e:
        if 'diverged' in str(e) and idle_supports(a, spec):
            return ()
        raise
    big = False
    for ci in range(len(spec['combos'])):
        ca, cb = specs.NAMES.combo(ci), names.combo(ci)
        if any(q.get('tc') for q in spec['members'] + spec['springs']) or any(q[3] for q in spec['sprsup']):
            if inactive(a, spec, ca) != inactive(b, other, cb, names):
                converged_is_consistent(a, spec, ci)
                converged_is_consistent(b, other, ci, names)
                continue
        ra = results(a, spec, ca, fracs=FR)
        rb = mirrored(results(b, other, cb, names, fracs=FR), spec, other, sw_m)
        big = big or size(ra) > 1e-6
        # (second-order diagrams are developed from the i-end and approximate within the member)
        keys = [k for k in ra if not (kind == 'pdelta' and any(f' member {q} [' in k for q in sw_m))]
        same(rb, ra, f'{ca}: renamed/reordered/ends swapped', keys=keys, rtol=2e-6)
    if not big:
        return ()
    out = set()
    if order:
        out.add('reordered')
        out |= {f'order of {k}' for k in order}
    if style:
        out.add('renamed ' + style)
    if sw_m:
        out.add('member ends swapped')
    if sw_s:
        out.add('spring ends swapped')
    return out and out | {kind}


LIN = ('linear', 'general')
CASES = [
    Case('frame', variation(gen.frames(max_members=5, n_combos=(1, 3)), LIN + ('pdelta',)), check, quick=640, thorough=20000),
    Case('along', variation(collinear(), LIN), check, quick=320, thorough=9000),
    Case('one_way', variation(one_way_frames(), ('general',)), check, quick=320, thorough=9000),
    Case('shell', variation(gen.shells(), LIN, swap=True), check, quick=160, thorough=4000),
]

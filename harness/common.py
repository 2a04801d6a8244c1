"""Driver: runs the cases of one property with Hypothesis over worker processes, shrinks failures,
writes the evidence and replay files, and sets the exit code.

exit 0  the property held on everything explored (KNOWN-FINDING lines may have been printed)
exit 1  a violation: "VIOLATION property=<id> replay=<path>"
exit 2  the harness itself failed; says nothing about the code under test
"""
from . import env  # noqa: F401  (must come first)
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
from collections import Counter

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

KNOWN = os.path.join(env.VERIF, 'known_findings.txt')
EVIDENCE = os.path.join(env.VERIF, 'evidence')
REPLAYS = os.path.join(env.VERIF, 'evidence', 'replays')
CPU_LIMIT = 120.0       # CPU seconds for one case (a case normally takes well under a second)


class Violation(Exception):
    """The property does not hold on the case at hand."""


class Hang(BaseException):
    """A single case used more CPU time than CPU_LIMIT."""


def _on_vtalrm(signum, frame):
    raise Hang()


class Case:
    """One executable statement of (part of) a property.

    fn(spec) raises Violation, or returns an iterable of labels describing why the case was
    non-trivial (empty or None: trivial).
    """

    def __init__(self, name, strategy, fn, quick=200, thorough=None, examples=(), shards=8, rule=''):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick*12
        self.examples = list(examples)
        self.shards = shards
        self.rule = rule


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def load_cases(prop):
    mod = importlib.import_module('harness.checks.' + prop.lower())
    return mod


def _seed(*parts):
    return int.from_bytes(hashlib.sha256('|'.join(map(str, parts)).encode()).digest()[:6], 'big')


def digest(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True, default=str).encode()).hexdigest()[:16]


def run_one(case, spec):
    """Runs one case. Returns (labels, None) or (None, message). Harness errors propagate."""
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        labels = case.fn(spec)
        return (sorted(set(labels)) if labels else []), None
    except Violation as e:
        return None, str(e)
    except Hang:
        return None, f'no result after {CPU_LIMIT:.0f} s of CPU time on a small model'
    except Exception as e:  # an exception out of the code under test on a valid input
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(env.REPO + os.sep)]
        if inside:
            f = inside[-1]
            where = os.path.relpath(f.filename, env.REPO)
            return None, f'unexpected {type(e).__name__} in {where}:{f.name}: {e}'
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class _Stop(Exception):
    pass


def run_shard(args):
    prop, case_name, shard, n, seed, t_gen, t_shrink = args
    try:
        os.environ['VERIF_WORKER'] = '1'
        mod = load_cases(prop)
        case = {c.name: c for c in mod.CASES}[case_name]
        out = {'case': case_name, 'shard': shard, 'evaluations': 0, 'nontrivial': set(), 'labels': Counter(),
               'samples': [], 'fail': None, 'error': None, 'skipped': 0, 'known': []}
        known = known_findings(prop)
        state = {'best': None, 'size': None, 'msg': None, 't_fail': None}
        t0 = time.time()

        def evaluate(spec):
            if state['t_fail'] is None and time.time() - t0 > t_gen and out['evaluations'] > 0:
                out['skipped'] += 1
                return
            if state['t_fail'] is not None and time.time() - state['t_fail'] > t_shrink:
                return
            labels, msg = run_one(case, spec)
            if state['t_fail'] is None:
                out['evaluations'] += 1
            if msg is None:
                if labels and state['t_fail'] is None:
                    out['nontrivial'].add(digest(spec))
                    out['labels'].update(labels)
                    if len(out['samples']) < 1 and shard < 3:
                        out['samples'].append({'case': case_name, 'labels': labels, 'spec': spec})
                return
            k = match_known(mod, known, case_name, spec, msg)
            if k is not None:
                if k not in out['known']:
                    out['known'].append(k)
                return
            size = len(json.dumps(spec))
            if state['best'] is None or size <= state['size']:
                state.update(best=spec, size=size, msg=msg)
            if state['t_fail'] is None:
                state['t_fail'] = time.time()
            raise Violation(msg)

        try:
            if shard == 0:
                for spec in case.examples:
                    evaluate(json.loads(json.dumps(spec)))
            if n > 0:
                test = given(case.strategy)(evaluate)
                test = hypothesis.seed(seed)(test)
                test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                                phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                                report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet)(test)
                test()
        except BaseException:
            if state['best'] is None:
                out['error'] = traceback.format_exc()
        if state['best'] is not None:
            out['fail'] = {'property': prop, 'case': case_name, 'message': state['msg'], 'spec': state['best']}
        out['wall'] = time.time() - t0
        return out
    except BaseException:
        return {'case': case_name, 'shard': shard, 'error': traceback.format_exc()}


# ---------------------------------------------------------------------------- known findings
def known_findings(prop):
    """Lines "known: property=<id> key=<key> <text>" of the committed file."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            parts = line.split(None, 3)
            if len(parts) == 4 and parts[0] == 'known:' and parts[1] == 'property=' + prop:
                out[parts[2].split('=', 1)[1]] = parts[3].strip()
    return out


def match_known(mod, known, case_name, spec, msg):
    """A check module identifies its known findings by a predicate on the failing input."""
    for key, pred in getattr(mod, 'KNOWN', {}).items():
        if key in known and pred(case_name, spec, msg):
            return key
    return None


# ---------------------------------------------------------------------------- main
def _trim(obj, limit=1500):
    s = json.dumps(obj)
    return obj if len(s) <= limit else {'truncated': s[:limit]}


def main(prop, tier, seed, only=None, procs=None):
    t0 = time.time()
    mod = load_cases(prop)
    procs = procs or min(8, os.cpu_count() or 1)
    t_gen = 420.0 if tier == 'quick' else float(os.environ.get('VERIF_BUDGET', '3000'))
    t_shrink = 40.0 if tier == 'quick' else 300.0
    tasks = []
    for case in mod.CASES:
        if only and case.name not in only:
            continue
        total = case.quick if tier == 'quick' else case.thorough
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        total = max(1, int(total*scale))
        shards = min(case.shards, total)
        if tier != 'quick':
            shards = max(shards, min(32, total//50 or 1))
        for s in range(shards):
            n = total//shards + (1 if s < total % shards else 0)
            tasks.append((prop, case.name, s, n, _seed(seed, prop, case.name, s), t_gen, t_shrink))
    tasks.sort(key=lambda t: (t[2], t[1]))
    results = []
    if procs == 1:
        results = [run_shard(t) for t in tasks]
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(procs, maxtasksperchild=None) as pool:
            stop_at = None
            it = pool.imap_unordered(run_shard, tasks, chunksize=1)
            for _ in tasks:
                try:
                    r = it.next(timeout=max(5.0, stop_at - time.time()) if stop_at else None)
                except multiprocessing.TimeoutError:
                    break
                results.append(r)
                if r.get('fail') and stop_at is None and tier == 'quick':
                    # a violation is decided; give the other shards a little time, then stop
                    stop_at = time.time() + 60.0
                if stop_at and time.time() > stop_at:
                    break
            pool.terminate()

    errors = [r for r in results if r.get('error')]
    fails = [r['fail'] for r in results if r.get('fail')]
    ev, nontriv, labels, samples, skipped = 0, set(), Counter(), [], 0
    known_hit = []
    per_case = Counter()
    for r in results:
        ev += r.get('evaluations', 0)
        per_case[r['case']] += r.get('evaluations', 0)
        nontriv |= {r['case'] + d for d in r.get('nontrivial', ())}
        labels.update({f"{r['case']}: {k}": v for k, v in r.get('labels', {}).items()})
        skipped += r.get('skipped', 0)
        for k in r.get('known', ()):
            if k not in known_hit:
                known_hit.append(k)
    seen = set()
    for r in sorted(results, key=lambda r: r['shard']):
        for s in r.get('samples', ()):
            if s['case'] not in seen and len(samples) < 8:
                seen.add(s['case'])
                samples.append(_trim(s))

    os.makedirs(REPLAYS, exist_ok=True)
    by_case = {}
    for f in fails:
        cur = by_case.get(f['case'])
        if cur is None or len(json.dumps(f['spec'])) < len(json.dumps(cur['spec'])):
            by_case[f['case']] = f
    paths = []
    for name, f in sorted(by_case.items()):
        path = os.path.join(REPLAYS, f'{prop}-{name}-{digest(f["spec"])}.json')
        json.dump(f, open(path, 'w'), indent=1)
        paths.append((path, f))

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': len(nontriv),
            'rule': getattr(mod, 'RULE', ''), 'samples': samples,
            'evaluations_per_case': dict(per_case), 'class_counts': dict(sorted(labels.items())),
            'cases_skipped_by_time_guard': skipped,
            'known_findings_met': known_hit,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(by_case),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    if not only:
        json.dump(evidence, open(os.path.join(EVIDENCE, prop + '.json'), 'w'), indent=1, default=str)

    known = known_findings(prop)
    for k in sorted(known):
        # listed findings are re-demonstrated on every run by the module's KNOWN_DEMOS
        demo = getattr(mod, 'KNOWN_DEMOS', {}).get(k)
        if k in known_hit or demo is None or demo():
            print(f'KNOWN-FINDING: property={prop} {known[k]}')
    for path, f in paths:
        print(f'  {f["case"]}: {f["message"]}')
        print(f'VIOLATION property={prop} replay={path}')
    sys.stdout.flush()
    if paths:
        return 1
    if errors:
        for r in errors[:1]:
            print(f"HARNESS ERROR in {r['case']} shard {r['shard']}:\n{r['error'][-1500:]}", file=sys.stderr)
        return 2
    print(f'{prop} {tier} seed={seed}: held on {ev} cases ({len(nontriv)} distinct non-trivial) in {time.time() - t0:.1f} s'
          + (f', {skipped} skipped' if skipped else ''))
    return 0


def replay(prop, path):
    mod = load_cases(prop)
    f = json.load(open(path))
    case = {c.name: c for c in mod.CASES}[f['case']]
    labels, msg = run_one(case, f['spec'])
    if msg is None:
        print(f'{prop}: the replay {path} passes ({labels})')
        return 0
    k = match_known(mod, known_findings(prop), f['case'], f['spec'], msg)
    if k is not None:
        print(f'KNOWN-FINDING: property={prop} {known_findings(prop)[k]}')
        return 0
    print(f'  {f["case"]}: {msg}')
    print(f'VIOLATION property={prop} replay={path}')
    return 1

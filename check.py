#!/opt/venv/bin/python
"""check.py <PROPERTY> [quick|thorough] | check.py --replay FILE

Runs one property's check against /repo's working tree.
"""
import argparse
import importlib
import json
import os
import random
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'

WANT = {'PYTHONHASHSEED': '0', 'TZ': 'UTC', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent-pycache', 'PYTHONSAFEPATH': '1'}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    env = dict(os.environ)
    env.update(WANT)
    env.pop('PYTHONPATH', None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
time.tzset()

from vlib import pbt  # noqa: E402

QUICK_S = float(os.environ.get('VERIF_QUICK_S', '40'))
THOROUGH_S = float(os.environ.get('VERIF_THOROUGH_S', '540'))


def known_findings():
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf8'):
            line = line.strip()
            if line.startswith('finding:'):
                parts = line.split(None, 3)
                prop = parts[1].split('=', 1)[1]
                kid = parts[2].split('=', 1)[1]
                out.setdefault(prop, {})[kid] = parts[3]
    return out


def load(prop):
    mod = importlib.import_module('props.' + prop)
    return mod


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('tier', nargs='?', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--cases', type=int, default=10 ** 9)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')))
    ap.add_argument('--group')
    ap.add_argument('--selftest', action='store_true')
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    if args.selftest:
        return selftest()
    prop = args.property
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.chdir('/')
    start = time.time()
    mod = load(prop)
    from vlib import sut
    groups = [pbt.Group(*g) for g in mod.GROUPS]
    if args.group:
        groups = [g for g in groups if g.name == args.group]
    budget = args.budget or (QUICK_S if tier == 'quick' else THOROUGH_S)
    budget = budget * getattr(mod, 'BUDGET_FACTOR', 1)
    jobs = args.jobs or min(8, os.cpu_count() or 8)
    root = os.path.join(REPO, 'modularcalculator')
    replay_dir = os.path.join(HERE, 'replays')
    known = known_findings().get(prop, {})
    # the pinned cases of listed findings first: is each still there?
    pinned = getattr(mod, 'FINDINGS', {})
    agg, failure = pbt.explore(prop, groups, lambda s, k: sut.Env(s, k, known=set(known)), seed, budget, args.cases, jobs, root, replay_dir, getattr(mod, "STUCK_OK", False))
    for kid, text in known.items():
        if kid in pinned:
            still = pinned[kid](sut.Env(seed, 0, known=set(known)))
            if still:
                print('KNOWN-FINDING: property={} {} {}'.format(prop, kid, text))
    samples = agg.pop('samples')
    rng = random.Random(seed)
    rng.shuffle(samples)
    cov = {
        'evaluations': agg['evaluations'],
        'distinct_nontrivial': agg['distinct_nontrivial'],
        'rule': mod.RULE,
        'samples': [s[:600] for s in samples[:12]],
        'cases_per_generator': agg['per_group'],
        'discarded': agg['discarded'],
        'known_finding_hits': agg['known'],
        'corpus_entries_kept_for_new_lines': agg['corpus'],
        'cases_mutated_from_corpus': agg['mutated'],
        'package_lines_executed': agg['lines'],
        'classes': dict(sorted(agg['labels'].items(), key=lambda kv: -kv[1])[:60]),
        'workers': jobs,
    }
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': cov,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - start, 2),
        'violations': 0 if failure is None else 1,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w', encoding='utf8') as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=True)
        fh.write('\n')
    print('{} {} seed={} cases={} nontrivial={} discarded={} lines={} wall={:.1f}s'.format(
        prop, tier, seed, agg['evaluations'], agg['distinct_nontrivial'], agg['discarded'], agg['lines'], time.time() - start))
    if failure is not None:
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '{}-{}-{}-{}.json'.format(prop, tier, seed, os.getpid()))
        with open(path, 'w', encoding='utf8') as fh:
            json.dump(failure, fh, indent=1)
        print('minimal case: {}'.format(str(failure.get('case'))[:3000].encode('utf8', 'backslashreplace').decode('utf8')))
        print('reason: {}'.format(str(failure.get('message'))[:3000].encode('utf8', 'backslashreplace').decode('utf8')))
        print('VIOLATION property={} replay={}'.format(prop, path))
        sys.stdout.flush()
        return 1
    return 0


def selftest():
    """setup_cmd: everything imports, and the calculator answers."""
    from vlib import sut
    names = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'props')) if f[0].isupper() and f.endswith('.py'))
    for name in names:
        load(name)
    print('python {}, {} property modules'.format(sys.version.split()[0], len(names)))
    return 0


def replay(path):
    rec = json.load(open(path, encoding='utf8'))
    mod = load(rec['property'])
    from vlib import sut
    import signal
    signal.signal(signal.SIGPROF, pbt._alarm)
    sys.setrecursionlimit(3000)
    os.chdir('/')
    groups = {g[0]: g[1] for g in mod.GROUPS}
    env = sut.Env(rec['seed'], rec['shard'], known=set(known_findings().get(rec['property'], {})))
    t = pbt.T(env)
    todo = rec.get('history') or [(rec['group'], rec['choices'])]
    last = ('ok', None)
    # cases with threads may need several tries
    for name, choices in [x for _ in range(getattr(mod, 'REPLAY_TRIES', 1)) for x in [(None, None)] + todo]:
        if name is None:
            env.refresh()
        if name is None or choices is None:
            continue
        last = pbt.run_case(groups[name], pbt.Source(prefix=choices), t)
        if last[0] == 'fail':
            break
    print('case: {}'.format(t._text))
    print('status: {} {}'.format(*last))
    if last[0] == 'fail':
        print('VIOLATION property={} replay={}'.format(rec['property'], path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())

#!/opt/venv/bin/python
"""Run the checks.

    run.py check PROPERTY [quick|thorough]     decide one property
    run.py replay FILE                         run one saved counterexample
    run.py list                                list the facets
"""
import concurrent.futures
import importlib
import json
import os
import subprocess
import sys
import tempfile
import shutil
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import env  # noqa: E402
env.activate()
from vlib import harness  # noqa: E402

PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
HERE = os.path.dirname(os.path.abspath(__file__))


def load(ident):
    module = importlib.import_module(f'checks.{ident.lower()}')
    return module.PROPERTY


def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return json.load(fp)['findings']


def child_env(hashseed):
    e = dict(os.environ)
    e.update(
        PYTHONHASHSEED=str(hashseed),
        PYTHONDONTWRITEBYTECODE='1',
        MPLBACKEND='Agg',
        OMP_NUM_THREADS='1',
        OPENBLAS_NUM_THREADS='1',
        TZ='UTC',
    )
    e.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')
    return e


def worker(ident, name, seed, count, shard, budget, out):
    scratch = tempfile.mkdtemp(prefix='verif-')
    os.environ['VERIF_SCRATCH'] = scratch
    tempfile.tempdir = scratch
    cwd = os.path.join(scratch, 'cwd')
    os.mkdir(cwd)
    os.chdir(cwd)
    try:
        prop = load(ident)
        if name == '@findings':
            live = {}
            for key, finding in prop.findings.items():
                with harness.quiet():
                    live[key] = bool(finding.demo())
            result = {'live': live}
        else:
            result = harness.run_facet(
                prop, prop.facets[name], seed=seed, count=count, shard=shard,
                budget=budget, scratch=scratch)
        with open(out, 'w') as fp:
            json.dump(result, fp)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def launch(ident, name, seed, count, shard, budget, out):
    """Run a worker in its own process; return its summary."""
    cmd = [PYTHON, os.path.join(HERE, 'run.py'), '_worker', ident, name,
           str(seed), str(count), str(shard), str(budget), out]
    # Shards run with different (but fixed) hash seeds, since nothing that a
    # user relies on may depend on the iteration order of a set.
    try:
        proc = subprocess.run(
            cmd, env=child_env(shard), stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            timeout=budget + 200)
    except subprocess.TimeoutExpired:
        return {'facet': name, 'shard': shard, 'error': 'worker timed out'}
    if not os.path.exists(out):
        return {'facet': name, 'shard': shard, 'error':
                f'worker exited with {proc.returncode}:\n{proc.stdout[-4000:]}'}
    with open(out) as fp:
        return json.load(fp)


def standalone(ident, name, case, shard, history=None):
    """Does this case fail by itself in a fresh process?"""
    with tempfile.TemporaryDirectory(prefix='verif-replay-') as tmp:
        path = os.path.join(tmp, 'replay.json')
        with open(path, 'w') as fp:
            json.dump({'property': ident, 'facet': name, 'case': case,
                       'hashseed': shard, 'history': history or []}, fp)
        proc = subprocess.run(
            [PYTHON, os.path.join(HERE, 'run.py'), 'replay', path],
            env=child_env(shard), stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True)
        return proc.returncode == 1


def check(ident, tier):
    began = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = load(ident)
    jobs = []
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    only = os.environ.get('VERIF_FACET')
    workers = min(8, os.cpu_count() or 1)
    for facet in prop.facets.values():
        if only and facet.name not in only.split(','):
            continue
        shards = facet.shards if tier == 'quick' else facet.thorough_shards
        total = facet.quick if tier == 'quick' else facet.thorough
        each = max(1, int(scale * total / shards))
        for shard in range(shards):
            jobs.append((facet.name, each, shard))
    # A fixed wall-clock allowance keeps a slow machine from looking like a
    # failure: cases that do not fit are skipped and reported as such.
    allowance = float(os.environ.get(
        'VERIF_BUDGET', '400' if tier == 'quick' else '600'))
    rounds = max(1, -(-len(jobs) // workers))
    budget = max(20.0, allowance / rounds)
    results = []
    listed = {f['id']: f for f in known_findings() if f['property'] == ident}
    with tempfile.TemporaryDirectory(prefix='verif-out-') as tmp:
        with concurrent.futures.ThreadPoolExecutor(workers) as pool:
            futures = [
                pool.submit(launch, ident, name, seed, count, shard, budget,
                            os.path.join(tmp, f'{i}.json'))
                for i, (name, count, shard) in enumerate(jobs)
            ]
            live = {}
            if prop.findings:
                live = launch(ident, '@findings', seed, 0, 0, 120,
                              os.path.join(tmp, 'findings.json'))
            results = [f.result() for f in futures]
    status = 0
    errors = [r for r in results if r.get('error')]
    failures = [r for r in results if r.get('failure')]
    if live.get('error'):
        errors.append(live)
    for key, still in (live.get('live') or {}).items():
        if key not in listed:
            errors.append({'facet': '@findings', 'error': f'{key} is not listed'})
        elif still:
            print(f"KNOWN-FINDING: property={ident} {key}: {listed[key]['what']}")
    replays = os.path.join(HERE, 'evidence', 'replays')
    reported = set()
    for r in failures:
        if r['facet'] in reported:
            continue
        reported.add(r['facet'])
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, f"{ident}-{r['facet']}.json")
        f = r['failure']
        alone = standalone(ident, r['facet'], f['case'], r['shard'])
        payload = {
            'property': ident, 'facet': r['facet'], 'case': f['case'],
            'message': f['message'], 'hashseed': r['shard'], 'seed': seed,
            'reproduces_alone': alone, 'original': f['original'],
        }
        if not alone:
            # The failure depends on what ran earlier in the same process.
            payload['history'] = f['history']
        with open(path, 'w') as fp:
            json.dump(payload, fp, indent=1)
        print(f"  facet {r['facet']}: {f['message'][:600]}")
        print(f"  case: {f['case'][:600]}")
        print(f'VIOLATION property={ident} replay={path}')
        status = 1
    evaluations = sum(r.get('evaluations', 0) for r in results)
    distinct = {}
    per = {}
    samples = []
    for r in results:
        name = r['facet']
        distinct.setdefault(name, set()).update(r.get('distinct', ()))
        p = per.setdefault(name, {
            'cases': 0, 'labels': {}, 'skipped_for_time': 0, 'seconds': 0.0})
        p['cases'] += r.get('evaluations', 0)
        p['skipped_for_time'] += r.get('skipped', 0)
        p['seconds'] = round(p['seconds'] + r.get('wall', 0.0), 2)
        for k, v in r.get('labels', {}).items():
            p['labels'][k] = p['labels'].get(k, 0) + v
        if r.get('shard', 0) == 0:
            samples += [{'facet': name, 'case': s}
                        for s in r.get('samples', [])[:3]]
    for name, p in per.items():
        p['distinct_nontrivial'] = len(distinct[name])
        p['labels'] = dict(sorted(p['labels'].items()))
        p['statement'] = prop.facets[name].doc.split('\n\n')[0] \
            if name in prop.facets else ''
    evidence = {
        'property': ident,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': sum(len(s) for s in distinct.values()),
            'rule': prop.rule,
            'samples': samples[:40],
            'facets': per,
            'known_findings_live': live.get('live', {}),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.monotonic() - began, 3),
        'violations': len(reported),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', f'{ident}.json')
    with open(path, 'w') as fp:
        json.dump(evidence, fp, indent=1)
    print(f"{ident} {tier}: {evaluations} cases, "
          f"{evidence['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{len(reported)} violation(s), {evidence['wall_s']:.1f} s")
    if status == 0 and errors:
        for r in errors:
            print(f"HARNESS ERROR in {r.get('facet')}: {r['error']}")
        return 3
    return status


def replay(path):
    with open(path) as fp:
        data = json.load(fp)
    want = str(data.get('hashseed', 0))
    if os.environ.get('PYTHONHASHSEED') != want:
        os.execve(PYTHON, [PYTHON, os.path.abspath(__file__), 'replay',
                           os.path.abspath(path)], child_env(want))
    scratch = tempfile.mkdtemp(prefix='verif-')
    os.environ['VERIF_SCRATCH'] = scratch
    tempfile.tempdir = scratch
    path = os.path.abspath(path)
    os.chdir(scratch)
    try:
        prop = load(data['property'])
        facet = prop.facets[data['facet']]
        cases = list(data.get('history') or []) + [data['case']]
        for text in cases:
            try:
                harness.run_case(facet, harness.parse_case(text), harness.Tally())
            except harness.Violation as err:
                print(f"  facet {facet.name}: {err}")
                print(f"  case: {text[:2000]}")
                print(f"VIOLATION property={data['property']} replay={path}")
                return 1
        print('the saved case passes')
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == 'check':
        return check(argv[1], argv[2] if len(argv) > 2 else
                     os.environ.get('VERIF_TIER', 'quick'))
    if argv[0] == 'replay':
        return replay(argv[1])
    if argv[0] == '_worker':
        ident, name, seed, count, shard, budget, out = argv[1:]
        worker(ident, name, int(seed), int(count), int(shard), float(budget), out)
        return 0
    if argv[0] == 'list':
        for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
            if f.startswith('p') and f.endswith('.py'):
                prop = load(f[:-3])
                print(prop.ident)
                for facet in prop.facets.values():
                    print('   ', facet.name, facet.quick, facet.thorough)
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        STATUS = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        STATUS = 3      # neither "held" nor "violated"
    sys.exit(STATUS)

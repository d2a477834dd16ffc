"""check PROPERTY [quick|thorough] | replay FILE | selftest"""
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import bridge, codec, registry

ROOT = bridge.ROOT
TIERS = {  # shards, budget in seconds
    'quick': (6, 100),
    'thorough': (8, 780),
}


def check(pid, tier):
    t0 = time.time()
    prop = registry.load()[pid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    shards, budget = TIERS[tier]
    budget = float(os.environ.get('VERIF_BUDGET_S', budget))
    n = prop.quick if tier == 'quick' else prop.thorough
    n = int(os.environ.get('VERIF_EXAMPLES', n))
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    procs = []
    env = dict(os.environ, HYPOTHESIS_STORAGE_DIRECTORY=tmp, TMPDIR=tmp)
    try:
        for i in range(shards):
            out = os.path.join(tmp, '%d.json' % i)
            procs.append((i, out, subprocess.Popen(
                [sys.executable, '-m', 'vf.shard', pid, str(n), str(seed),
                 str(i), str(shards), str(budget), out], cwd=ROOT, env=env,
                start_new_session=True,
                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        results = collect(procs)
    finally:
        for _, _, p in procs:
            end(p)
        shutil.rmtree(tmp, ignore_errors=True)
    return conclude(prop, tier, seed, results, time.time() - t0)


def end(p):
    if p.poll() is None:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
    p.wait()


def collect(procs):
    """Results of all shards, or up to the first one with a violation"""
    results, waiting = [], list(procs)
    while waiting:
        time.sleep(0.05)
        for item in list(waiting):
            i, out, p = item
            if p.poll() is None:
                continue
            waiting.remove(item)
            try:
                with open(out) as f:
                    res = json.load(f)
            except OSError:
                res = {'error': 'shard %d ended with %s\n%s' % (
                    i, p.returncode,
                    p.stderr.read().decode(errors='replace')[-3000:])}
            results.append(res)
            if res.get('violation'):
                return results
    return results


def conclude(prop, tier, seed, results, wall):
    merged = collections.Counter()
    kinds, digests, samples, notes = collections.Counter(), set(), [], []
    evaluations = 0
    for r in results:
        evaluations += r.get('evaluations', 0)
        merged.update(r.get('labels', {}))
        kinds.update(r.get('per_kind', {}))
        digests.update(r.get('digests', ()))
        notes += r.get('notes', [])
        samples += r.get('samples', [])
    seen, spread = collections.Counter(), []
    for name, case in samples:
        seen[name] += 1
        if seen[name] <= 3 and len(spread) < 12:
            text = json.dumps(case)
            spread.append({'check': name, 'case': case if len(text) < 1500
                           else text[:1500] + '...'})
    errors = [r['error'] for r in results if r.get('error')]
    violations = [r['violation'] for r in results if r.get('violation')]
    evidence = {
        'property': prop.pid, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(digests),
            'rule': prop.rule,
            'samples': spread,
            'per_kind': dict(kinds),
            'labels': dict(merged.most_common(120)),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    if notes:
        evidence['notes'] = notes[:10]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', prop.pid + '.json')
    with open(path, 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    if violations:
        v = violations[0]
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        replay = os.path.join(ROOT, 'replays', prop.pid + '.json')
        with open(replay, 'w') as f:
            json.dump(dict(v, property=prop.pid), f, indent=1)
            f.write('\n')
        print(v['text'][:3000])
        for name, case in v['cases'][-1:]:
            print('case: %s %s' % (name, json.dumps(case)[:3000]))
        print('VIOLATION property=%s replay=%s' % (prop.pid, replay))
        return 1
    for e in errors[:2]:
        print('ERROR', e[:3000], file=sys.stderr)
    if errors:
        return 2
    print('%s: %d cases, %d distinct and non-trivial, %.1f s' % (
        prop.pid, evaluations, len(digests), wall))
    return 0


def replay(path):
    """Runs the saved cases again, without Hypothesis"""
    with open(path) as f:
        saved = json.load(f)
    prop = registry.load()[saved['property']]
    worker = bridge.Worker(prop.mode, prop.module)
    try:
        worker.start()
        for name, case in saved['cases']:
            status, _, _, text = worker.call(name, codec.dec(case))
            print(name, status, text)
            if status == 'viol':
                print('VIOLATION property=%s replay=%s' % (prop.pid, path))
                return 1
            if status == 'err':
                return 2
    except bridge.ImportBroken as e:
        print(e)
        print('VIOLATION property=%s replay=%s' % (prop.pid, path))
        return 1
    finally:
        worker.stop()
    print('holds')
    return 0


def selftest():
    """Everything the checks need is there"""
    props = registry.load()
    for mode, module in sorted({(p.mode, p.module) for p in props.values()}):
        worker = bridge.Worker(mode, module)
        worker.start()
        worker.stop()
        print('worker', mode, module)
    print('%d properties' % len(props))
    return 0


def main():
    cmd = sys.argv[1]
    if cmd == 'check':
        return check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3
                     else os.environ.get('VERIF_TIER', 'quick'))
    if cmd == 'replay':
        return replay(sys.argv[2])
    if cmd == 'selftest':
        return selftest()
    return 2


if __name__ == '__main__':
    sys.exit(main())

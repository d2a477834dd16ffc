"""Planted bugs.

plant.py make BUGS.py [ID...]  write seeded/ID from a description of the bug
plant.py verify [ID...]        in a scratch copy: applies, builds, the stable
                               tests pass, the demonstration tells the trees
                               apart, and what the property's check says
"""
import concurrent.futures
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
SEEDED = VERIF / 'seeded'
RESULTS = VERIF / 'tools' / 'planted.json'
REPO = '/repo'

DEMO_SH = '''#!/bin/bash
exec /opt/venv-pypy/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import standin
standin.%s()
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def make(bug):
    out = SEEDED / bug['id']
    scratch = tempfile.mkdtemp(prefix='plant-')
    try:
        run(['cp', '-a', REPO + '/.', scratch])
        for name, old, new in bug['edits']:
            path = os.path.join(scratch, name)
            with open(path, newline='') as f:
                text = f.read()
            if '\r\n' in text:
                old, new = (x.replace('\n', '\r\n') for x in (old, new))
            if text.count(old) != 1:
                raise SystemExit('%s: %d times in %s: %s' % (
                    bug['id'], text.count(old), name, old))
            with open(path, 'w', newline='') as f:
                f.write(text.replace(old, new))
        diff = run(['git', '-C', scratch, 'diff']).stdout
    finally:
        shutil.rmtree(scratch)
    out.mkdir(exist_ok=True)
    (out / 'patch.diff').write_bytes(diff)
    (out / 'demo.sh').write_text(DEMO_SH)
    (out / 'demo.sh').chmod(0o755)
    boot = (VERIF / 'worker' / 'boot.py').read_text()
    boot = boot.replace("os.environ.get('VERIF_REPO', '/repo')",
                        "os.getcwd()")
    (out / 'standin.py').write_text(boot)
    (out / 'demo.py').write_text(
        HEAD % bug.get('boot', 'full') + bug['demo'].lstrip('\n'))
    (out / 'meta.json').write_text(json.dumps({
        'property': bug['property'], 'needs': bug['needs'],
        'what_it_breaks': bug['breaks']}, indent=1) + '\n')


def verify(bug):
    path = SEEDED / bug
    prop = json.loads((path / 'meta.json').read_text())['property']
    scratch = tempfile.mkdtemp(prefix='plant-')
    demo = tempfile.mkdtemp(prefix='plantdemo-')
    say = []
    try:
        run(['cp', '-a', REPO + '/.', scratch])
        for f in path.iterdir():
            if f.name not in ('patch.diff', 'meta.json'):
                shutil.copy(f, demo)

        def demonstrate():
            return run(['bash', demo + '/demo.sh'], cwd=scratch, timeout=300)
        clean = demonstrate()
        if clean.returncode:
            say.append('DEMO FAILS ON CLEAN: ' + clean.stdout.decode()[-600:])
        if run(['git', '-C', scratch, 'apply', str(path / 'patch.diff')]
               ).returncode:
            return bug, prop, ['PATCH DOES NOT APPLY']
        broken = demonstrate()
        if not broken.returncode:
            say.append('DEMO PASSES WITH THE BUG')
        else:
            say.append(
                'demo: ' + broken.stdout.decode().strip()[-120:].split(
                    '\n')[-1])
        plugin = pathlib.Path('/opt/vp/plugin/golem_scope.py').read_text()
        pathlib.Path(demo, 'golem_scope.py').write_text(
            plugin.replace("'/repo", "'" + scratch))
        test = run(['bash', '-c', TEST % (demo, scratch)])
        tail = test.stdout.decode().strip().split('\n')[-1]
        if 'failed' in tail or 'passed' not in tail:
            say.append('TESTS: ' + test.stdout.decode()[-500:])
        else:
            say.append(tail.strip('= '))
        start = time.time()
        check = run([str(VERIF / 'check'), 'check', prop,
                     os.environ.get('TIER', 'quick')],
                    env=dict(os.environ, VERIF_REPO=scratch, VERIF_SEED='1'))
        lines = check.stdout.decode().split('\n')
        hit = [x for x in lines if x.startswith('VIOLATION')]
        say.append('%s rc=%d %.0fs %s' % (
            'CAUGHT' if check.returncode == 1 and hit else 'MISSED',
            check.returncode, time.time() - start,
            hit[0] if hit else lines[-2:]))
    finally:
        shutil.rmtree(scratch)
        shutil.rmtree(demo)
    return bug, prop, say


TEST = r'''
. /opt/vp/env.sh
export PYTHONPATH=%s
cd %s
IGNORE=(
    tests/datastructures/test_p2p.py
    tests/datastructures/test_promissory.py
    tests/datastructures/test_tasks.py
    tests/factories
    tests/message
    tests/test_basic.py
    tests/test_cryptography.py
    tests/test_helpers.py
    tests/test_idgenerator.py
    tests/test_serializer.py
    tests/test_utils.py
)
"$PY" -m pytest -q -p golem_scope -p no:cacheprovider --timeout=300 \
    --continue-on-collection-errors \
    "${IGNORE[@]/#/--ignore=}" \
    --deselect tests/test_conformance.py::PEP8TestCase::test_lint tests
'''


def table():
    results = json.loads(RESULTS.read_text())
    lines = ['| planted bug | needs | quick check |', '|---|---|---|']
    for path in sorted(SEEDED.iterdir()):
        meta = json.loads((path / 'meta.json').read_text())
        lines.append('| %s | %s | %s: %s |' % (
            path.name, meta['needs'].replace('|', '/'), meta['property'],
            results.get(path.name, 'not run')))
    design = VERIF / 'DESIGN.md'
    begin, end = '<!-- planted -->\n', '<!-- /planted -->\n'
    head, rest = design.read_text().split(begin)
    tail = rest.split(end)[1]
    design.write_text(head + begin + '\n'.join(lines) + '\n' + end + tail)


def main():
    what, args = sys.argv[1], sys.argv[2:]
    if what == 'make':
        bugs = runpy.run_path(args[0])['BUGS']
        for bug in bugs:
            if not args[1:] or bug['id'] in args[1:]:
                make(bug)
        return
    if what == 'table':
        return table()
    names = args or sorted(x.name for x in SEEDED.iterdir())
    workers = int(os.environ.get('PARALLEL', '2'))
    with concurrent.futures.ThreadPoolExecutor(workers) as pool:
        for bug, prop, say in pool.map(verify, names):
            print(bug, prop)
            results = (json.loads(RESULTS.read_text())
                       if RESULTS.exists() else {})
            results[bug] = say[-1].split()[0].lower()
            RESULTS.write_text(
                json.dumps(results, indent=1, sort_keys=True) + '\n')
            for line in say:
                print('   ', line)
            sys.stdout.flush()


if __name__ == '__main__':
    main()

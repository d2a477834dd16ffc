"""One process of a check: generates cases, has them judged, shrinks.

python3-vt -m vf.shard PROPERTY N_EXAMPLES SEED SHARD SHARDS BUDGET_S OUT
"""
import collections
import hashlib
import json
import os
import pickle
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

from . import bridge, codec, registry

BATCH = 200
SHRINK_S = 40
HISTORY = 4000


class Found(Exception):
    pass


class Broken(BaseException):
    """Harness error; not an Exception, so that nothing swallows it"""


def derive(*parts):
    text = '|'.join(map(str, parts)).encode()
    return int.from_bytes(hashlib.sha256(text).digest()[:8], 'big')


class Shard:
    def __init__(self, pid, n, seed, shard, shards, budget):
        self.prop = registry.load()[pid]
        self.pid, self.seed, self.shard = pid, seed, shard
        self.n = max(1, n // shards)
        self.until = time.monotonic() + budget
        self.worker = bridge.Worker(self.prop.mode, self.prop.module)
        self.evaluations = 0
        self.per_kind = collections.Counter()
        self.labels = collections.Counter()
        self.digests = set()
        self.samples = []
        self.history = collections.deque(maxlen=HISTORY)
        self.notes = []
        self.violation = None

    def judge(self, name, case):
        if self.worker.proc is None:
            self.history.clear()
        self.history.append((name, case))
        status, labels, nontrivial, text = self.worker.call(name, case)
        self.evaluations += 1
        self.labels.update(labels)
        if nontrivial:
            digest = hashlib.sha1(
                name.encode() + pickle.dumps(case, 4)).digest()[:10]
            if digest not in self.digests:
                self.digests.add(digest)
                n = len(self.digests)
                if n in (1, 7, 40, 150, 600):
                    self.samples.append((name, case))
        if status == 'err':
            raise Broken('%s on %.2000r\n%s' % (name, case, text))
        return status, text

    def batch(self, kind, size, number):
        """True: held; otherwise self.violation is set"""
        name = '%s.%s' % (self.pid, kind.name)
        state = {'best': None, 'size': None, 'since': None, 'history': None}

        def test(case):
            late = state['since'] is not None and \
                time.monotonic() > state['since'] + SHRINK_S
            if late:
                return
            if state['since'] is None and time.monotonic() > self.until:
                return
            status, text = self.judge(name, case)
            self.per_kind[kind.name] += 1
            if status == 'viol':
                if state['since'] is None:
                    state['since'] = time.monotonic()
                    state['history'] = list(self.history)
                    state['first'] = case
                size = len(pickle.dumps(case, 4))
                state['best'], state['size'], state['text'] = case, size, text
                raise Found()

        phases = (Phase.generate, Phase.shrink)
        run = settings(
            max_examples=size, deadline=None, database=None, phases=phases,
            suppress_health_check=list(HealthCheck), print_blob=False,
            report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet,
        )(given(kind.strategy)(test))
        run = hypothesis.seed(
            derive(self.seed, self.pid, kind.name, self.shard, number))(run)
        try:
            run()
        except Broken:
            raise
        except BaseException as e:
            if state['best'] is None:
                raise Broken(''.join(traceback.format_exception(e))[-3000:])
        if state['best'] is None:
            return True
        return self.confirm(name, state)

    def fresh(self):
        self.worker.stop()

    def run_all(self, cases):
        """Does the last of the cases fail in a fresh worker?"""
        self.fresh()
        out = ('ok', '')
        for name, case in cases:
            status, _, _, text = self.worker.call(name, case)
            if status == 'err':
                return False, text
            out = (status, text)
            if status == 'viol':
                break
        return out[0] == 'viol', out[1]

    def confirm(self, name, state):
        for case in (state['best'], state['first']):
            bad, text = self.run_all([(name, case)])
            if bad:
                return self.report([(name, case)], text)
        cases = state['history']
        bad, text = self.run_all(cases)
        if not bad:
            self.notes.append('not reproduced, not reported: %s: %s' % (
                name, state['text'][:600]))
            self.fresh()
            return True
        until = time.monotonic() + 60
        step = max(1, len(cases) // 2)
        while time.monotonic() < until:
            i, cut = 0, False
            while i < len(cases) - 1 and time.monotonic() < until:
                fewer = cases[:i] + cases[min(i + step, len(cases) - 1):]
                got, said = self.run_all(fewer)
                if got:
                    cases, text, cut = fewer, said, True
                else:
                    i += step
            if step == 1 and not cut:
                break
            step = max(1, step // 2)
        return self.report(cases, text)

    def report(self, cases, text):
        self.violation = {'cases': [[n, codec.enc(c)] for n, c in cases],
                          'text': text}
        return False

    def corpus(self):
        """Saved reproductions come first"""
        base = os.path.join(bridge.ROOT, 'corpus', self.pid)
        for fn in sorted(os.listdir(base)) if os.path.isdir(base) else ():
            with open(os.path.join(base, fn)) as f:
                cases = [(n, codec.dec(c)) for n, c in json.load(f)['cases']]
            for name, case in cases:
                status, text = self.judge(name, case)
                self.per_kind['corpus'] += 1
                if status == 'viol':
                    return self.report(cases, text)
        return True

    def run(self):
        if self.worker.proc is None:
            self.worker.start()     # ImportBroken comes out here
        if self.shard == 0 and not self.corpus():
            return
        kinds = self.prop.kinds
        total = sum(k.weight for k in kinds)
        left = {k.name: max(20, int(self.n * k.weight / total))
                for k in kinds}
        number = 0
        while any(left.values()) and time.monotonic() < self.until:
            for kind in kinds:
                size = min(BATCH, left[kind.name])
                if not size or time.monotonic() > self.until:
                    continue
                before = self.per_kind[kind.name]
                if not self.batch(kind, size, number):
                    return
                done = self.per_kind[kind.name] - before
                left[kind.name] -= size
                if done < size // 3:
                    left[kind.name] = 0  # a small space, seen completely
            number += 1

    def result(self):
        return {
            'evaluations': self.evaluations,
            'per_kind': dict(self.per_kind),
            'labels': dict(self.labels),
            'digests': [d.hex() for d in self.digests],
            'samples': [[n, codec.enc(c)] for n, c in self.samples],
            'notes': self.notes,
            'violation': self.violation,
        }


def main():
    pid, n, seed, shard, shards, budget, out = sys.argv[1:]
    s = Shard(pid, int(n), int(seed), int(shard), int(shards), float(budget))
    try:
        s.run()
        res = s.result()
    except bridge.ImportBroken as e:
        s.violation = {'cases': [], 'text': str(e)}
        res = s.result()
    except (Broken, bridge.Harness) as e:
        res = dict(s.result(), error=str(e))
    finally:
        s.worker.stop()
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.replace(out + '.tmp', out)


if __name__ == '__main__':
    main()

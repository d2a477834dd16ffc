"""Mutation campaign, to find what the checks are blind to (not a check).

mutate.py cases N            generates N cases per property into /tmp/mut
mutate.py run FILE [PROPS]   mutants of one file, judged with those cases
Mutants that nothing notices are listed with their diff in
/tmp/mut/FILE.survived."""
import ast
import difflib
import multiprocessing
import os
import pickle
import random
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
BASE = '/tmp/mut'


def cases(n):
    import hypothesis
    from vf import registry
    os.makedirs(BASE, exist_ok=True)
    todo = sorted(registry.load())
    with multiprocessing.Pool(8) as pool:
        for pid, k in pool.imap_unordered(one, [(p, n) for p in todo]):
            print(pid, k)


def one(arg):
    import hypothesis
    from vf import registry
    pid, n = arg
    prop = registry.load()[pid]
    total = sum(k.weight for k in prop.kinds)
    out = []
    for kind in prop.kinds:
        name = '%s.%s' % (pid, kind.name)

        def test(case):
            out.append((name, case))    # pylint: disable=cell-var-from-loop
        hypothesis.seed(1)(hypothesis.settings(
            max_examples=max(20, int(n * kind.weight / total)),
            deadline=None, database=None,
            phases=[hypothesis.Phase.generate],
            suppress_health_check=list(hypothesis.HealthCheck))(
                hypothesis.given(kind.strategy)(test)))()
    random.Random(1).shuffle(out)
    with open('%s/%s.pickle' % (BASE, pid), 'wb') as f:
        pickle.dump(out, f)
    return pid, len(out)


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
       ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*',
       ast.Div: '*', ast.BitXor: '|', ast.BitAnd: '|', ast.BitOr: '&',
       ast.LShift: '>>', ast.Mod: '//', ast.Pow: '*'}


class Source:
    def __init__(self, text):
        self.text = text
        self.tree = ast.parse(text)
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line))

    def pos(self, line, col):
        row = self.lines[line - 1]
        return self.starts[line - 1] + len(row.encode()[:col].decode())

    def span(self, n):
        return (self.pos(n.lineno, n.col_offset),
                self.pos(n.end_lineno, n.end_col_offset))

    def get(self, n):
        a, b = self.span(n)
        return self.text[a:b]


def mutants(text):
    s = Source(text)
    out = []

    def put(n, new):
        a, b = s.span(n)
        out.append(text[:a] + new + text[b:])
    for n in ast.walk(s.tree):
        docs = getattr(n, 'body', None)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, '%s %s %s' % (s.get(n.left), CMP[type(n.ops[0])],
                                 s.get(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(%s)' % op.join(s.get(v) for v in n.values))
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                op2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                put(n, '(%s)' % op2.join(s.get(v) for v in rest))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % s.get(n.operand))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)
                and isinstance(n.left.value, str)):
            put(n, '(%s %s %s)' % (s.get(n.left), BIN[type(n.op)],
                                   s.get(n.right)))
            put(n, '(%s)' % s.get(n.left))
            put(n, '(%s)' % s.get(n.right))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, repr(not v))
            elif isinstance(v, int):
                put(n, repr(v + 1))
                put(n, repr(v - 1) if v else '-1')
            elif v is None:
                put(n, "''")
            elif isinstance(v, str) and len(v) < 60 and '\n' not in v \
                    and s.get(n)[:1] in '"\'':
                put(n, repr(v + 'x'))
        elif isinstance(n, ast.If):
            put(n.test, 'True')
            put(n.test, 'False')
        elif isinstance(n, ast.IfExp):
            put(n, '(%s)' % s.get(n.body))
            put(n, '(%s)' % s.get(n.orelse))
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None')
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and \
                isinstance(n.ctx if hasattr(n, 'ctx') else ast.Load(),
                           ast.Load) and 1 < len(n.elts) < 40 and \
                s.get(n)[:1] in '([{':
            for e in n.elts:
                a, b = s.span(e)
                while text[b] in ' \n\r':
                    b += 1
                if text[b] == ',':
                    out.append(text[:a] + text[b + 1:])
            if isinstance(n, (ast.List, ast.Tuple)):
                first, second = n.elts[:2]
                a, b = s.span(first)
                c, d = s.span(second)
                out.append(text[:a] + text[c:d] + text[b:c] + text[a:b] +
                           text[d:])
        elif isinstance(n, ast.Dict) and n.keys and None not in n.keys:
            for k, v in zip(n.keys, n.values):
                a, b = s.span(k)[0], s.span(v)[1]
                while text[b] in ' \n\r':
                    b += 1
                if text[b] == ',':
                    out.append(text[:a] + text[b + 1:])
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None:
                    continue
                a, b = s.span(k.value)
                a = text.rindex(k.arg, 0, a)
                while text[b] in ' \n\r':
                    b += 1
                if text[b] == ',':
                    out.append(text[:a] + text[b + 1:])
                elif text[b] == ')':
                    out.append(text[:a] + text[b:])
            if len(n.args) > 1 and not any(
                    isinstance(x, ast.Starred) for x in n.args):
                put(n.args[0], s.get(n.args[1]))
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                a, b = s.span(d)
                a = text.rindex('@', 0, a)
                out.append(text[:a] + '# ' + text[a:b].replace(
                    '\n', '\n# ') + text[b:])
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            put(n.type, '()')
        for name in ('body', 'orelse', 'finalbody'):
            for st in getattr(n, name, ()) if isinstance(
                    getattr(n, name, ()), list) else ():
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign,
                                   ast.Raise, ast.Delete, ast.AnnAssign)):
                    if isinstance(st, ast.Expr) and isinstance(
                            st.value, ast.Constant):
                        continue
                    if isinstance(st, ast.Expr) and 'logger' in s.get(st):
                        continue
                    put(st, 'pass')
    good, seen = [], {text}
    docs = {id(n.body[0].value) for n in ast.walk(s.tree)
            if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and
            n.body and isinstance(n.body[0], ast.Expr)}
    del docs
    for m in out:
        if m in seen:
            continue
        seen.add(m)
        try:
            compile(m, 'x', 'exec')
        except SyntaxError:
            continue
        good.append(m)
    return good


def judge(arg):
    path, number, old, new, props, all_props = arg
    from vf import bridge, registry
    repo = '%s/repo-%d' % (BASE, os.getpid())
    if not os.path.isdir(repo):
        shutil.copytree('/repo', repo, symlinks=True)
    target = os.path.join(repo, path)
    with open(target, 'w', newline='') as f:
        f.write(new)
    os.environ['VERIF_REPO'] = repo
    reg = registry.load()
    caught = []
    for pid in props:
        prop = reg[pid]
        w = bridge.Worker(prop.mode, prop.module)
        with open('%s/%s.pickle' % (BASE, pid), 'rb') as f:
            todo = pickle.load(f)
        try:
            w.start()
            for name, case in todo:
                status, _, _, text = w.call(name, case)
                if status != 'ok':
                    caught.append(pid + ('' if status == 'viol' else '!'))
                    break
        except bridge.ImportBroken:
            caught.append('import')
        except bridge.Harness:
            caught.append('harness')
        finally:
            w.stop()
        if caught and not all_props or 'import' in caught:
            break
    with open(target, 'w', newline='') as f:
        f.write(old)
    return number, caught


def run(path, props, all_props=False, limit=None):
    with open('/repo/' + path, newline='') as f:
        old = f.read()
    ms = mutants(old)
    if limit and len(ms) > limit:
        ms = random.Random(1).sample(ms, limit)
    name = path.replace('/', '_')
    print(path, len(ms), 'mutants', flush=True)
    tally = {}
    with open('%s/%s.survived' % (BASE, name), 'w') as f, \
            multiprocessing.Pool(int(os.environ.get('JOBS', '8'))) as pool:
        for i, caught in pool.imap_unordered(judge, [
                (path, i, old, m, props, all_props)
                for i, m in enumerate(ms)]):
            key = ' '.join(caught) or 'SURVIVED'
            tally[key] = tally.get(key, 0) + 1
            if not caught or all_props:
                f.write('### %s %s\n' % (i, key))
                f.writelines(x if x.endswith('\n') else x + '\n'
                             for x in difflib.unified_diff(
                    old.replace('\r', '').splitlines(True),
                    ms[i].replace('\r', '').splitlines(True), n=2))
                f.flush()
    for k in sorted(tally):
        print('%5d %s' % (tally[k], k))
    subprocess.run('rm -rf %s/repo-*' % BASE, shell=True, check=False)


if __name__ == '__main__':
    if sys.argv[1] == 'cases':
        cases(int(sys.argv[2]))
    else:
        run(sys.argv[2], sys.argv[3].split(','), len(sys.argv) > 4)

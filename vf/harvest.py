"""A dictionary for the generators: the constants that occur in the current
source of /repo.  Those that were not there when the checks were written (see
known_consts.json) get extra weight, as in directed fuzzing.  Only what is
generated depends on it, never a verdict."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(HERE, 'known_consts.json')


def scan(repo):
    ints, strs, raws, floats = set(), set(), set(), set()
    paths = [os.path.join(repo, 'version.py')]
    for base, dirs, names in os.walk(os.path.join(repo, 'golem_messages')):
        dirs.sort()
        paths += [os.path.join(base, n) for n in sorted(names)
                  if n.endswith('.py')]
    for path in paths:
        try:
            tree = ast.parse(open(path, encoding='utf-8').read())
        except (OSError, SyntaxError, ValueError):
            continue
        for node in ast.walk(tree):
            value = None
            if isinstance(node, ast.Constant):
                value = node.value
            elif isinstance(node, (ast.BinOp, ast.UnaryOp)):
                value = fold(node)
            if isinstance(value, bool) or value is None:
                continue
            if isinstance(value, int) and abs(value) < 1 << 80:
                ints.add(value)
            elif isinstance(value, float) and value == value:
                floats.add(value)
            elif isinstance(value, str) and 0 < len(value) <= 48:
                strs.add(value)
            elif isinstance(value, bytes) and 0 < len(value) <= 64:
                raws.add(value)
    return {'ints': sorted(ints), 'strs': sorted(strs),
            'raws': sorted(r.hex() for r in raws),
            'floats': sorted(floats)}


def fold(node):
    """Small constant expressions such as 2**16 - 1"""
    try:
        if isinstance(node, ast.Constant):
            return node.value if isinstance(node.value, int) else None
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            v = fold(node.operand)
            return None if v is None else -v
        if isinstance(node, ast.BinOp):
            a, b = fold(node.left), fold(node.right)
            if a is None or b is None:
                return None
            op = type(node.op)
            if op is ast.Add:
                return a + b
            if op is ast.Sub:
                return a - b
            if op is ast.Mult:
                return a * b
            if op is ast.Pow and 0 <= b <= 80 and abs(a) <= 1024:
                return a ** b
            if op is ast.LShift and 0 <= b <= 80:
                return a << b
            if op is ast.FloorDiv and b:
                return a // b
    except (TypeError, ValueError, OverflowError):
        pass
    return None


def load(repo):
    now = scan(repo)
    with open(KNOWN) as f:
        known = json.load(f)
    novel = {k: [v for v in now[k] if v not in set(known[k])] for k in now}
    return now, novel


if __name__ == '__main__':
    with open(KNOWN, 'w') as f:
        json.dump(scan(sys.argv[1]), f, indent=0, sort_keys=True)
        f.write('\n')

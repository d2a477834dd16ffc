"""Cases as JSON, for replay files and evidence."""
import math


def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {'$b': bytes(x).hex()}
    if isinstance(x, tuple):
        return {'$t': [enc(v) for v in x]}
    if isinstance(x, (set, frozenset)):
        return {'$s': [enc(v) for v in sorted(x)]}
    if isinstance(x, list):
        return [enc(v) for v in x]
    if isinstance(x, dict):
        if all(isinstance(k, str) and not k.startswith('$') for k in x):
            return {k: enc(v) for k, v in x.items()}
        return {'$d': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, float) and not math.isfinite(x):
        return {'$f': repr(x)}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise TypeError(type(x))


def dec(x):
    if isinstance(x, list):
        return [dec(v) for v in x]
    if isinstance(x, dict):
        if '$b' in x:
            return bytes.fromhex(x['$b'])
        if '$t' in x:
            return tuple(dec(v) for v in x['$t'])
        if '$s' in x:
            return {dec(v) for v in x['$s']}
        if '$d' in x:
            return {dec(k): dec(v) for k, v in x['$d']}
        if '$f' in x:
            return float(x['$f'])
        return {k: dec(v) for k, v in x.items()}
    return x

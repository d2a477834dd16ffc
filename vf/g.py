"""Generators of plain values, shared by all properties."""
import functools
import os

from hypothesis import strategies as st

from . import harvest

REPO = os.environ.get('VERIF_REPO', '/repo')
ALL, NOVEL = harvest.load(REPO)

BOUNDS = sorted({
    s * (v + d)
    for v in (0, 23, 24, 31, 32, 100, 127, 128, 255, 256, 1000, 1023, 1024,
              4096, 32767, 32768, 65535, 65536, 2**24, 2**31, 2**32, 2**48,
              2**53, 2**63, 2**64, 10**6, 10**9, 10**18)
    for d in (-1, 0, 1) for s in (1, -1)})


def near(values):
    return sorted({v + d for v in values for d in (-1, 0, 1)})


POOL = near(v for v in ALL['ints'])
NOVEL_INTS = near(NOVEL['ints'])


def pick(values):
    return st.sampled_from(list(values))


def ints(lo=None, hi=None, extra=()):
    """Integers of [lo, hi], with emphasis on boundaries and constants"""
    return _ints(lo, hi, tuple(extra))


@functools.lru_cache(None)
def _ints(lo, hi, extra):
    def ok(v):
        return (lo is None or v >= lo) and (hi is None or v <= hi)
    special = [v for v in BOUNDS + POOL if ok(v)]
    special += [v for b in (lo, hi) if b is not None
                for v in (b, b + 1, b - 1) if ok(v)]
    special += [v for v in extra if ok(v)] * 3
    parts = [st.integers(lo, hi)]
    if lo is None or hi is None or hi - lo > 300:
        top = 300 if lo is None else lo + 300
        bottom = -20 if lo is None else lo
        if ok(top) and ok(bottom):
            parts.append(st.integers(bottom, top))
    if special:
        parts.append(pick(sorted(set(special))))
    novel = [v for v in NOVEL_INTS if ok(v)]
    if novel:
        parts.append(pick(novel))
    return st.one_of(parts)


def small(hi, lo=0):
    return st.integers(lo, hi)


@functools.lru_cache(None)
def lengths(hi, lo=0):
    """How long a thing is: mostly short, sometimes at a boundary"""
    special = [v for v in (0, 1, 2, 3, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63,
                           64, 65, 66, 127, 128, 129, 255, 256, 257, 1023,
                           1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537)
               if lo <= v <= hi]
    special += [v for v in POOL if lo <= v <= hi and v <= 5000]
    novel = [v for v in NOVEL_INTS if lo <= v <= hi]
    parts = [st.integers(lo, min(hi, lo + 12)), st.integers(lo, min(hi, 80))
             if min(hi, 80) >= lo else st.just(lo)]
    if special:
        parts.append(pick(sorted(set(special))))
    if novel:
        parts += [pick(novel)]
    return st.one_of(parts)


CHARS = st.characters(codec='utf-8')
ODD = ['', ' ', '\n', '\0', '0', 'None', 'é', '\u2028', '\U0001f41d', 'ß',
       'A', 'a\u0301', '\ufeff', 'true', '[]', '0x', '0X12', '0x12']


@st.composite
def stretched(draw, piece, hi, lo):
    """piece repeated up to a length in [lo, hi]"""
    n = draw(lengths(hi, lo))
    p = draw(piece)
    if n == 0 or not p:
        return p[:0] if n == 0 else p * n
    return (p * (n // len(p) + 1))[:n]


@functools.lru_cache(None)
def text(hi=300, lo=0, chars=CHARS):
    parts = [st.text(chars, min_size=lo, max_size=min(hi, lo + 20)),
             stretched(st.text(chars, min_size=1, max_size=3), hi, lo)]
    if lo == 0:
        words = [s for s in ODD + ALL['strs'] if len(s) <= hi]
        parts.append(pick(words))
        novel = [s for s in NOVEL['strs'] if len(s) <= hi]
        if novel:
            parts.append(pick(novel))
    return st.one_of(parts)


@functools.lru_cache(None)
def raw(hi=300, lo=0):
    parts = [st.binary(min_size=lo, max_size=min(hi, lo + 20)),
             stretched(st.binary(min_size=1, max_size=3), hi, lo)]
    pool = [bytes.fromhex(h) for h in NOVEL['raws']]
    pool = [b for b in pool if lo <= len(b) <= hi]
    if pool:
        parts.append(pick(pool))
    return st.one_of(parts)


@functools.lru_cache(None)
def fixed(n):
    """bytes of length n"""
    return st.one_of(st.binary(min_size=n, max_size=n),
                     st.binary(min_size=1, max_size=1).map(lambda b: b * n))


@functools.lru_cache(None)
def floats():
    return st.one_of(
        st.floats(allow_nan=False),
        pick([0.0, -0.0, 1.0, 0.5, -1.5, 1e308, 5e-324, 1.0e18] +
             ALL['floats']))


KEYS = st.one_of(text(20), ints(-2**64, 2**64 - 1))


@functools.lru_cache(None)
def scalars(big=True):
    return st.one_of(
        st.none(), st.booleans(),
        ints() if big else ints(-2**64, 2**64 - 1), floats(), text(), raw())


@functools.lru_cache(None)
def values(leaves=6):
    """Any value CBOR can carry losslessly"""
    return st.one_of(scalars(), st.recursive(
        scalars(), lambda inner: st.one_of(
            st.lists(inner, max_size=4),
            st.dictionaries(KEYS, inner, max_size=4)),
        max_leaves=leaves))


def lists(item, hi=8, lo=0):
    """Lists; with equal elements often enough"""
    return st.one_of(
        st.lists(item, min_size=lo, max_size=hi),
        st.tuples(item, lengths(hi, lo)).map(lambda t: [t[0]] * t[1]))


def opt(strategy, weight=3):
    return st.one_of([st.none()] + [strategy] * weight)


def subset(fields, required=()):
    """A dict with some of the fields, in any order"""
    optional = {k: v for k, v in fields.items() if k not in required}
    return st.fixed_dictionaries(
        {k: fields[k] for k in required}, optional=optional)


def shuffled(dicts):
    """The same dicts in any order of keys"""
    return dicts.flatmap(lambda d: st.permutations(list(d.items())).map(dict)
                         if 1 < len(d) < 8 else st.just(d))

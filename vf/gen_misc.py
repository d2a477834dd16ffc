"""Cases for ids, helpers, times, factories and the version script."""
from hypothesis import strategies as st

from . import g, specs
from .gen_core import good_version
from .gen_crypto import anykey
from .registry import Kind, prop
from .specs import KEY

FULL = ('full', 'chk_misc')
FACTORIES = ('factories', 'chk_factories')


# U01

def seeds():
    raw = st.one_of(g.raw(80), g.fixed(6), g.fixed(64), st.binary(
        min_size=5, max_size=7), st.tuples(
        st.integers(0, 7), st.binary(max_size=7)).map(
        lambda t: b'\0' * t[0] + t[1]))
    return st.one_of(KEY.map(lambda i: ('pubraw', i)), raw)


@prop('U01', *FULL, quick=18000,
      rule='a case is a history of generating ids, from seeds and from other '
           'ids, while the clock moves, or an id (intact, altered or '
           'malformed) and a seed; non-trivial: at least two ids, or an id '
           'that was altered or belongs to another seed')
def _():
    op = st.one_of(
        st.tuples(st.just('gen'), st.integers(0, 3)),
        st.tuples(st.just('hex'), st.integers(0, 3)),
        st.tuples(st.just('new'), st.integers(0, 20)),
        st.tuples(st.just('wait'), g.pick([0, 1, -1, 60, -60, 10**6, -10**6])),
        st.tuples(g.pick(['many', 'many', 'processes']), st.integers(0, 3)))
    how = st.one_of(
        st.tuples(st.just('node'), st.integers(0, 47)),
        st.tuples(st.just('time'), st.integers(48, 127)),
        st.tuples(g.pick(['none', 'none', 'upper', 'bare', 'braces', 'urn',
                          'short', 'long', 'empty', 'letter', 'last']),
                  st.just(0)))
    seed_change = st.tuples(
        g.pick(['same', 'same', 'same', 'cut', 'flip', 'tail', 'more',
                'other']), st.integers(0, 80), st.integers(0, 7))
    return [
        Kind('history', lambda: st.tuples(
            st.lists(seeds(), min_size=4, max_size=4), specs.stamps(),
            st.lists(op, min_size=2, max_size=12))),
        Kind('check', lambda: st.tuples(
            seeds(), st.integers(0, 2**80 - 1), how, seed_change), 2)]


# U02

@prop('U02', *FULL, quick=18000,
      rule='a case is a public key in one of its notations, a text or bytes '
           'to encode, an id, or a message to copy and sign; non-trivial: '
           'all but the encoding of nothing')
def _():
    return [
        Kind('address', lambda: st.tuples(
            st.one_of(anykey(), KEY, st.tuples(g.raw(100))),
            g.pick(['bytes', 'hex', '0x', 'upper', '0xUPPER', 'int'])), 3),
        Kind('hex', lambda: st.one_of(g.raw(300), g.text(200)), 2),
        Kind('unhex', lambda: st.one_of(
            g.raw(20), st.text('0123456789abcdefABCDEF', max_size=40),
            st.text('0123456789abcdefgXx -', max_size=12)), 1),
        Kind('type', lambda: st.one_of(
            st.none(), g.ints(), st.booleans(), st.floats(allow_nan=False),
            st.lists(st.integers(0, 255), max_size=3),
            st.dictionaries(g.text(2), st.integers(), max_size=2)), 1),
        Kind('uuid', lambda: st.one_of(
            g.fixed(16), st.binary(min_size=16, max_size=16)), 1),
        Kind('sign', lambda: st.tuples(specs.any_spec(), KEY), 1)]


# U03

@prop('U03', *FULL, quick=24000,
      rule='a case is a size and a transfer rate, a report about a task, or a '
           'price; non-trivial: the size, the time or the price is not 0')
def _():
    size = st.one_of(
        g.ints(0, 2**50), g.ints(0, 2**64), st.tuples(
            st.one_of(st.integers(0, 2**30), st.integers(0, 2**45), g.pick(
                [2**n for n in range(36, 46)])),
            g.pick([-1, 0, 0, 1])).map(lambda t: ('units',) + t))
    return [
        Kind('download', lambda: st.tuples(
            size, st.one_of(st.none(), st.none(), g.ints(1, 10**6))), 4),
        Kind('verification', lambda: st.tuples(
            size, specs.stamps(), st.one_of(
                g.ints(-10**6, 10**7), g.ints(0, 10**9)),
            g.pick([0, 0, 0, 0, 1, 2, 4, 6, 7])), 4),
        Kind('deposit', lambda: g.ints(), 2),
        Kind('constants', lambda: st.integers(0, 90), 0.5)]


# V01

@prop('V01', 'full', 'chk_version', quick=1300,
      rule='a case is a history of commits and tags of a scratch repository, '
           'and the version file that was there before; non-trivial: there '
           'is at least one tag of the asked prefix')
def _():
    tag = st.builds(
        lambda n, s: '%d.%d.%d%s' % (n + (s,)),
        st.tuples(*[st.integers(0, 30)] * 3),
        g.pick(['', '', '', 'b1', '-rc5', '-rc5-post1', '-1-g1234567',
                '.dev0', '-alpha.1', 'a']))
    num = st.integers(0, 30)
    tag = st.one_of(tag, tag, tag, tag, num.map(str), st.tuples(
        num, num, g.pick(['', '', 'b1', '-rc1'])).map(lambda t: '%d.%d%s' % t),
        st.tuples(num, num, num, num).map(lambda t: '%d.%d.%d.%d' % t))
    kind = g.pick(['light', 'annotated'])
    commit = st.just(('commit',))
    decoy = st.one_of(
        st.tuples(st.just('tag'), g.pick(['v', '', 'rel-', 'b', 'v1.', 'vv']), tag, kind),
        st.tuples(st.just('decoy'), g.pick(
            ['va', 'release', 'latest', 'vx1.0', 'w1.0.0']), kind))

    def ops(prefix):
        ours = st.tuples(st.just('tag'), st.just(prefix), tag, kind)
        # a commit with a tag that does not belong to the history
        side = st.tuples(st.just('side'), st.just(prefix), tag, kind)
        merged = st.tuples(st.just('merged'), g.pick([prefix, prefix, 'other-']),
                           tag, kind, st.integers(1, 3), st.integers(0, 3))
        return st.lists(st.one_of(commit, commit, ours, decoy, side, merged),
                        max_size=10)
    where = g.pick(['repo', 'repo', 'relative', 'package', 'outside',
                    'other', 'worktree'])
    before = g.pick(['absent', 'absent', 'same', 'stale', 'empty', 'newline',
                     'longer'])
    return [Kind('describe', lambda: g.pick(
        ['v', 'v', 'v', '', 'rel-', 'v1.', 'r2-', 'vv', '1']).flatmap(lambda p: st.tuples(
            ops(p), st.just(p), before, st.booleans(), where)), 10),
        Kind('package', lambda: st.one_of(good_version(), st.builds(
            '{}+dev{}.g{:07x}'.format, good_version(), st.integers(0, 999),
            st.integers(0, 16**7 - 1)), g.pick([
                '2.18.0b1', '2.18.0-rc5', '2', 'dev', '1.0.0+dev1.gabcdef'])), 1)]


# F01

GIVEN = g.pick(['x', '', 0, 7, None, False, ['y'], 'zażółć', [], {}])


@prop('F01', *FACTORIES, quick=3000,
      rule='a case is a factory, how it is called and the keys; non-trivial: '
           'always')
def _():
    seed = st.integers(0, 2**32)
    over = st.dictionaries(g.pick([
        'price', 'task_id', 'subtask_id', 'size', 'package_hash',
        'compute_task_def__deadline', 'want_to_compute_task__price',
        'want_to_compute_task__task_header__deadline', 'concent_enabled',
        'want_to_compute_task__task_header__environment']),
        st.integers(0, 10**6), max_size=3)
    return [
        Kind('make', lambda: st.tuples(
            st.integers(0, 60), seed, specs.stamps(), KEY, KEY), 4),
        Kind('signed', lambda: st.tuples(
            seed, specs.stamps(), KEY, KEY, g.pick(
                ['both', 'both', 'both', 'requestor', 'provider', 'own']),
            over, KEY), 4),
        Kind('identities', lambda: st.tuples(
            seed, specs.stamps(), st.tuples(KEY, KEY, KEY, KEY),
            st.lists(g.pick(['requestor_id', 'eth keys', 'eth privkey',
                             'header', 'header owner', 'provider_id']),
                     unique=True, max_size=3)), 2),
        Kind('named', lambda: st.tuples(
            st.integers(0, 60), seed, specs.stamps()), 3),
        Kind('given', lambda: st.tuples(
            st.integers(0, 60), seed, specs.stamps(),
            st.lists(st.tuples(st.integers(0, 20), g.pick(
                ['x', '', 0, 7, None, False, ['y'], 'zażółć'])),
                min_size=1, max_size=4),
            g.pick(['call', 'create', 'build']), g.opt(KEY)), 3),
        Kind('reached', lambda: st.tuples(
            st.integers(0, 60), seed, specs.stamps(),
            st.lists(st.integers(0, 5), min_size=1, max_size=5),
            st.integers(0, 30), GIVEN, g.opt(KEY), g.opt(KEY)), 2),
        Kind('verdict', lambda: st.tuples(
            seed, specs.stamps(), st.lists(st.tuples(
                st.integers(0, 20), GIVEN), max_size=3), g.opt(KEY)), 1),
        Kind('apart', lambda: st.tuples(
            st.lists(st.integers(0, 60), min_size=2, max_size=2), seed,
            specs.stamps(), KEY), 1),
        Kind('helpers', lambda: st.tuples(
            seed, KEY, specs.stamps(), st.integers(0, 60)), 1)]

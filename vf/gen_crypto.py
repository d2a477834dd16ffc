"""Cases for encryption and keys (mode full)."""
from hypothesis import strategies as st

from . import g, specs
from .registry import Kind, prop
from .specs import KEY

MODE = ('full', 'chk_crypto')
ORDER = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141


def anykey():
    raw = st.one_of(
        st.integers(1, ORDER - 1), st.integers(1, 300),
        st.integers(ORDER - 300, ORDER - 1),
        st.integers(1, 2**248)).map(lambda n: n.to_bytes(32, 'big'))
    return st.one_of(KEY, KEY, raw)


def ephem():
    return st.tuples(st.integers(0, 50), st.one_of(
        st.binary(min_size=16, max_size=16),
        g.pick([b'\xff' * 16, b'\0' * 16, b'\xff' * 15 + b'\xfe',
                b'\0' * 8 + b'\xff' * 8])))


LARGE = [('RandVal', 'rand_val'), ('PushResource', 'resource'),
         ('PullAnswer', 'resource'), ('ResourceHandshakeNonce', 'nonce'),
         ('ResourceHandshakeStart', 'options'), ('LocRank', 'loc_rank')]


def large():
    """A message with that many bytes in it"""
    size = st.one_of(
        st.integers(300, 10**5), st.tuples(st.integers(8, 16), st.integers(
            -160, 20)).map(lambda t: max(0, 2**t[0] + t[1])))
    return st.tuples(specs.specs(
        names=[n for n, _ in LARGE], top_sig=False), size, st.binary(
            min_size=1, max_size=5), st.one_of(KEY, st.none()), KEY, KEY,
        ephem())


HOW = g.pick(['flip', 'flip', 'flip', 'flip', 'cut', 'head', 'tail', 'swap',
              'negate', 'zero', 'drop'])
WHERE = st.tuples(st.one_of(st.integers(0, 2000), st.integers(0, 120),
                            g.pick([0, 64, 65, 66, 80, 81, 82])),
                  st.one_of(st.integers(1, 255), g.pick([1, 2, 128])))


@prop('M05', *MODE, quick=5000,
      rule='a case is an encrypted message of any type, with its keys and '
           'what happens to it on the way, or a decryption function and what '
           'it does; non-trivial: the type is one that is encrypted and the '
           'message has content')
def _():
    return [
        Kind('transport', lambda: st.tuples(
            specs.unsigned_spec(), st.one_of(KEY, st.none()), KEY, KEY,
            ephem()), 5),
        Kind('large', large, 0.5),
        Kind('tamper', lambda: st.tuples(
            specs.unsigned_spec(), KEY, KEY,
            st.one_of(HOW, HOW, st.just('flag')), WHERE, st.booleans()), 3),
        Kind('func', lambda: st.tuples(
            specs.any_spec(), g.pick(
                ['ok', 'ok', 'ok', 'ok', 'value', 'type', 'key', 'assert',
                 'attr', 'os', 'index', 'stop', 'rt', 'unicode', 'arith',
                 'crypto', 'keys', 'dec', 'msg', 'sig', 'hdr']),
            st.integers(0, 255)), 3)]


def histories():
    # names of recipients and times come from few values, so that they meet
    def ops(t):
        timeout, start, others = t
        limit = 3600 if timeout is None else timeout
        if others:
            timeout = (timeout,) + others
        wait = st.one_of(
            g.pick([0, 1, limit - 1, limit, limit + 1, limit // 2,
                    limit // 2 + 1, 2 * limit]),
            st.integers(0, 2 * limit + 2)).map(lambda n: ('wait', max(0, n)))
        send = st.tuples(st.just('send'), st.one_of(
            KEY, st.integers(0, 1), st.integers(-2, 1)), g.raw(40))
        if others:
            send = st.tuples(send, st.integers(0, 2)).map(
                lambda t: t[0] + (t[1],))
        read = st.tuples(st.just('read'), st.integers(0, 20),
                         st.one_of(st.none(), KEY, st.integers(-2, 1)))
        return st.tuples(st.just(timeout), st.just(start), st.lists(
            st.one_of(send, send, wait, wait, read), min_size=2,
            max_size=14))
    limits = st.one_of(st.none(), g.pick([0, 1, 2, 10, 60, 3600, 3601]),
                       st.integers(0, 10**5))
    return st.tuples(limits, specs.stamps(), st.one_of(
        st.just(()), st.lists(limits, max_size=2).map(tuple))).flatmap(ops)


@prop('M06', *MODE, quick=12000, assumptions=[
    'AES-128-CTR, HMAC and the entropy of pyelliptic are stand-ins: it is not '
    'installed here'],
      rule='a case is a box for a key, an altered box, or a history of '
           'sending, waiting and reading under some key managers; non-trivial: '
           'the data are not empty; in histories, an ephemeral key was used '
           'again or replaced')
def _():
    return [
        Kind('box', lambda: st.tuples(
            anykey(), g.raw(5000), st.one_of(st.just(b''), g.raw(40)),
            ephem(), KEY, g.raw(10)), 3),
        Kind('large', lambda: st.tuples(
            anykey(), st.tuples(st.binary(min_size=1, max_size=5), st.one_of(
                st.integers(300, 10**5), st.tuples(
                    st.integers(8, 17), st.integers(-20, 20)).map(
                    lambda t: 2**t[0] + t[1]))), g.raw(40), ephem(), KEY,
            g.raw(10)), 0.3),
        Kind('tamper', lambda: st.tuples(
            anykey(), g.raw(300), st.one_of(st.just(b''), g.raw(40)),
            ephem(), st.tuples(HOW, *[WHERE]).map(
                lambda t: (t[0],) + t[1])), 3),
        Kind('history', histories, 4),
        Kind('crowd', lambda: st.tuples(
            g.pick([30, 1030, 1100]),
            st.lists(st.integers(0, 2000), min_size=1, max_size=20)), 0.004),
        Kind('receivers', lambda: st.tuples(
            g.pick([400, 900]), st.integers(0, 10**6), st.integers(0, 50),
            g.raw(10)), 0.004)]


@prop('U04', *MODE, quick=18000,
      rule='a case is a private key and signed data, a damaged signature, '
           'key or data, a private key out of range, or data to hash; '
           'non-trivial: always, except for the hash of nothing')
def _():
    data = st.one_of(g.raw(200), g.fixed(20))
    return [
        Kind('keys', lambda: st.tuples(anykey(), data), 3),
        Kind('forge', lambda: st.tuples(
            anykey(), data, g.pick(['data', 'longer', 'sig', 'sig', 'sig',
                                    'length', 'key', 'key', 'garbage',
                                    'short key', 'format', 'twin',
                                    'half key', 'recovery']),
            WHERE, KEY), 4),
        Kind('bad', lambda: st.one_of(
            g.pick([0, ORDER, ORDER + 1, 2**256 - 1, 1, ORDER - 1]).map(
                lambda n: n.to_bytes(32, 'big')),
            st.integers(ORDER, 2**256 - 1).map(
                lambda n: n.to_bytes(32, 'big')),
            g.raw(70)), 1),
        Kind('random', lambda: st.integers(0, 10**6), 1),
        Kind('hash', lambda: st.one_of(g.raw(400), g.text(300)), 2),
        Kind('long', lambda: st.tuples(
            anykey(), g.raw(40), st.one_of(st.integers(1, 10**5), st.tuples(
                st.integers(6, 18), st.integers(-3, 40)).map(
                lambda t: 2**t[0] + t[1])),
            st.integers(0, 10**6), st.integers(1, 255)), 0.5)]

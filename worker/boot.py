"""Makes /repo importable inside the PyPy worker.

core: registers the package without running its __init__, as the repository's
      own test plugin does; nothing is replaced.
full: runs the real __init__, on top of stand-ins for what is missing from
      this interpreter (pyelliptic, a C helper of `bitcoin`, RELEASE-VERSION).
Entropy is a seeded stream, so that a case replays exactly.  Local time is
never UTC, and changes twice a year.
"""
import builtins
import hashlib
import hmac
import importlib.util
import io
import itertools
import os
import pathlib
import sys
import time
import types
import warnings
from importlib.machinery import ModuleSpec

REPO = os.environ.get('VERIF_REPO', '/repo')
VERSION = '2.18.0'


class Entropy:
    """Replacement of os.urandom: a hash stream, restarted for every case"""
    def __init__(self):
        self.reseed(b'')

    def reseed(self, seed):
        self.seed, self.n = seed, itertools.count(1)

    def __call__(self, size):
        out = b''
        while len(out) < size:
            out += hashlib.sha512(
                b'%d|' % next(self.n) + self.seed).digest()
        return out[:size]


entropy = Entropy()


def _common():
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    os.urandom = entropy
    os.environ['TZ'] = 'CET-1CEST,M3.5.0,M10.5.0/3'
    time.tzset()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def core():
    _common()
    import cbor, semantic_version  # noqa third parties come from their .pyc
    sys.pycache_prefix = '/nonexistent-verif'
    root = REPO + '/golem_messages'
    spec = ModuleSpec('golem_messages', None, is_package=True)
    spec.submodule_search_locations = [root]
    module = importlib.util.module_from_spec(spec)
    module.__file__ = root + '/__init__.py'
    sys.modules['golem_messages'] = module


def aes_ctr(key, iv, data):
    """AES-CTR with a 128 bit big-endian counter that starts at iv"""
    from Crypto.Cipher import AES
    ecb = AES.new(key, AES.MODE_ECB)
    n = int.from_bytes(iv, 'big')
    blocks = (len(data) + 15) // 16
    stream = ecb.encrypt(b''.join(
        ((n + i) % (1 << 128)).to_bytes(16, 'big') for i in range(blocks)
    )) if blocks else b''
    size = len(data)
    return (int.from_bytes(data, 'big') ^
            int.from_bytes(stream[:size], 'big')).to_bytes(size, 'big')


def _pyelliptic():
    from coincurve import PrivateKey, PublicKey
    m = types.ModuleType('pyelliptic')

    class ECC:
        def __init__(self, pubkey=None, privkey=None, pubkey_x=None,
                     pubkey_y=None, raw_privkey=None, curve='sect283r1'):
            self.curve = curve
            if pubkey_x is not None and pubkey_y is not None:
                if self.raw_check_key(raw_privkey, pubkey_x, pubkey_y) != 0:
                    raise Exception('Bad ECC keys ...')
                self.pubkey_x, self.pubkey_y = pubkey_x, pubkey_y
                self.privkey = raw_privkey
            else:
                key = PrivateKey(entropy(32))
                point = key.public_key.format(compressed=False)
                self.privkey = key.secret
                self.pubkey_x, self.pubkey_y = point[1:33], point[33:]

        def raw_check_key(self, privkey, x, y, curve=None):
            try:
                PublicKey(b'\x04' + x + y)
                if privkey is not None:
                    point = PrivateKey(privkey).public_key
                    if point.format(compressed=False)[1:] != x + y:
                        return -1
            except Exception:
                return -1
            return 0

    class _Info:
        @staticmethod
        def get_blocksize():
            return 16

    class OpenSSL:
        @staticmethod
        def get_cipher(_name):
            return _Info()

    class Cipher:
        def __init__(self, key, iv, do, ciphername='aes-256-cbc'):
            if ciphername != 'aes-128-ctr':
                raise ValueError('cipher not available: %r' % ciphername)
            if len(key) != 16 or len(iv) != 16:
                raise ValueError('bad key or iv length')
            self.key, self.iv = key, iv

        @staticmethod
        def get_all_cipher():
            return ['aes-128-ctr']

        @staticmethod
        def gen_IV(_name):
            return entropy(16)

        def ciphering(self, data):
            return aes_ctr(self.key, self.iv, data)

    m.ECC, m.OpenSSL, m.Cipher = ECC, OpenSSL, Cipher
    m.hmac_sha256 = lambda k, d: hmac.new(k, d, hashlib.sha256).digest()
    m.equals = hmac.compare_digest
    return m


def full():
    _common()
    sys.modules['pyelliptic'] = _pyelliptic()
    import functools
    helper = types.ModuleType('_functools')
    helper.reduce = functools.reduce
    sys.modules['_functools'] = helper
    import toolz
    sys.modules['eth_utils.toolz'] = toolz
    import bitcoin, coincurve, rlp, _pysha3, eth_account.account  # noqa
    import eth_account.messages, cbor, semantic_version, eth_utils  # noqa
    from Crypto.Hash import keccak  # noqa
    from Crypto.Cipher import AES  # noqa
    sys.pycache_prefix = '/nonexistent-verif'
    real, plain = pathlib.Path.open, builtins.open

    def patched(self, *a, **k):
        if self.name == 'RELEASE-VERSION':
            return io.StringIO(VERSION)
        return real(self, *a, **k)

    def patched_open(path, *a, **k):
        if os.path.basename(str(path)) == 'RELEASE-VERSION':
            return io.StringIO(VERSION)
        return plain(path, *a, **k)
    pathlib.Path.open = patched
    builtins.open = io.open = patched_open
    try:
        import golem_messages  # noqa
        import golem_messages.constants  # noqa
        import golem_messages.helpers  # noqa
    finally:
        pathlib.Path.open = real
        builtins.open = io.open = plain


def factories():
    """full + the factories and their third parties"""
    _common()
    prefix = sys.pycache_prefix
    full()
    now, sys.pycache_prefix = sys.pycache_prefix, prefix
    import ethereum.utils, factory, factory.fuzzy, faker  # noqa
    sys.pycache_prefix = now
    import golem_messages.factories.base  # noqa
    import golem_messages.factories.tasks  # noqa
    import golem_messages.factories.concents  # noqa
    import golem_messages.factories.p2p  # noqa
    import golem_messages.factories.datastructures.tasks  # noqa

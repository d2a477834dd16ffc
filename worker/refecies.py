"""Reference implementation of the encryption of RLPx (ECIES over secp256k1,
concat-KDF with SHA-256, AES-128-CTR, HMAC-SHA-256)."""
import hashlib
import hmac

from coincurve import PrivateKey, PublicKey

import boot

OVERHEAD = 1 + 64 + 16 + 32


class Refused(Exception):
    pass


def _keys(shared_point):
    shared = hashlib.sha256(shared_point.format(compressed=True)).digest()
    k = hashlib.sha256(b'\0\0\0\1' + shared).digest()
    return k[:16], hashlib.sha256(k[16:]).digest()


def encrypt(data, pub64, ephem_secret, iv, mac_data=b''):
    point = PublicKey(b'\4' + pub64).multiply(ephem_secret)
    enc, mac = _keys(point)
    own = PrivateKey(ephem_secret).public_key.format(compressed=False)
    body = iv + boot.aes_ctr(enc, iv, data)
    return own + body + hmac.new(mac, body + mac_data,
                                 hashlib.sha256).digest()


def decrypt(data, secret, mac_data=b''):
    if data[:1] != b'\4' or len(data) < OVERHEAD:
        raise Refused('format')
    try:
        point = PublicKey(data[:65]).multiply(secret)
    except Exception as e:
        raise Refused('point') from e
    enc, mac = _keys(point)
    body, tag = data[65:-32], data[-32:]
    if hmac.new(mac, body + mac_data, hashlib.sha256).digest() != tag:
        raise Refused('tag')
    return boot.aes_ctr(enc, body[:16], body[16:])

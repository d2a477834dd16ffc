"""Reference CBOR codec (RFC 7049 subset the protocol uses), independent of
the `cbor` package."""
import struct


def _head(major, n):
    major <<= 5
    if n < 24:
        return bytes([major | n])
    for code, fmt, top in ((24, '>B', 8), (25, '>H', 16), (26, '>I', 32),
                           (27, '>Q', 64)):
        if n < 1 << top:
            return bytes([major | code]) + struct.pack(fmt, n)
    raise ValueError(n)


def dumps(x):
    if x is None:
        return b'\xf6'
    if x is True:
        return b'\xf5'
    if x is False:
        return b'\xf4'
    if isinstance(x, int):
        n, major = (x, 0) if x >= 0 else (-1 - x, 1)
        # the cbor package writes negative numbers below -2**63 as bignums
        if n < 1 << (64 - major):
            return _head(major, n)
        raw = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        return bytes([0xc2 + major]) + dumps(raw)
    if isinstance(x, float):
        return b'\xfb' + struct.pack('>d', x)
    if isinstance(x, (bytes, bytearray)):
        return _head(2, len(x)) + bytes(x)
    if isinstance(x, str):
        raw = x.encode('utf-8')
        return _head(3, len(raw)) + raw
    if isinstance(x, (list, tuple)):
        return _head(4, len(x)) + b''.join(map(dumps, x))
    if isinstance(x, dict):
        return _head(5, len(x)) + b''.join(
            dumps(k) + dumps(v) for k, v in x.items())
    raise TypeError(type(x))


class Bad(ValueError):
    pass


def loads(data):
    value, at = _load(data, 0)
    if at != len(data):
        raise Bad('trailing bytes')
    return value


def _take(data, at, n):
    if at + n > len(data):
        raise Bad('truncated')
    return data[at:at + n], at + n


def _load(data, at):
    raw, at = _take(data, at, 1)
    major, info = raw[0] >> 5, raw[0] & 31
    if major == 7:
        if info == 20:
            return False, at
        if info == 21:
            return True, at
        if info == 22:
            return None, at
        for code, size, fmt in ((25, 2, '>e'), (26, 4, '>f'), (27, 8, '>d')):
            if info == code:
                raw, at = _take(data, at, size)
                return struct.unpack(fmt, raw)[0], at
        raise Bad('simple value')
    if info < 24:
        n = info
    elif info < 28:
        raw, at = _take(data, at, 1 << (info - 24))
        n = int.from_bytes(raw, 'big')
    else:
        raise Bad('indefinite length')
    if major == 0:
        return n, at
    if major == 1:
        return -1 - n, at
    if major == 2:
        return _take(data, at, n)
    if major == 3:
        raw, at = _take(data, at, n)
        return raw.decode('utf-8'), at
    if major == 4:
        out = []
        for _ in range(n):
            x, at = _load(data, at)
            out.append(x)
        return out, at
    if major == 5:
        res = {}
        for _ in range(n):
            k, at = _load(data, at)
            v, at = _load(data, at)
            res[k] = v
        if len(res) != n:
            raise Bad('duplicate key')
        return res, at
    x, at = _load(data, at)
    if n == 2:
        return int.from_bytes(x, 'big'), at
    if n == 3:
        return -1 - int.from_bytes(x, 'big'), at
    raise Bad('tag')

"""Oracles for encryption and keys."""
import hashlib

from coincurve import PrivateKey, PublicKey

from golem_messages import cryptography
from golem_messages import exceptions
from golem_messages import shortcuts

import boot
import build as b
import model
import proto
import refecies
from chk_wire import HEAD, filled, golem_messages, load
from lib import CHECKS, check, clock, expect, fail, raises, same, short

MessageError = exceptions.MessageError
ORDER = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
FIELD = 2**256 - 2**32 - 977


def secret(k):
    if isinstance(k, int) and k < 0:
        # whose public key shares half of that of key -1 - k
        return (ORDER - int.from_bytes(model.key(-1 - k), 'big')).to_bytes(
            32, 'big')
    return model.key(k) if isinstance(k, int) else k


def public(k):
    return PrivateKey(secret(k)).public_key.format(compressed=False)[1:]


def ephem_secret(n):
    return hashlib.sha256(b'ephem %d' % n).digest()


def spoil(data, how, at, by):
    """Some other bytes"""
    if how == 'flip':
        at %= len(data)
        return data[:at] + bytes([data[at] ^ by]) + data[at + 1:]
    if how == 'cut':
        return data[:max(0, len(data) - 1 - at % len(data))]
    if how == 'head':
        return data[1 + at % len(data):]
    if how == 'tail':
        return data + bytes([by] * (1 + at % 40))
    if how == 'swap':
        # a block of the ciphertext (or the iv, the tag) moves
        at %= max(1, len(data) - 32)
        return data[:at] + data[at + 16:at + 32] + data[at:at + 16] + \
            data[at + 32:]
    if how == 'negate':
        y = FIELD - int.from_bytes(data[33:65], 'big')
        return data[:33] + y.to_bytes(32, 'big') + data[65:]
    if how == 'zero':
        return data[:1] + bytes(64) + data[65:]
    if how == 'drop':
        # a part out of the middle
        at %= len(data)
        return data[:at] + data[at + 1 + by:]
    raise ValueError(how)


# M05

@check('M05.transport')
def _(case, ctx):
    spec, signer, recipient, wrong, (n, iv) = case
    d = proto.BY_NAME[spec['c']]
    ctx.label(d.name)
    if d.name == 'Hello':
        spec = dict(spec, version=golem_messages.__version__)
    if filled(spec):
        ctx.mark()
    msg = b.build(spec)
    plain = model.wire(spec)
    by = None
    if signer is not None and d.sign:
        by = signer
        plain = model.wire(dict(spec, sig=('k', signer)))
    data = shortcuts.dump(
        msg, None if signer is None else secret(signer), public(recipient))
    sender = None if by is None else public(by)
    if not d.enc:
        ctx.label('never encrypted')
        expect(data == plain, 'a %s is public but is sent as %s', d.name,
               short(data))
        got = shortcuts.load(data, secret(recipient), sender, check_time=False)
        expect(got == msg and got.encrypted is False, 'received as %s',
               short(got))
        return
    want = model.pack_header(d.type_, spec['ts'], True) + plain[11:HEAD]
    expect(data[:HEAD] == want, 'header or signature is %s, not %s',
           data[:HEAD].hex(), want.hex())
    box = data[HEAD:]
    expect(len(box) == len(plain) - HEAD + refecies.OVERHEAD,
           '%d bytes of %d', len(box), len(plain) - HEAD)
    try:
        opened = refecies.decrypt(box, secret(recipient))
    except refecies.Refused as e:
        fail('the recipient cannot decrypt it: %s', e)
    expect(opened == plain[HEAD:], 'the recipient reads %s', short(opened))
    not_readable(box, opened)
    if len(plain) - HEAD > 40:
        expect(plain[HEAD:] not in data, 'the content is readable by anybody')
    got = shortcuts.load(data, secret(recipient), sender, check_time=False)
    b.check_message(got, spec, plain[11:HEAD], encrypted=True)
    expect(got == msg, 'received as %s', short(got))
    # what others encrypted
    other = want + refecies.encrypt(plain[HEAD:], public(recipient),
                                    ephem_secret(n), iv)
    got = shortcuts.load(other, secret(recipient), sender, check_time=False)
    b.check_message(got, spec, plain[11:HEAD], encrypted=True)
    if secret(wrong) != secret(recipient):
        for x in (data, other):
            raises(exceptions.DecryptionError, shortcuts.load, x,
                   secret(wrong), sender, check_time=False)
    # forwarded in the clear it is the same message
    again = got.serialize()
    expect(again == plain, 'decrypted and serialized again: %s', short(again))
    expect(load(again, by) == msg, 'the clear copy is another message')


def not_readable(box, text):
    """No block of the content is found where it was"""
    for i in range(0, len(text) - 15, 16):
        if box[81 + i:97 + i] == text[i:i + 16]:
            fail('from byte %d on it is readable by anybody', i)


@check('M05.large')
def _(case, ctx):
    spec, size, filler, *rest = case
    d = proto.BY_NAME[spec['c']]
    slot = {'LocRank': 'loc_rank', 'ResourceHandshakeStart': 'options'}.get(
        d.name, next(s for s, k in d.slots if s != 'has_resource'))
    spec = dict(spec, s=dict(spec['s'], **{
        slot: (filler * size)[:size]}))
    ctx.label('%d KiB' % (size >> 10) if size < 8192 else 'very large')
    CHECKS['M05.transport']((spec, *rest), ctx)


@check('M05.tamper')
def _(case, ctx):
    spec, signer, recipient, how, (at, by), before = case
    d = proto.BY_NAME[spec['c']]
    ctx.mark()
    ctx.label(how)
    if d.name == 'Hello' or not d.enc:
        ctx.label('never encrypted')
        # claims to be encrypted without being so
        spec = dict(spec, version=golem_messages.__version__)
        data = bytearray(model.wire(spec))
        data[10] = 1
        raises(MessageError, shortcuts.load, bytes(data), secret(recipient),
               None, check_time=False)
        return
    msg = b.build(spec)
    if how == 'flag':
        data = bytearray(msg.serialize())
        data[10] = 1
        raises(exceptions.DecryptionError, shortcuts.load, bytes(data),
               secret(recipient), None, check_time=False)
        return
    data = shortcuts.dump(msg, secret(signer) if d.sign else None,
                          public(recipient))
    box = spoil(data[HEAD:], how, at, by)
    if box == data[HEAD:]:
        return
    if len(box) == 0:
        raises(MessageError, shortcuts.load, data[:HEAD], secret(recipient),
               None, check_time=False)
        return
    if before:
        # what was read once gives no credit
        ctx.label('read before')
        shortcuts.load(data, secret(recipient), None, check_time=False)
    more = [spoil(data[HEAD:], how, at, by) for at in (
        1, 33)] if how == 'flip' else []
    for bad in [box, *more, *elsewhere(data[HEAD:], how, by)]:
        raises(exceptions.DecryptionError, shortcuts.load, data[:HEAD] + bad,
               secret(recipient), public(signer), check_time=False)


def elsewhere(box, how, by):
    """The same change in each part: iv, content, both halves of the tag"""
    if how == 'flip' and len(box) > 113:
        for at in (65, 80, 81, -33, -32, -25, -17, -16, -9, -8, -4, -1):
            yield spoil(box, how, at, by)


ERRORS = {
    'value': ValueError, 'type': TypeError, 'key': KeyError,
    'assert': AssertionError, 'attr': AttributeError, 'os': OSError,
    'index': IndexError, 'stop': StopIteration, 'rt': RuntimeError,
    'unicode': lambda: UnicodeDecodeError('utf8', b'', 0, 1, 'x'),
    'arith': ZeroDivisionError, 'crypto': exceptions.CryptoError,
    'keys': exceptions.InvalidKeys,
}
OWN = {'dec': exceptions.DecryptionError, 'msg': exceptions.MessageError,
       'sig': exceptions.InvalidSignature, 'hdr': exceptions.HeaderError}


@check('M05.func')
def _(case, ctx):
    """Decryption is up to the application: what it gives, what it raises"""
    spec, what, mask = case
    d = proto.BY_NAME[spec['c']]
    ctx.label(what)
    if not d.enc:
        return
    ctx.mark()
    plain = model.wire(spec)
    data = bytearray(plain)
    data[10] = 1
    data = bytes(data)

    def hide(payload):
        return bytes(x ^ mask for x in payload)

    def broken(payload):
        raise dict(ERRORS, **OWN)[what]()
    if what in ERRORS:
        e = raises(MessageError, golem_messages.message.base.Message
                   .deserialize, data, broken, False)
        expect(isinstance(e, exceptions.DecryptionError) or
               isinstance(e, type(ERRORS[what]())),
               'trouble of decryption is reported as %r', e)
        return
    if what in OWN:
        raises(OWN[what], golem_messages.message.base.Message.deserialize,
               data, broken, False)
        return
    seen = []

    def watch(payload):
        seen.append(payload)
        return hide(payload)
    got = golem_messages.message.base.Message.deserialize(
        data[:HEAD] + hide(data[HEAD:]), watch, False)
    b.check_message(got, spec, data[11:HEAD], encrypted=True)
    expect(seen == [hide(plain[HEAD:])], 'decrypts %s', short(seen))
    msg = b.build(spec)
    out = msg.serialize(encrypt_func=hide)
    expect(out == data[:HEAD] + hide(plain[HEAD:]), 'encrypts %s', short(out))
    # not encrypted: nothing to decrypt
    seen.clear()
    golem_messages.message.base.Message.deserialize(plain, watch, False)
    expect(not seen, 'decrypts what is not encrypted')


# M06

@check('M06.box')
def _(case, ctx):
    recipient, data, mac_data, (n, iv), wrong, wrong_mac = case
    if data:
        ctx.mark()
    ctx.label('mac data' if mac_data else 'no mac data')
    ecies = cryptography.ECIES()
    expect(ecies.OVERHEAD == refecies.OVERHEAD, 'overhead %d', ecies.OVERHEAD)
    priv, pub = secret(recipient), public(recipient)
    if mac_data:
        box = ecies.encrypt(data, pub, mac_data)
    else:
        box = ecies.encrypt(data, pub)
    expect(isinstance(box, bytes) and
           len(box) == len(data) + refecies.OVERHEAD, '%s', short(box))
    try:
        opened = refecies.decrypt(box, priv, mac_data)
    except refecies.Refused as e:
        fail('not decryptable: %s', e)
    expect(opened == data, 'says %s instead of %s', short(opened),
           short(data))
    not_readable(box, opened)
    other = refecies.encrypt(data, pub, ephem_secret(n), iv, mac_data)
    for x in (box, other):
        expect(ecies.decrypt(x, priv, mac_data) == data, 'decrypts wrongly')
        fresh = cryptography.ECIES()
        expect(fresh.decrypt(x, priv, mac_data) == data,
               'another manager decrypts wrongly')
        if secret(wrong) != priv:
            raises(exceptions.DecryptionError, ecies.decrypt, x,
                   secret(wrong), mac_data)
        if wrong_mac != mac_data:
            raises(exceptions.DecryptionError, ecies.decrypt, x, priv,
                   wrong_mac)
    second = ecies.encrypt(data, pub, mac_data)
    expect(second[65:81] != box[65:81] or second[:65] != box[:65],
           'the same key stream twice')


@check('M06.large')
def _(case, ctx):
    recipient, (filler, size), mac_data, (n, iv), wrong, wrong_mac = case
    data = (filler * size)[:size]
    ctx.label('%d KiB' % (size >> 10) if size < 8192 else 'very large')
    CHECKS['M06.box']((recipient, data, mac_data, (n, iv), wrong, wrong_mac),
                      ctx)
    box = refecies.encrypt(data, public(recipient), ephem_secret(n), iv,
                           mac_data)
    for at in (82, len(box) // 3, len(box) // 2, -34, -33, -32):
        bad = bytearray(box)
        bad[at] ^= 1 << n % 8
        raises(exceptions.DecryptionError, cryptography.ECIES().decrypt,
               bytes(bad), secret(recipient), mac_data)
    # content that is moved within
    bad = box[:81] + box[97:-32] + box[81:97] + box[-32:]
    if bad != box:
        raises(exceptions.DecryptionError, cryptography.ECIES().decrypt, bad,
               secret(recipient), mac_data)


@check('M06.tamper')
def _(case, ctx):
    recipient, data, mac_data, (n, iv), (how, at, by) = case
    ctx.mark()
    ctx.label(how)
    box = refecies.encrypt(data, public(recipient), ephem_secret(n), iv,
                           mac_data)
    bad = spoil(box, how, at, by)
    if bad == box:
        return
    ecies = cryptography.ECIES()
    for other in elsewhere(box, how, by):
        raises(exceptions.DecryptionError, ecies.decrypt, other,
               secret(recipient), mac_data)
    try:
        got = ecies.decrypt(bad, secret(recipient), mac_data)
    except Exception as e:
        if bad[:1] != b'\4' or len(bad) == len(box) and how not in (
                'zero', 'negate') and bad[:65] == box[:65]:
            expect(isinstance(e, exceptions.DecryptionError),
                   'refused with %r', e)
        return
    fail('decrypts %s out of what was altered', short(got))


@check('M06.history')
def _(case, ctx):
    """Key caches are invisible, and ephemeral keys have a limited life"""
    timeout, start, ops = case
    clock.at(start)
    now = start
    # several managers in one process, made when they are needed
    timeouts = timeout if isinstance(timeout, tuple) else (timeout,)
    managers = {}
    # several that encrypt with the keys of one of them
    shared = {}

    def box_of(n, user=0):
        n %= len(timeouts)
        if n not in managers:
            kw = {} if timeouts[n] is None else {'timeout': timeouts[n]}
            managers[n] = cryptography.ECIESKeyManager(**kw)
        if (n, user) not in shared:
            shared[n, user] = cryptography.ECIES(managers[n])
        return shared[n, user], 3600 if timeouts[n] is None else timeouts[n]
    box_of(0)
    sent, born, streams = [], {}, set()
    reused = expired = False
    for op in ops:
        if op[0] == 'wait':
            now += op[1]
            clock.at(now)
        elif op[0] == 'send':
            to, data = op[1:3]
            ecies, limit = box_of(op[3] if len(op) > 3 else 0,
                                  len(sent) // 2 % 2)
            box = ecies.encrypt(data, public(to))
            try:
                opened = refecies.decrypt(box, secret(to))
            except refecies.Refused as e:
                fail('not decryptable: %s', e)
            expect(opened == data, 'says %s instead of %s', short(opened),
                   short(data))
            key = box[:65]
            if key in born:
                reused = True
                expect(born[key][1] == secret(to),
                       'an ephemeral key for two recipients')
                expect(now - born[key][0] <= limit,
                       'an ephemeral key %d s old is in use, the limit is '
                       '%d s', now - born[key][0], limit)
            else:
                expired = expired or any(
                    who == secret(to) for _, who in born.values())
                born[key] = now, secret(to)
            expect(box[:81] not in streams, 'the same key stream twice')
            streams.add(box[:81])
            sent.append((to, data, box))
        elif sent:
            _, j, who = op
            ecies, _ = box_of(j)
            to, data, box = sent[j % len(sent)]
            if who is None or secret(who) == secret(to):
                expect(ecies.decrypt(box, secret(to)) == data,
                       'no longer decrypts')
            else:
                raises(exceptions.DecryptionError, ecies.decrypt, box,
                       secret(who))
    if reused:
        ctx.label('a key was used again')
    if expired:
        ctx.label('a key was replaced')
    if len(managers) > 1:
        ctx.label('several managers')
    if reused or expired:
        ctx.mark()


@check('M06.crowd')
def _(case, ctx):
    """More peers than the caches hold"""
    count, order = case
    ctx.mark()
    manager = cryptography.ECIESKeyManager()
    ecies = cryptography.ECIES(manager)
    secrets = [(1000 + i).to_bytes(32, 'big') for i in range(count)]
    boxes = [ecies.encrypt(b'to %d' % i, public(s))
             for i, s in enumerate(secrets)]
    for i in order:
        i %= count
        expect(ecies.decrypt(boxes[i], secrets[i]) == b'to %d' % i,
               'decrypts wrongly')
        box = ecies.encrypt(b'again', public(secrets[i]))
        expect(refecies.decrypt(box, secrets[i]) == b'again',
               'encrypts wrongly')
        j = (i + 1) % count
        raises(exceptions.DecryptionError, ecies.decrypt, box, secrets[j])


@check('M06.receivers')
def _(case, ctx):
    """Many recipients, and one who uses the same key for all of them"""
    count, start, n, data = case
    ctx.mark()
    ecies = cryptography.ECIES()
    secrets = [(start * 10**6 + 1 + i).to_bytes(32, 'big')
               for i in range(count)]
    for i, s in enumerate(secrets):
        box = refecies.encrypt(data + b'%d' % i, public(s), ephem_secret(n),
                               i.to_bytes(16, 'big'))
        expect(ecies.decrypt(box, s) == data + b'%d' % i,
               'recipient %d decrypts wrongly', i)


# U04

@check('U04.keys')
def _(case, ctx):
    k, data = case
    s = secret(k)
    ctx.mark()
    pub = public(k)
    expect(cryptography.privtopub(s) == pub, 'privtopub gives %s',
           cryptography.privtopub(s).hex())
    ecc = cryptography.ECCx(s)
    expect(ecc.raw_privkey == s and ecc.raw_pubkey == pub,
           'ECCx holds %s %s', ecc.raw_privkey.hex(), ecc.raw_pubkey.hex())
    digest = model.sha3(data)
    want = PrivateKey(s).sign_recoverable(digest, hasher=None)
    sig = ecc.sign(data)
    expect(sig == want, 'ECCx.sign gives %s', sig.hex())
    expect(cryptography.ecdsa_sign(s, data) == want, 'ecdsa_sign differs')
    expect(ecc.verify(want, data) is True, 'ECCx.verify')
    expect(cryptography.ecdsa_verify(pub, want, data) is True,
           'ecdsa_verify')


@check('U04.forge')
def _(case, ctx):
    k, data, how, (at, by), other = case
    s, pub = secret(k), public(k)
    ctx.mark()
    ctx.label(how)
    sig = PrivateKey(s).sign_recoverable(model.sha3(data), hasher=None)
    verify = cryptography.ecdsa_verify
    if how == 'data':
        if data:
            at %= len(data)
            data = data[:at] + bytes([data[at] ^ by]) + data[at + 1:]
        else:
            data = bytes([by])
    elif how == 'longer':
        data += bytes([by])
    elif how == 'sig':
        at %= 65
        sig = sig[:at] + bytes([sig[at] ^ by]) + sig[at + 1:]
    elif how == 'length':
        n = at % 140
        if n == 65:
            n = 64
        sig = (sig * 3)[:n]
        raises(exceptions.InvalidSignature, cryptography.ECCx(s).verify,
               sig, data)
    elif how == 'key':
        if secret(other) == s:
            return
        pub = public(other)
        raises(exceptions.InvalidSignature,
               cryptography.ECCx(secret(other)).verify, sig, data)
        s = secret(other)
    elif how == 'garbage':
        sig = hashlib.sha512(sig).digest() + bytes([by % 4])
    elif how == 'short key':
        n = at % 130
        if n == 64:
            n = 65
        raises(exceptions.InvalidKeys, verify, (pub * 3)[:n], sig, data)
        raises(exceptions.InvalidKeys, cryptography.verify_pubkey,
               (pub * 3)[:n])
        return
    elif how == 'twin':
        # the other point with the same x
        y = FIELD - int.from_bytes(pub[32:], 'big')
        pub = pub[:32] + y.to_bytes(32, 'big')
        s = (ORDER - int.from_bytes(s, 'big')).to_bytes(32, 'big')
        expect(public(s) == pub, 'no twin')
    elif how == 'half key':
        # one of the coordinates is not that of the signer
        half = bytes([by]) * (at % 32) + pub[:32 - at % 32]
        pub = pub[:32] + half if at % 2 else half + pub[32:]
        if pub == public(k):
            return
        raises(exceptions.InvalidSignature, verify, pub, sig, data)
        return
    elif how == 'format':
        sig = sig[64:] + sig[:64]
    elif how == 'recovery':
        last = sig[64]
        sig = sig[:64] + bytes([[last + 27, last + 31, last ^ 1, last ^ 2,
                                 last + 4, last + 128, last + 35,
                                 last + by % 250 + 4][at % 8] % 256])
    raises(exceptions.InvalidSignature, verify, pub, sig, data)
    raises(exceptions.InvalidSignature, cryptography.ECCx(s).verify, sig,
           data)


@check('U04.bad')
def _(case, ctx):
    s = case
    n = int.from_bytes(s, 'big')
    ctx.mark()
    if len(s) == 32 and 0 < n < ORDER:
        expect(cryptography.ECCx(s).raw_pubkey == public(s), 'wrong pubkey')
        return
    if len(s) < 32 and 0 < n:
        return   # the underlying library pads
    try:
        ecc = cryptography.ECCx(s)
    except Exception:
        return
    fail('%d bytes %s are taken for a key: %s', len(s), s.hex(), short(ecc))


@check('U04.random')
def _(case, ctx):
    ctx.mark()
    boot.entropy.reseed(b'random %d' % case)
    keys = [cryptography.ECCx(None) for _ in range(2)]
    for ecc in keys:
        expect(len(ecc.raw_privkey) == 32 and ecc.has_valid_keys(),
               'made an invalid key')
        expect(public(ecc.raw_privkey) == ecc.raw_pubkey,
               'private and public keys do not match')
        sig = ecc.sign(b'x')
        expect(ecc.verify(sig, b'x') is True, 'does not verify')
    expect(keys[0].raw_privkey != keys[1].raw_privkey, 'the same key twice')


@check('U04.long')
def _(case, ctx):
    """Every byte of long data counts"""
    k, seed, size, at, by = case
    ctx.mark()
    data = hashlib.shake_128(seed).digest(size)
    judge_hash(data, ctx)
    at = size - 1 - at % min(size, 40) if at % 3 == 0 else at % size
    other = data[:at] + bytes([data[at] ^ by]) + data[at + 1:]
    judge_hash(other, ctx)
    sig = PrivateKey(secret(k)).sign_recoverable(
        model.sha3(data), hasher=None)
    expect(cryptography.ecdsa_sign(secret(k), data) == sig,
           'signature of %d bytes', size)
    expect(cryptography.ecdsa_verify(public(k), sig, data) is True,
           'ecdsa_verify of %d bytes', size)
    for bad in (other, data[:-1], data + b'\0'):
        raises(exceptions.InvalidSignature, cryptography.ecdsa_verify,
               public(k), sig, bad)


@check('U04.hash')
def judge_hash(case, ctx):
    if case:
        ctx.mark()
    raw = case.encode() if isinstance(case, str) else case
    got = cryptography.sha3(case)
    expect(got == hashlib.sha3_256(raw).digest(), 'sha3 is %s', got.hex())
    got = cryptography.mk_privkey(case)
    expect(got == model.keccak(raw), 'mk_privkey is %s', got.hex())

"""Oracles for ids, helpers, times and deposits."""
import binascii
import copy
import datetime
import uuid

import golem_messages
from golem_messages import constants
from golem_messages import datastructures as dt
from golem_messages import helpers
from golem_messages import idgenerator
from golem_messages import message
from golem_messages import settings
from golem_messages import utils

import build as b
import model
import proto
from coincurve import PrivateKey
from lib import check, clock, expect, raises, same, short


def seed_of(seed):
    return model.resolve(seed)


def node_of(seed):
    return int.from_bytes(seed[:6], 'big')


# U01

def check_id(text, node):
    expect(isinstance(text, str), 'an id is %s', short(text))
    u = uuid.UUID(text)
    expect(text == str(u), 'an id is written as %s', short(text))
    expect(u.version == 1 and u.variant == uuid.RFC_4122,
           '%s is no version 1 uuid', text)
    expect(u.int & (1 << 48) - 1 == node, '%s does not end with %012x',
           text, node)


@check('U01.history')
def _(case, ctx):
    seeds, ts, ops = case
    seeds = [seed_of(s) for s in seeds]
    clock.at(ts)
    ids = []
    for op in ops:
        if op[0] == 'gen':
            seed = seeds[op[1]]
            new = idgenerator.generate_id(seed)
            check_id(new, node_of(seed))
            ids.append((new, seed))
        elif op[0] == 'hex':
            seed = seeds[op[1]]
            new = idgenerator.generate_id_from_hex(seed.hex())
            check_id(new, node_of(seed))
            ids.append((new, seed))
        elif op[0] == 'many':
            seed = seeds[op[1]]
            for _ in range(20):
                new = idgenerator.generate_id(seed)
                check_id(new, node_of(seed))
                ids.append((new, seed))
        elif op[0] == 'new' and ids:
            old, seed = ids[op[1] % len(ids)]
            new = idgenerator.generate_new_id_from_id(old)
            check_id(new, node_of(seed))
            ids.append((new, seed))
        elif op[0] == 'processes':
            # the last bits of the clock are drawn by each of them
            seed, new = seeds[op[1]], []
            for _ in range(5):
                uuid._last_timestamp = None
                new.append(idgenerator.generate_id(seed))
                check_id(new[-1], node_of(seed))
            ctx.label('several processes')
            expect(len(set(new)) > 1, 'all of the processes generate %s',
                   new[0])
        elif op[0] == 'wait':
            ts = max(10**9, ts + op[1])
            clock.at(ts)
    ctx.label('%d ids' % min(5, len(ids)))
    if len(ids) > 1:
        ctx.mark()
    expect(len({i for i, _ in ids}) == len(ids), 'an id came twice: %s',
           short(sorted(i for i, _ in ids)))
    for id_, _ in ids[:6]:
        for seed in seeds:
            want = uuid.UUID(id_).node == node_of(seed)
            got = idgenerator.check_id_seed(id_, seed)
            expect(got is want, 'check_id_seed(%s, %s) is %s', id_,
                   seed.hex(), got)
            got = idgenerator.check_id_hex_seed(id_, seed.hex())
            expect(got is want, 'check_id_hex_seed(%s, %s) is %s', id_,
                   seed.hex(), got)


def written(text, how):
    return {
        'none': lambda: text, 'upper': text.upper,
        'bare': lambda: text.replace('-', ''),
        'braces': lambda: '{%s}' % text, 'urn': lambda: 'urn:uuid:' + text,
        'short': lambda: text[:-1], 'long': lambda: text + '0',
        'empty': lambda: '', 'letter': lambda: 'g' + text[1:],
        'last': lambda: text[:-1] + 'z'}[how]()


@check('U01.check')
def _(case, ctx):
    seed, n, (how, bit), (change, at, flip) = case
    seed = seed_of(seed)
    node = node_of(seed)
    value = n << 48 | node
    if how in ('node', 'time'):
        value ^= 1 << bit
    value &= (1 << 128) - 1
    text = str(uuid.UUID(int=value))
    if how not in ('node', 'time'):
        text = written(text, how)
    if change == 'cut':
        seed = seed[:at % (len(seed) + 1)]
    elif change == 'flip' and seed:
        i = at % min(len(seed), 12)
        seed = seed[:i] + bytes([seed[i] ^ 1 << flip]) + seed[i + 1:]
    elif change == 'tail':
        seed = seed[:6] + b'x' * at
    elif change == 'more':
        seed = seed + b'\1'
    elif change == 'other':
        seed = model.pub(at % 6)
    ctx.label(how, change)
    if how != 'none' or change != 'same':
        ctx.mark()
    well = how in ('node', 'time', 'none', 'upper', 'bare', 'braces', 'urn')
    want = well and value & (1 << 48) - 1 == node_of(seed)
    ctx.label('belongs' if want else 'does not belong')
    expect(idgenerator.check_id_seed(text, seed) is want,
           'check_id_seed(%r, %s)', text, seed.hex())
    for h in (seed.hex(), seed.hex().upper()):
        expect(idgenerator.check_id_hex_seed(text, h) is want,
               'check_id_hex_seed(%r, %s)', text, h)
    expect(idgenerator.seed_to_node(seed) == node_of(seed), 'seed_to_node')
    expect(idgenerator.hex_seed_to_node(seed.hex()) == node_of(seed),
           'hex_seed_to_node')
    if well:
        new = idgenerator.generate_new_id_from_id(text)
        check_id(new, value & (1 << 48) - 1)
        expect(new != str(uuid.UUID(text)), 'the new id is the old one')


# U02

def pubkey(k):
    if isinstance(k, int):
        return model.pub(k)
    if isinstance(k, tuple):
        return k[0]
    return PrivateKey(k).public_key.format(compressed=False)[1:]


@check('U02.address')
def _(case, ctx):
    k, how = case
    raw = pubkey(k)
    if not raw:
        return
    ctx.label(how)
    ctx.mark()
    want = model.checksum_address(model.keccak(raw)[12:])
    given = {
        'bytes': raw, 'hex': raw.hex(), '0x': '0x' + raw.hex(),
        'upper': raw.hex().upper(), '0xUPPER': '0x' + raw.hex().upper(),
        'int': int.from_bytes(raw, 'big')}[how]
    if how == 'int' and raw[0] == 0:
        return      # leading zeros are lost in a number
    got = utils.pubkey_to_address(given)
    expect(got == want, 'address of %s is %s, should be %s', short(given),
           short(got), want)


@check('U02.hex')
def _(case, ctx):
    ctx.label(type(case).__name__)
    if case:
        ctx.mark()
    raw = case.encode('utf-8') if isinstance(case, str) else case
    for given in (case, bytearray(raw)):
        got = utils.encode_hex(given)
        expect(same(got, raw.hex()), 'encode_hex(%s) is %s', short(given),
               short(got))
    for text in (raw.hex(), raw.hex().upper(), raw.hex().encode()):
        got = utils.decode_hex(text)
        expect(same(got, raw), 'decode_hex(%s) is %s', short(text),
               short(got))


@check('U02.unhex')
def _(case, ctx):
    ctx.mark()
    if isinstance(case, str):
        ok = len(case) % 2 == 0 and all(
            c in '0123456789abcdefABCDEF' for c in case)
    else:
        ok = len(case) % 2 == 0 and all(
            c in b'0123456789abcdefABCDEF' for c in case)
    ctx.label('hex' if ok else 'no hex')
    if ok:
        text = case if isinstance(case, str) else case.decode('ascii')
        expect(utils.encode_hex(utils.decode_hex(case)) == text.lower(),
               'changes')
        for bad in ('0x' + text, '0X' + text, text + ' ' * 2, '\n ' + text,
                    text + '\0\0', 'é' + text):
            raises((ValueError, binascii.Error), utils.decode_hex, bad)
    else:
        raises((ValueError, binascii.Error), utils.decode_hex, case)


@check('U02.type')
def _(case, ctx):
    ctx.mark()
    ctx.label(type(case).__name__)
    raises(TypeError, utils.encode_hex, case)


@check('U02.uuid')
def _(case, ctx):
    ctx.mark()
    u = uuid.UUID(bytes=case)
    got = utils.uuid_to_bytes32(u)
    expect(same(got, case + b'\0' * 16), 'uuid_to_bytes32(%s) is %s', u,
           short(got))
    back = utils.bytes32_to_uuid(got)
    expect(back == u, 'bytes32_to_uuid gives %s, should be %s', back, u)
    expect(utils.bytes32_to_uuid(case + b'\xff' * 16) == u,
           'the padding counts')


@check('U02.sign')
def _(case, ctx):
    spec, k = case
    ctx.mark()
    ctx.label('signed' if spec['sig'] is not None else 'unsigned')
    if spec['c'] == 'Hello':
        spec = dict(spec, version=golem_messages.__version__)
    msg = b.build(spec)
    before = model.slots_wire(spec)
    sig = model.spec_sig(spec)
    got = utils.copy_and_sign(msg, model.key(k))
    if sig is not None:
        expect(got is msg, 'a signed message was copied')
        expect(same(msg.sig, sig), 'a signed message was signed again')
        return
    expect(got is not msg, 'the original was signed')
    expect(msg.sig is None, 'the original has a signature now: %s',
           short(msg.sig))
    b.check_slots(msg, before, 'original')
    want = model.sign(k, model.spec_hash(spec))
    expect(same(got.sig, want), 'signature is %s, should be %s',
           short(got.sig), short(want))
    b.check_message(got, spec, want)


# U03

def exact_size(size, rate=48, longest=8 * 10**13):
    """As many seconds as can be expressed, at most"""
    if isinstance(size, tuple):
        size = max(0, size[1] * (rate << 10) + size[2])
    return min(size, longest * (rate << 10) - size % 5)


def seconds(size, rate=48):
    return 60 - (-size // (rate << 10))


@check('U03.download')
def _(case, ctx):
    size, rate = case
    size = exact_size(size, rate or 48)
    if size:
        ctx.mark()
    ctx.label('default rate' if rate is None else 'own rate')
    if rate is None:
        got = helpers.maximum_download_time(size)
    else:
        got = helpers.maximum_download_time(size, rate)
        expect(helpers.maximum_download_time(size=size, rate=rate) == got,
               'by name')
    want = datetime.timedelta(seconds=seconds(size, rate or 48))
    expect(got == want, '%s for %d bytes at %s KB/s, should be %s', got, size,
           rate, want)


@check('U03.verification')
def _(case, ctx):
    size, ts, timeout, eighths = case
    size = exact_size(size, longest=2 * 10**13)
    deadline = min(max(0, ts + timeout), 253402300799)
    if eighths:
        deadline += eighths / 8
    ctx.mark()
    ttc = message.tasks.TaskToCompute(
        header=dt.MessageHeader(2002, ts, False), compute_task_def={'deadline': deadline},
        requestor_ethereum_public_key=model.pub(0).hex())
    rct = message.tasks.ReportComputedTask(size=size, task_to_compute=ttc)
    got = helpers.subtask_verification_time(rct)
    want = datetime.timedelta(
        seconds=960 + 3 * seconds(size)) + \
        datetime.timedelta(microseconds=int((deadline - ts) * 500000))
    expect(got == want, '%s for %d bytes and %s s, should be %s', got, size,
           deadline - ts, want)


@check('U03.deposit')
def _(case, ctx):
    if case:
        ctx.mark()
    got = helpers.requestor_deposit_amount(case)
    expect(same(list(got), [case * 2, case * 4]), 'requestor: %s of %d', got,
           case)
    got = helpers.provider_deposit_amount(case)
    expect(same(list(got), [case, case * 4]), 'provider: %s of %d', got,
           case)


MINUTE = datetime.timedelta(minutes=1)
SECOND = datetime.timedelta(seconds=1)
TIMES = [
    (constants, 'MMTT', 5 * SECOND), (constants, 'MTD', 10 * SECOND),
    (constants, 'MAT', 135 * SECOND),
    (constants, 'MAX_CONCENT_PING_INTERVAL', MINUTE),
    (constants, 'CMT', 4 * MINUTE), (constants, 'FAT', 16 * MINUTE),
    (constants, 'AVCT', 28 * MINUTE), (constants, 'PDT', 720 * MINUTE),
    (constants, 'DOWNLOAD_LEADIN_TIME', MINUTE),
    (constants, 'DEFAULT_UPLOAD_RATE', 48),
    (settings, 'MSG_TTL', 10 * MINUTE),
    (settings, 'FUTURE_TIME_TOLERANCE', 5 * MINUTE),
    (settings, 'PAYMENT_TIMESTAMP_TOLERANCE', 15 * MINUTE),
    (settings, 'MIN_TIMESTAMP', 1262304000),
    (settings, 'MAX_TIMESTAMP', 32819212800)]


@check('U03.constants')
def _(case, ctx):
    ctx.mark()
    if case < len(TIMES):
        module, name, want = TIMES[case]
        got = getattr(module, name)
        expect(got == want, '%s is %s, should be %s', name, got, want)
        return
    d = sorted(proto.TYPES)[(case - len(TIMES)) % len(proto.TYPES)]
    cls = b.klass(proto.TYPES[d].name)
    want = 145 * SECOND if cls.__name__ == 'ForceReportComputedTask' else \
        0 * SECOND
    table = copy.copy(constants.MSG_DELAYS)
    expect(table[cls] == want, '%s is delayed by %s, should be %s',
           cls.__name__, table[cls], want)

"""Reference model of messages: what a message described by a spec looks like
on the wire, computed without the code under test.

A spec is plain data: {'c': class name, 'ts': timestamp, 'sig': None | 'fake'
| ('k', i) | bytes, 's': {slot: value}}.  Tuples inside are directives:
('pub', i) hex public key of key i, ('pubraw', i), ('addr', i) ethereum
address, ('uuid', i, n) id seeded with key i, ('ethsig', i) signature by key i
over the nested offer, ('int', n) n itself.
"""
import functools
import hashlib
import struct
import uuid

from coincurve import PrivateKey, PublicKey
from Crypto.Hash import keccak as _keccak

import proto
import refcbor

FAKE = b'\0' * 65
NODE = ('node_name', 'key', 'prv_port', 'pub_port', 'p2p_prv_port',
        'p2p_pub_port', 'prv_addr', 'pub_addr', 'prv_addresses',
        'hyperdrive_prv_port', 'hyperdrive_pub_port', 'port_statuses',
        'nat_type')
HEADER = ('mask', 'timestamp', 'signature', 'task_id', 'task_owner',
          'deadline', 'subtask_timeout', 'market_type', 'environment',
          'environment_prerequisites', 'min_version', 'estimated_memory',
          'max_price', 'subtask_budget', 'subtasks_count', 'concent_enabled')
CTD = (('task_id', ''), ('subtask_id', ''), ('deadline', 0),
       ('extra_data', {}), ('performance', 0), ('docker_images', None),
       ('resources', []))
FILEINFO = (('path', ''), ('checksum', ''), ('size', 0),
            ('category', 'results'))
BLKIO = ('io_merged_recursive', 'io_queue_recursive',
         'io_service_bytes_recursive', 'io_service_time_recursive',
         'io_serviced_recursive', 'io_time_recursive',
         'io_wait_time_recursive', 'sectors_recursive')
CPU_USAGE = (('percpu_usage', []), ('total_usage', 0),
             ('usage_in_kernelmode', 0), ('usage_in_usermode', 0))
THROTTLING = (('periods', 0), ('throttled_periods', 0),
              ('throttled_time', 0))
MEMORY = ('kernel_tcp_usage', 'kernel_usage', 'swap_usage', 'usage', 'cache',
          'stats', 'use_hierarchy')
PIDS = ('current', 'limit')


@functools.lru_cache(None)
def key(i):
    return hashlib.sha256(b'verif-key-%d' % i).digest()


@functools.lru_cache(None)
def pub(i):
    return PrivateKey(key(i)).public_key.format(compressed=False)[1:]


def keccak(data):
    return _keccak.new(digest_bits=256, data=data).digest()


def checksum_address(raw20):
    text = raw20.hex()
    digest = keccak(text.encode()).hex()
    return '0x' + ''.join(
        c.upper() if int(digest[i], 16) >= 8 else c
        for i, c in enumerate(text))


@functools.lru_cache(None)
def address(i):
    return checksum_address(keccak(pub(i))[12:])


def seeded_uuid(i, n):
    raw = n % (1 << 80)
    raw = raw & ~(0xf << 28) & ~0xc000 | (1 << 28) | 0x8000
    node = int.from_bytes(pub(i)[:6], 'big')
    return str(uuid.UUID(int=raw << 48 | node))


def sha3(data):
    return hashlib.sha3_256(data).digest()


def sign(i, digest):
    """What every signature of the protocol is: recoverable ECDSA over the
    sha3-256 of a digest"""
    return PrivateKey(key(i)).sign_recoverable(sha3(digest), hasher=None)


def signed_by(sig, digest, i):
    try:
        point = PublicKey.from_signature_and_message(
            sig, sha3(digest), hasher=None)
    except Exception:
        return False
    return point.format(compressed=False)[1:] == pub(i)


def short_hash(type_, ts, payload):
    return hashlib.sha1(refcbor.dumps([type_, ts]) + payload).digest()


def resolve(x):
    """Replaces directives by values"""
    if isinstance(x, tuple):
        name = x[0]
        if name == 'pub':
            return pub(x[1]).hex()
        if name == 'pubraw':
            return pub(x[1])
        if name == 'addr':
            return address(x[1])
        if name == 'uuid':
            return seeded_uuid(x[1], x[2])
        if name == 'int':
            return x[1]
        return x
    if isinstance(x, list):
        return [resolve(v) for v in x]
    if isinstance(x, dict):
        return {k: resolve(v) for k, v in x.items()}
    return x


def with_defaults(given, items):
    out = dict(given)
    for k, v in items:
        if k not in out:
            out[k] = v
    return out


def node_wire(kw):
    out = {}
    for name in NODE:
        default = {'prv_addresses': [], 'port_statuses': {},
                   'nat_type': []}.get(name)
        out[name] = kw.get(name, default)
    return out


def header_dict(spec):
    kw = resolve(spec['kw'])
    out = {name: kw.get(name) for name in HEADER}
    out['task_owner'] = node_wire(kw['task_owner'])
    return out


def header_hash(d):
    """sha1 over the header without its signature"""
    return hashlib.sha1(refcbor.dumps(
        {k: v for k, v in d.items() if k != 'signature'})).digest()


def header_wire(spec):
    out = header_dict(spec)
    sig = spec.get('sig')
    if isinstance(sig, tuple):
        sig = sign(sig[1], header_hash(out))
    out['signature'] = sig
    return out


def stats_wire(kw):
    out = {}
    for name in ('blkio_stats', 'cpu_stats', 'memory_stats', 'pids_stats'):
        value = kw.get(name)
        if not value:
            out[name] = None
        elif name == 'blkio_stats':
            out[name] = {k: value.get(k) for k in BLKIO}
        elif name == 'cpu_stats':
            out[name] = {
                k: with_defaults(value[k], items) if value.get(k) else None
                for k, items in (('cpu_usage', CPU_USAGE),
                                 ('throttling_data', THROTTLING))}
        elif name == 'memory_stats':
            out[name] = {k: value.get(k) for k in MEMORY}
        else:
            out[name] = {k: value.get(k) for k in PIDS}
    return out


def slot_wire(d, slot, kind, value):
    if kind == 'msg':
        return [False, None if value is None else nested_wire(value)]
    if kind == 'msgs':
        return [True, [nested_wire(v) for v in value]]
    if kind == 'header':
        return None if value is None else header_wire(value)
    if kind == 'headers':
        return [header_wire(v) for v in value or []]
    value = resolve(value)
    if kind == 'node':
        return node_wire(value) if value else value
    if kind == 'peers':
        return [{'address': p['address'], 'port': p['port'],
                 'node': node_wire(p['node'])} for p in value or []]
    if kind == 'ctd':
        return with_defaults(value or {}, CTD)
    if kind == 'files':
        return [with_defaults(f, FILEINFO) for f in value]
    if kind == 'stats':
        return None if value is None else stats_wire(value)
    if kind == 'bool':
        return bool(value)
    if kind == 'orlist':
        return value or []
    if kind == 'pos1':
        return 1 if value is None else value
    return value


def slots_wire(spec):
    d = proto.BY_NAME[spec['c']]
    values = dict(spec['s'])
    if d.name == 'TaskFailure' and values.get('reason') is None:
        values['reason'] = 'ComputationError'
    out = []
    for slot, kind in d.slots:
        value = values.get(slot)
        if slot == 'ethsig' and isinstance(value, tuple):
            value = sign(value[1], spec_hash(values['want_to_compute_task']))
        elif isinstance(value, tuple) and value[0] == 'note':
            value = note_sig(spec, slot, value)
        out.append([slot, slot_wire(d, slot, kind, value)])
    return out


def spec_hash(spec):
    d = proto.BY_NAME[spec['c']]
    digest = short_hash(d.type_, spec['ts'], refcbor.dumps(slots_wire(spec)))
    if d.name == 'Hello':
        digest += spec['version'].encode('ascii', 'replace')
    return digest


def spec_sig(spec):
    sig = spec.get('sig')
    if sig == 'fake':
        return FAKE
    if isinstance(sig, tuple):
        return sign(sig[1], spec_hash(spec))
    return sig


def nested_wire(spec):
    d = proto.BY_NAME[spec['c']]
    return [[d.type_, spec['ts'], bool(spec.get('enc'))], spec_sig(spec),
            slots_wire(spec)]


def pack_header(type_, ts, encrypted):
    return struct.pack('!HQ?', type_, ts, encrypted)


def wire(spec, payload=None):
    """The bytes of the (unencrypted) message"""
    d = proto.BY_NAME[spec['c']]
    if payload is None:
        payload = refcbor.dumps(slots_wire(spec))
    sig = spec_sig(spec)
    if sig is None:
        sig = FAKE
    out = pack_header(d.type_, spec['ts'], False) + sig + payload
    if d.name == 'Hello':
        out += struct.pack('!32p', spec['version'].encode('ascii', 'replace'))
    return out


# promissory notes

def note_message(contract, from_, to, amount, subtask_id):
    return (bytes.fromhex(contract[2:]) + bytes.fromhex(from_[2:]) +
            bytes.fromhex(to[2:]) + amount.to_bytes(32, 'big') +
            uuid.UUID(subtask_id).bytes + b'\0' * 16)


def eth_hash(message):
    return keccak(b'\x19Ethereum Signed Message:\n%d' % len(message) +
                  message)


def eth_sign(i, digest):
    raw = PrivateKey(key(i)).sign_recoverable(digest, hasher=None)
    return [27 + raw[64], raw[:32], raw[32:64]]


def offer_of(spec):
    """The TaskToCompute a message is about: the first one that there is"""
    if spec['c'] == 'TaskToCompute':
        return spec
    for slot in proto.BY_NAME[spec['c']].chain:
        inner = spec['s'].get(slot)
        found = inner is not None and offer_of(inner)
        if found:
            return found
    return None


def note_sig(spec, slot, directive):
    _, key_i, contract = directive
    contract = resolve(contract)
    ttc = offer_of(spec)
    values = ttc['s']
    eth = resolve(values['requestor_ethereum_public_key'])
    requestor = checksum_address(keccak(bytes.fromhex(eth))[12:])
    provider = resolve(
        values['want_to_compute_task']['s']['provider_ethereum_address'])
    if spec['c'] == 'SubtaskResultsVerify':
        from_, to = provider, contract
    elif slot == 'promissory_note_sig':
        from_, to = requestor, provider
    else:
        from_, to = requestor, contract
    ctd = with_defaults(resolve(values['compute_task_def']), CTD)
    return eth_sign(key_i, eth_hash(note_message(
        contract, from_, to, values['price'], ctd['subtask_id'])))

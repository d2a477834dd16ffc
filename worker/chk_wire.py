"""Oracles for messages on the wire."""
import calendar
import copy
import functools
import os
import re
import struct
import time

import golem_messages
from golem_messages import datastructures as dt
from golem_messages import exceptions
from golem_messages import message
from golem_messages import shortcuts
from golem_messages import utils
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import stats as dt_stats
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.message import base
from golem_messages.register import library

import build as b
import model
import proto
import refcbor
import refecies
from chk_core import NODE_RULES, is_int
from lib import CHECKS, check, clock, expect, fail, raises, same, short

MessageError = exceptions.MessageError
FieldError = exceptions.FieldError
MIN_TS, MAX_TS = 1262304000, 32819212800
HEAD = 11 + 65


def plain(payload):
    return payload


def load(data, key=None, check_time=False):
    return base.Message.deserialize(
        data, plain, check_time,
        sender_public_key=None if key is None else model.pub(key))


def try_load(data, key=None):
    """A message, or None when it was refused"""
    try:
        got = load(data, key)
    except MessageError:
        return None
    expect(isinstance(got, base.Message), 'loading gives %s', short(got))
    return got


def filled(spec):
    return any(v is not None for v in spec['s'].values())


def nested_of(spec, path=()):
    """(path, spec) of all messages within"""
    d = proto.BY_NAME[spec['c']]
    for slot, kind in d.slots:
        value = spec['s'].get(slot)
        if kind == 'msg' and value is not None:
            yield path + (slot,), value
            yield from nested_of(value, path + (slot,))
        elif kind == 'msgs':
            for i, v in enumerate(value or ()):
                yield path + (slot, i), v
                yield from nested_of(v, path + (slot, i))


def at(msg, path):
    for p in path:
        msg = msg[p] if isinstance(p, int) else getattr(msg, p)
    return msg


def version_of(raw32):
    return raw32[1:1 + min(raw32[0], 31)].decode('ascii', 'replace')


# M01

@check('M01.long')
def _(case, ctx):
    """A list in it is long, and of which any two neighbours differ"""
    spec, count, n, signer, recipient = case
    spec = dict(spec, s=dict(spec['s']))
    lists = [(s, k) for s, k in proto.BY_NAME[spec['c']].slots
             if k in LIST_KINDS and isinstance(spec['s'].get(s), list)
             and spec['s'][s]]
    if lists:
        slot, kind = lists[n % len(lists)]
        items = spec['s'][slot]
        spec['s'][slot] = [varied(items[i % len(items)], kind, i)
                           for i in range(count)]
        ctx.label('long', kind)
    CHECKS['M01.trip']((spec, signer, recipient), ctx)


LIST_KINDS = ('msgs', 'headers', 'peers', 'files', 'orlist')


def varied(item, kind, i):
    if kind == 'msgs':
        item = dict(item, ts=item['ts'] - i)
        if item['c'] == 'SubtaskResultsAccepted':
            item['s'] = dict(item['s'], payment_ts=item['ts'])
        return item
    if kind == 'headers':
        return dict(item, kw=dict(item['kw'], subtasks_count=i + 1))
    if kind == 'peers':
        return dict(item, port=i + 1)
    if kind == 'files':
        return dict(item, size=i)
    return item if i % 2 else i


@check('M01.trip')
def _(case, ctx):
    spec, signer, recipient = case
    d = proto.BY_NAME[spec['c']]
    ctx.label(d.name)
    if filled(spec):
        ctx.mark()
    if d.name == 'Hello':
        spec = dict(spec, version=golem_messages.__version__)
    msg = b.build(spec)
    sig = model.spec_sig(spec)
    priv = None if signer is None else model.key(signer)
    pub = None if recipient is None else model.pub(recipient)
    if sig is not None and priv:
        ctx.label('already signed')
        raises(exceptions.SignatureAlreadyExists, shortcuts.dump, msg, priv,
               pub)
        expect(msg.sig == sig, 'the refusal changed the signature')
        priv = None
    by = None
    if sig is None:
        if priv and d.sign:
            by = signer
            sig = model.sign(signer, model.spec_hash(spec))
        else:
            sig = model.FAKE
    elif isinstance(spec['sig'], tuple):
        by = spec['sig'][1]
    data = shortcuts.dump(msg, priv, pub)
    expect(isinstance(data, bytes), 'serialized to %s', type(data))
    crypt = recipient is not None and d.enc
    ctx.label('encrypted' if crypt else 'plain',
              'signed' if by is not None else 'unsigned')
    sender = model.pub(by) if by is not None else None
    got = shortcuts.load(
        data, None if recipient is None else model.key(recipient), sender,
        check_time=False)
    b.check_message(got, spec, sig, encrypted=crypt)
    expect(got == msg, 'what arrived is not equal to what was sent: %s',
           short(got))
    expect(not got != msg, '!= contradicts ==')
    again = got.serialize()
    expect(again == msg.serialize(), 'bytes change on the second trip')
    third = load(again)
    b.check_message(third, spec, sig)


# M02

@check('M02.bytes')
def _(spec, ctx):
    d = proto.BY_NAME[spec['c']]
    ctx.label(d.name)
    if filled(spec):
        ctx.mark()
    want = model.wire(spec)
    msg = b.build(spec)
    if d.name == 'Hello':
        # what it says about itself is the version of this library
        want = want[:-32] + struct.pack(
            '!32p', golem_messages.__version__.encode())
        if isinstance(spec['sig'], tuple):
            me = dict(spec, version=golem_messages.__version__)
            want = want[:11] + model.spec_sig(me) + want[HEAD:]
    got = msg.serialize()
    if got != want:
        fail('serialized as\n%s\nshould be\n%s', got.hex(), want.hex())
    if d.name != 'Hello':
        expect(msg.get_short_hash() == model.spec_hash(spec),
               'hash is %s, should be %s', msg.get_short_hash().hex(),
               model.spec_hash(spec).hex())
    sig = model.spec_sig(spec)
    theirs = load(model.wire(spec))
    b.check_message(theirs, spec, model.FAKE if sig is None else sig)
    if sig is not None and isinstance(spec['sig'], tuple):
        load(model.wire(spec), spec['sig'][1])
        ctx.label('verified')


@check('M02.table')
def _(type_, ctx):
    d = proto.TYPES[type_]
    ctx.mark()
    expect(type_ in library, '%d is not known', type_)
    cls = library[type_]
    expect(cls is b.klass(d.name), '%d is %r, should be %s', type_, cls,
           d.name)
    expect(library.get_type(cls) == type_, '%s has another number', d.name)
    msg = cls()
    got = [name for name, _ in ([] if d.nested else msg.slots())]
    expect(d.nested or got == [s for s, _ in d.slots],
           '%s has slots %s, should have %s', d.name, got,
           [s for s, _ in d.slots])
    expect(bool(cls.ENCRYPT) is d.enc, '%s: ENCRYPT is %r', d.name,
           cls.ENCRYPT)
    expect(bool(cls.SIGN) is d.sign, '%s: SIGN is %r', d.name, cls.SIGN)
    for slot, members in d.enums.items():
        enum_ = b.enum_of(d.name, slot)
        for name, value in members:
            expect(enum_(value).name == name and enum_[name].value == value,
                   '%s.%s: %s is not %r', d.name, slot, name, value)


# M03

def reference_accepts(data, key):
    """Does the signature of these bytes verify?  None: cannot say"""
    type_, ts, _ = struct.unpack('!HQ?', data[:11])
    sig, payload = data[11:HEAD], data[HEAD:]
    d = proto.TYPES.get(type_)
    if d is None:
        return None
    tail = b''
    if d.name == 'Hello':
        if len(payload) < 32:
            return False
        tail = version_of(payload[-32:]).encode('ascii', 'replace')
        payload = payload[:-32]
    digest = model.short_hash(type_, ts, payload) + tail
    return model.signed_by(sig, digest, key)


def put(tree, n, value, skip=0):
    """Replaces the n-th node of a tree of lists and dicts"""
    places = []

    def walk(x):
        items = enumerate(x) if isinstance(x, list) else x.items()
        for k, v in items:
            places.append((x, k))
            if isinstance(v, (list, dict)):
                walk(v)
    walk(tree)
    if len(places) <= skip:
        return tree
    x, k = places[skip + n % (len(places) - skip)]
    x[k] = value
    return tree


def slot_values(slots):
    """The values, so that only they are edited"""
    return [v for _, v in slots]


@check('M03.hello')
@check('M03.tamper')
def _(case, ctx):
    spec, key, other, how, (n, x, value) = case
    spec = dict(spec, sig=('k', key))
    d = proto.BY_NAME[spec['c']]
    good = model.wire(spec)
    data = bytearray(good)
    check_with = key
    size = len(data)
    ctx.label(how)
    slots = model.slots_wire(spec)
    if how == 'flip':
        data[n % size] ^= x
    elif how == 'slot' and slots:
        slots[n % len(slots)][1] = value
        data = good[:HEAD] + refcbor.dumps(slots)
        data += good[-32:] if d.name == 'Hello' else b''
    elif how == 'ts':
        ts = min(MAX_TS - 1, max(MIN_TS + 1, spec['ts'] + x - 128))
        data[:11] = model.pack_header(d.type_, ts, False)
    elif how == 'type':
        twins = [t for t, e in proto.TYPES.items()
                 if [s for s, _ in e.slots] == [s for s, _ in d.slots]
                 and e.sign] or sorted(proto.TYPES)
        data[:11] = model.pack_header(twins[n % len(twins)], spec['ts'],
                                      False)
    elif how == 'swap' and len(slots) > 1:
        i = n % (len(slots) - 1)
        slots[i], slots[i + 1] = slots[i + 1], slots[i]
        data = good[:HEAD] + refcbor.dumps(slots)
        data += good[-32:] if d.name == 'Hello' else b''
    elif how == 'other':
        check_with = other
    elif how == 'cut':
        del data[max(HEAD - 3, size - x % 40):]
    elif how == 'tail':
        data += bytes([x]) * (n % 5 + 1)
    elif how == 'sig':
        fakes = [model.FAKE, b'\xff' * 65,
                 model.sign(other, model.spec_hash(spec)),
                 model.sign(key, b'another digest'), bytes([x]) * 65]
        data[11:HEAD] = fakes[n % len(fakes)]
    elif how == 'recovery':
        # another way to write the last number, another point
        last = data[HEAD - 1]
        data[HEAD - 1] = [last + 27, last + 31, last ^ 1, last ^ 2,
                          last + 4, last + 128, last + 35, x][n % 8]
    elif how == 'ver' and d.name == 'Hello':
        theirs = '2.18.%d' % n
        if isinstance(value, tuple):
            start, tail, at_end = value
            start = spec['version'] if start is None else start
            theirs = start + tail if at_end else tail.strip() + start
        data[-32:] = struct.pack('!32p', theirs.encode())
    elif how == 'nested':
        inside = list(nested_of(spec))
        if inside:
            data = bytearray(nested_tamper(spec, inside, case, ctx))
    data = bytes(data)
    if len(data) <= HEAD:
        if d.sign:
            ctx.mark()
        raises(MessageError, load, data, check_with)
        return
    verdict = reference_accepts(data, check_with)
    type_ = struct.unpack('!H', data[:2])[0]
    signed = type_ in proto.TYPES and proto.TYPES[type_].sign
    if data == good and check_with == key:
        got = load(data, key)
        b.check_message(got, spec, model.spec_sig(spec))
        nested_signatures(got, spec, ctx)
        ctx.label('untouched')
        return
    if not signed or type_ not in proto.TYPES:
        try_load(data, check_with)
        return
    ctx.mark()
    if verdict is False:
        ctx.label('forged')
        if data == good:
            raises(exceptions.InvalidSignature, load, data, check_with)
        else:
            raises(MessageError, load, data, check_with)
    else:
        ctx.label('still authentic')
        try_load(data, check_with)


@check('M03.after')
def _(case, ctx):
    """That a signature was good once says nothing about other content"""
    spec, key, other, again, n = case
    spec = dict(spec, sig=('k', key))
    d = proto.BY_NAME[spec['c']]
    good = model.wire(spec)
    ctx.mark()
    ctx.label(d.name)
    b.check_message(load(good, key), spec, good[11:HEAD])
    for i in range(60):
        ts = spec['ts'] - 1 - i * n % 10**8
        if ts <= MIN_TS:
            ts = spec['ts'] + 1 + i * n % 10**8
        data = model.pack_header(d.type_, ts, False) + good[11:]
        e = raises(MessageError, load, data, key)
        expect(isinstance(e, exceptions.InvalidSignature), 'refused with %r',
               e)
        if again and i % 20 == 0:
            load(good, key)
    if other != key:
        raises(exceptions.InvalidSignature, load, good, other)
    load(good, key)


@check('M03.lists')
def _(case, ctx):
    spec, key, n, before, within = case
    spec = copy.deepcopy(dict(spec, sig=('k', key)))
    d = proto.BY_NAME[spec['c']]
    slots = [s for s, _ in d.slots if isinstance(spec['s'].get(s), list)
             and spec['s'][s]]
    if not slots:
        return
    slot = slots[n % len(slots)]
    items = spec['s'][slot]
    items += [copy.deepcopy(items[i % len(items)]) for i in range(n)]
    if n < 8:
        del items[n:]
    for i, item in enumerate(items):
        if isinstance(item, dict) and 'ts' in item:
            item['ts'] = max(MIN_TS + 1, item['ts'] - i)
    ctx.mark()
    ctx.label(d.name)
    head = model.pack_header(d.type_, spec['ts'], False) + model.sign(
        key, model.spec_hash(spec))
    tail = model.wire(spec)[-32:] if d.name == 'Hello' else b''
    tree = model.slots_wire(spec)
    pair = [p for p in tree if p[0] == slot][0]
    many = proto.BY_NAME[spec['c']].nested.get(slot)
    all_ = pair[1][1] if many else pair[1]
    good = head + refcbor.dumps(tree) + tail
    if before:
        load(good, key)
    others = [all_[::-1], all_[:-1], all_ + all_[:1], all_[1:] + all_[:1],
              all_[:-1] + all_[:1]]
    for other in others:
        if other == all_:
            continue
        pair[1] = [True, other] if many else other
        e = raises(MessageError, load, head + refcbor.dumps(tree) + tail, key)
        if other:
            expect(isinstance(e, exceptions.InvalidSignature),
                   'refused with %r', e)
    got = load(good, key)
    b.check_message(got, spec, head[11:])
    if not within:
        return
    # the same in memory
    value = getattr(got, slot)
    for other in others:
        if other == all_ or not other:
            continue
        mine = list(value)
        for i, x in enumerate(other):
            mine[i:i + 1] = [value[all_.index(x)]]
        del mine[len(other):]
        setattr(got, slot, mine)
        raises(exceptions.InvalidSignature, got.verify_signature,
               model.pub(key))
    setattr(got, slot, value)
    expect(got.verify_signature(model.pub(key)) is True, 'verify')


def nested_signatures(got, spec, ctx):
    """Those of the messages within still verify, and only with their key"""
    for path, inner in nested_of(spec):
        msg = at(got, path)
        if isinstance(inner['sig'], tuple):
            i = inner['sig'][1]
            expect(msg.verify_signature(model.pub(i)) is True,
                   '%s does not verify', path)
            raises(exceptions.InvalidSignature, msg.verify_signature,
                   model.pub(i + 1))
            ctx.label('nested verified')
        elif inner['sig'] == 'fake':
            raises(exceptions.InvalidSignature, msg.verify_signature,
                   model.pub(0))


def nested_tamper(spec, inside, case, ctx):
    """Changes a nested message; the outer one is signed afterwards"""
    _, key, other, _, (n, x, value) = case
    d = proto.BY_NAME[spec['c']]
    path, inner = inside[n % len(inside)]
    tree = model.slots_wire(spec)
    e = proto.BY_NAME[inner['c']]

    def find(slots, cls, path):
        names = [s for s, _ in proto.BY_NAME[cls].slots]
        node = slots[names.index(path[0])][1][1]
        cls = proto.BY_NAME[cls].nested[path[0]][0]
        rest = path[1:]
        if rest and isinstance(rest[0], int):
            node, rest = node[rest[0]], rest[1:]
        return find(node[2], cls, rest) if rest else node
    node = copy.deepcopy(tree)
    tree = node
    node = find(tree, spec['c'], path)
    before = copy.deepcopy(node)
    if x % 4 == 0:
        node[0][1] = min(MAX_TS - 1, node[0][1] + 1 + x)
    elif x % 4 == 1 and node[1]:
        node[1] = bytes(node[1][:-2]) + bytes([node[1][-2] ^ x, node[1][-1]])
    elif node[2]:
        node[2][x % len(node[2])][1] = value
    payload = refcbor.dumps(tree)
    sig = model.sign(key, model.short_hash(d.type_, spec['ts'], payload))
    data = model.pack_header(d.type_, spec['ts'], False) + sig + payload
    if node == before or not isinstance(inner['sig'], tuple):
        return data
    got = try_load(data, key)
    if got is not None:
        ctx.label('nested tampered')
        msg = at(got, path)
        digest = model.short_hash(e.type_, node[0][1],
                                  refcbor.dumps(node[2]))
        i = inner['sig'][1]
        if same(msg.slots(), node[2]) and \
                not model.signed_by(node[1], digest, i):
            raises(exceptions.InvalidSignature, msg.verify_signature,
                   model.pub(i))
    return data


# M04

def judge_any(data, ctx, key=None):
    """Refused with a MessageError, or a well formed message"""
    if len(data) > HEAD:
        ctx.mark()
    got = try_load(data, key)
    if got is None:
        ctx.label('refused')
        return
    ctx.label('accepted')
    type_, ts, crypt = struct.unpack('!HQ?', data[:11])
    expect(list(got.header) == [type_, ts, crypt], 'header %s of %s',
           got.header, data[:11].hex())
    expect(got.sig == data[11:HEAD], 'signature is not the one sent')
    well_formed(got, type_, 'message')


def well_formed(msg, type_, what):
    d = proto.TYPES[type_]
    expect(type(msg) is b.klass(d.name), '%s is a %s, should be %s', what,
           type(msg).__name__, d.name)
    for slot, kind in d.slots:
        value = getattr(msg, slot)
        here = '%s.%s' % (what, slot)
        if kind == 'enum':
            expect(value is None or isinstance(
                value, b.enum_of(d.name, slot)), '%s: %s', here, short(value))
        elif kind in ('msg', 'msgs'):
            cls, none, many = d.nested[slot]
            inner = proto.BY_NAME[cls].type_
            if value is None:
                # a missing slot stays empty
                continue
            if many:
                expect(isinstance(value, list), '%s: %s', here, short(value))
                for v in value:
                    well_formed(v, inner, here)
            else:
                well_formed(value, inner, here)
        elif kind == 'node' and value:
            expect(isinstance(value, dt_p2p.Node), '%s: %s', here,
                   short(value))
        elif kind == 'nonneg':
            expect(value is None or is_int(value) and value >= 0, '%s: %s',
                   here, short(value))
        elif kind == 'pos1':
            expect(is_int(value) and value >= 1, '%s: %s', here, short(value))
        elif kind == 'bool':
            expect(isinstance(value, bool), '%s: %s', here, short(value))
        elif kind in PARTS:
            one = kind in ('header', 'stats', 'ctd')
            expect(value is None or one or isinstance(value, list), '%s: %s',
                   here, short(value))
            parts = [value] if one else value or ()
            for part in parts:
                expect(value is None or isinstance(part, PARTS[kind]),
                       '%s: %s', here, short(part))
                for k, v in part.items() if isinstance(part, dict) else ():
                    expect(k in part.ITEMS, '%s: key %s', here, short(k))
        elif kind == 'int' and d.name == 'TaskToCompute':
            expect(value is None or is_int(value), '%s: %s', here,
                   short(value))


PARTS = {'header': dt_tasks.TaskHeader, 'headers': dt_tasks.TaskHeader,
         'stats': dt_stats.ProviderStats, 'peers': dt_p2p.Peer,
         'files': message.concents.FileTransferToken.FileInfo,
         'ctd': message.ComputeTaskDef}


@check('M04.junk')
def _(case, ctx):
    if isinstance(case, tuple):
        type_, ts, flag, rest = case
        case = struct.pack('!HQB', type_, ts, flag) + rest
    judge_any(case, ctx)


@check('M04.deep')
def _(case, ctx):
    """Values nested deeper than anybody needs, and sizes nobody has"""
    spec, opening, depth, leaf, where, close, n = case
    ctx.mark()
    spec = dict(spec, sig='fake')
    good = model.wire(spec)
    value = opening * depth + leaf + b'\xff' * (depth if close else 0)
    if where == 'payload':
        data = good[:HEAD] + value
    else:
        slots = model.slots_wire(spec)
        if not slots:
            return
        parts = [refcbor.dumps(s) for s in slots]
        i = n % len(slots)
        if where == 'nested' and slots[i][0] in \
                proto.BY_NAME[spec['c']].nested:
            value = b'\x82\xf4' + value
        parts[i] = b'\x82' + refcbor.dumps(slots[i][0]) + value
        data = good[:HEAD] + bytes([0x80 + len(parts)]) + b''.join(parts)
        data += good[-32:] if spec['c'] == 'Hello' else b''
    ctx.label(where, 'more than 1000 deep' if depth > 1000 else
              'up to 1000 deep')
    for _ in range(2):
        got = try_load(data)
        ctx.label('refused' if got is None else 'accepted')
    # and nothing is wrong afterwards
    b.check_message(load(good), spec, model.FAKE)


@check('M04.mangled')
def _(case, ctx):
    spec, edits = case
    data = bytearray(model.wire(spec))
    for how, n, x in edits:
        n %= max(1, len(data))
        if how == 'flip' and data:
            data[n] ^= x
        elif how == 'cut':
            del data[max(n, HEAD):]
        else:
            data[n:n] = bytes([x])
    ctx.label(spec['c'])
    judge_any(bytes(data), ctx)


@check('M04.hollow')
def _(case, ctx):
    spec, n, deep, at, value = case
    d = proto.BY_NAME[spec['c']]
    names = [s for s, k in d.slots if k not in ('v', 'int')]
    name = names[n % len(names)]
    slots = copy.deepcopy(model.slots_wire(spec))
    for pair in slots:
        if pair[0] == name:
            if deep and isinstance(pair[1], (list, dict)) and pair[1]:
                put(pair[1], at, value)
            else:
                pair[1] = value
            break
    else:
        slots.append([name, value])
    ctx.label(dict(d.slots)[name])
    tail = struct.pack('!32p', b'2.18.0') if d.name == 'Hello' else b''
    judge_any(model.pack_header(d.type_, spec['ts'], False) + model.FAKE +
              refcbor.dumps(slots) + tail, ctx)


@check('M04.empty')
def _(spec, ctx):
    """Each slot in turn holds nothing, or nothing of the right type"""
    d = proto.BY_NAME[spec['c']]
    slots = copy.deepcopy(model.slots_wire(spec))
    tail = struct.pack('!32p', b'2.18.0') if d.name == 'Hello' else b''
    for pair in slots:
        kind = dict(d.slots)[pair[0]]
        if kind == 'v' or kind == 'int' and d.name != 'TaskToCompute':
            continue
        ctx.label(kind)
        for value in (None, False, 0, 0.0, '', b'', [], {}, [None], [[]],
                      [{}], {'': None}):
            pair[1], before = value, pair[1]
            judge_any(model.pack_header(d.type_, spec['ts'], False) +
                      model.FAKE + refcbor.dumps(slots) + tail, ctx)
            pair[1] = before


@check('M04.number')
def _(case, ctx):
    """Each slot in turn holds a number that is hard to compute with"""
    spec, values = case
    d = proto.BY_NAME[spec['c']]
    slots = copy.deepcopy(model.slots_wire(spec))
    tail = struct.pack('!32p', b'2.18.0') if d.name == 'Hello' else b''
    for pair in slots:
        ctx.label(dict(d.slots)[pair[0]])
        before = pair[1]
        for value in values:
            pair[1] = value
            judge_any(model.pack_header(d.type_, spec['ts'], False) +
                      model.FAKE + refcbor.dumps(slots) + tail, ctx)
        pair[1] = before


@check('M04.tree')
def _(case, ctx):
    spec, edits, key, sign = case
    d = proto.BY_NAME[spec['c']]
    tree = copy.deepcopy(model.slots_wire(spec))
    for how, n, value in edits:
        if not isinstance(tree, list) or not tree:
            tree = value
            break
        i = n % len(tree)
        if how == 'set':
            put(tree, n, value)
        elif how == 'slot':
            if isinstance(tree[i], list) and len(tree[i]) == 2:
                tree[i][1] = value
        elif how == 'drop':
            del tree[i]
        elif how == 'add':
            tree.insert(i, [value, value])
        elif how == 'dup':
            tree.append(copy.deepcopy(tree[i]))
            put(tree[-1:], n, value)
        elif how == 'order':
            tree.reverse()
        elif how == 'key':
            if isinstance(tree[i], list) and tree[i]:
                tree[i][0] = value
        else:
            tree = [tree] if n % 2 else {'slots': tree}
    payload = refcbor.dumps(tree)
    ctx.label(d.name)
    tail = b''
    if d.name == 'Hello':
        tail = struct.pack('!32p', b'2.18.0')
    sig = model.FAKE
    if sign == 'resign' and key is not None:
        digest = model.short_hash(d.type_, spec['ts'], payload)
        sig = model.sign(key, digest + (b'2.18.0' if tail else b''))
        ctx.label('authentic')
    else:
        key = None
    judge_any(model.pack_header(d.type_, spec['ts'], False) + sig + payload +
              tail, ctx, key)


# M07

@check('M07.window')
def _(case, ctx):
    spec, now, delta, on, crypt = case
    ts = min(MAX_TS - 1, max(MIN_TS + 1, now + delta))
    delta = ts - now
    spec = dict(spec, ts=ts)
    data = model.wire(spec)
    opened = plain
    if crypt and proto.BY_NAME[spec['c']].enc:
        ctx.label('encrypted')
        payload = data[HEAD:]
        data = data[:10] + b'\1' + data[11:]
        if crypt == 'key':
            data = data[:HEAD] + refecies.encrypt(
                payload, model.pub(7), model.key(8), b'iv' * 8)
        opened = lambda _: payload  # noqa
    else:
        crypt = ''

    def timed(data):
        """The ways to load with the check on"""
        if crypt != 'key':
            yield lambda: base.Message.deserialize(data, opened)
            yield lambda: base.Message.deserialize(data, opened, True)
        if crypt != 'flag':
            yield lambda: shortcuts.load(data, model.key(7), None)
    clock.at(now)
    if on and delta:
        ctx.mark()
    if not on:
        ctx.label('off')
        got = [base.Message.deserialize(data, opened, False)]
        if crypt != 'flag':
            got.append(shortcuts.load(data, model.key(7), None,
                                      check_time=False))
    elif delta > 300:
        ctx.label('future')
        want = exceptions.MessageFromFutureError
        got = [raises(want, f) for f in timed(data)]
        raises(want, base.verify_time, ts)
        return
    elif delta < -600:
        ctx.label('old')
        want = exceptions.MessageTooOldError
        got = [raises(want, f) for f in timed(data)]
        raises(want, base.verify_time, ts)
        return
    else:
        ctx.label('in time')
        base.verify_time(ts)
        got = [f() for f in timed(data)]
    for msg in got:
        expect(msg.timestamp == ts, 'timestamp %r, sent %d',
               msg.timestamp, ts)
        b.check_message(msg, spec, data[11:HEAD], encrypted=bool(crypt))


@check('M07.real')
def _(case, ctx):
    """The same by the clock of this machine, in any time zone"""
    spec, delta, zone = case
    clock.stop()
    home = os.environ.get('TZ')
    if zone is not None:
        ctx.label('zone')
        os.environ['TZ'] = zone_changing(int(time.time()) + zone[1], *zone)
        time.tzset()
    try:
        by_own_clock(spec, delta, ctx)
    finally:
        if zone is not None:
            if home is None:
                del os.environ['TZ']
            else:
                os.environ['TZ'] = home
            time.tzset()


def zone_changing(when, begins, _, east):
    """A time zone whose summer begins or ends at that instant"""
    def rule(instant, offset):
        t = time.gmtime(instant + offset)
        return '%d/%d:%02d:%02d' % (t.tm_yday - 1, t.tm_hour, t.tm_min,
                                    t.tm_sec)
    other = when + 120 * 86400
    start, end = (when, other) if begins else (other, when)
    # offsets are written with the opposite sign
    return 'AAA%dBBB%d,%s,%s' % (
        -east, -east - 1, rule(start, east * 3600),
        rule(end, (east + 1) * 3600))


def by_own_clock(spec, delta, ctx):
    for margin in (-600, 300):
        if abs(delta - margin) < 30:
            delta = margin + 30
    ctx.mark()
    msg = b.klass(spec['c'])()
    now = int(time.time())
    expect(now - 20 <= msg.timestamp <= now, 'made at %s, its time is %s',
           now, msg.timestamp)
    if spec['c'] == 'Hello':
        spec = dict(spec, version=golem_messages.__version__)
    data = model.wire(dict(spec, ts=now + delta))
    for f in (lambda: base.Message.deserialize(data, plain),
              lambda: base.Message.deserialize(data, plain, True),
              lambda: shortcuts.load(data, None, None)):
        if delta > 300:
            ctx.label('future')
            raises(exceptions.MessageFromFutureError, f)
        elif delta < -600:
            ctx.label('old')
            raises(exceptions.MessageTooOldError, f)
        else:
            ctx.label('in time')
            expect(f().timestamp == now + delta, 'timestamp')


@check('M07.header')
def _(case, ctx):
    ts, type_, flag = case
    ctx.mark()
    raw = struct.pack('!HQ?', type_, ts, flag)
    data = raw + b'\0' * 65 + b'\x80'
    if not MIN_TS < ts < MAX_TS or type_ not in proto.TYPES:
        ctx.label('refused')
        raises(exceptions.HeaderError, base.Message.deserialize_header, raw)
        raises(exceptions.HeaderError, load, data)
    else:
        ctx.label('accepted')
        got = base.Message.deserialize_header(raw)
        expect(list(got) == [type_, ts, flag], 'header read as %s', got)
    expect(list(base.Message.unpack_header(raw)) == [type_, ts, flag],
           'unpacked as %s', base.Message.unpack_header(raw))
    for bad in (raw[:-1], raw + b'\0', b''):
        raises(exceptions.HeaderError, base.Message.unpack_header, bad)
    for n in (0, 1, 10, 11, 12, 75, 76):
        raises(MessageError, load, data[:n])


# M08

NUM = r'(0|[1-9][0-9]*)'
IDENT = r'[0-9A-Za-z-]+'
SEMVER = re.compile(
    '^%s\\.%s\\.%s(?:-(%s(?:\\.%s)*))?(?:\\+(%s(?:\\.%s)*))?\\Z' % (
        NUM, NUM, NUM, IDENT, IDENT, IDENT, IDENT), re.ASCII)


def compatible(ours, theirs):
    """True, False, or None where pre-releases leave it open"""
    if theirs.endswith('\n'):
        # whether a line end is a part of the version is up to the parser
        return None
    m = SEMVER.match(theirs)
    if not m:
        return False
    if m.group(4) is not None and any(
            re.fullmatch('0[0-9]+', p) for p in m.group(4).split('.')):
        return False
    o = SEMVER.match(ours)
    mine = tuple(int(x) for x in o.groups()[:3])
    his = tuple(int(x) for x in m.groups()[:3])
    if his[:2] != mine[:2]:
        return False
    if m.group(4) is not None or o.group(4) is not None:
        return None
    return True


def judge_version(ok, f, ctx):
    if ok is False:
        ctx.label('refused')
        raises(exceptions.VersionMismatchError, f)
        return None
    if ok is None:
        ctx.label('either')
        try:
            return f()
        except exceptions.VersionMismatchError:
            return None
    ctx.label('accepted')
    return f()


@check('M08.hello')
def _(case, ctx):
    spec, version, signer = case
    version = version.encode('ascii', 'replace')[:31].decode('ascii')
    spec = dict(spec, version=version,
                sig=None if signer is None else ('k', signer))
    mine = golem_messages.__version__
    if version != mine:
        ctx.mark()
    data = model.wire(spec)
    got = judge_version(compatible(mine, version),
                        lambda: load(data, signer), ctx)
    if got is not None:
        b.check_message(got, spec, data[11:HEAD])
        # relayed, it still is theirs and not ours
        expect(got.serialize() == data, 'serialized again it differs')
        other = load(model.wire(dict(spec, version=mine)))
        expect((got == other) is (version == mine and signer is None or
                                  version == mine and
                                  got.sig == other.sig),
               'equality ignores the version')
    me = message.base.Hello(
        header=dt.MessageHeader(0, spec['ts'], False))
    sent = me.serialize()
    expect(sent[-32:] == struct.pack('!32p', mine.encode()),
           'greets with version bytes %s', sent[-32:])


@functools.lru_cache(maxsize=None)
def can_be_of_other_version():
    """Or the library looks its version up once, when it is imported"""
    def taken(version):
        try:
            base.verify_version(version)
        except exceptions.VersionMismatchError:
            return False
        return True
    real = golem_messages.__version__
    golem_messages.__version__ = '99.98.97'
    try:
        return taken('99.98.97') or not taken(real)
    finally:
        golem_messages.__version__ = real


@check('M08.pair')
def _(case, ctx):
    ours, (major, minor, patch, tail) = case
    if not can_be_of_other_version():
        ours = golem_messages.__version__
    o = SEMVER.match(ours)
    nums = [max(0, int(a) + d) for a, d in zip(
        o.groups()[:3], (major, minor, patch))]
    theirs = '%d.%d.%d' % tuple(nums) + tail
    if ours != theirs:
        ctx.mark()
    real = golem_messages.__version__
    golem_messages.__version__ = ours
    try:
        judge_version(compatible(ours, theirs),
                      lambda: base.verify_version(theirs), ctx)
    finally:
        golem_messages.__version__ = real


@check('M08.raw')
def _(case, ctx):
    spec, tail, cut = case
    ctx.mark()
    data = model.wire(spec)[:-32]
    raw = data[HEAD:] + tail
    whole = data[:HEAD] + raw[:max(1, len(raw) - cut)]
    last = whole[HEAD:][-32:]
    if len(last) < 32 or compatible(
            golem_messages.__version__, version_of(last)) is False:
        raises(exceptions.VersionMismatchError, load, whole)
        ctx.label('refused')
    else:
        try_load(whole)
        ctx.label('open')


# M09

HOSTS = {}
for _d in proto.TYPES.values():
    if _d.name in ('SubtaskResultsAccepted', 'SubtaskResultsRejected',
                   'VerdictReportComputedTask', 'TaskToCompute'):
        continue
    for _s, (_c, _n, _l) in _d.nested.items():
        if all(n for s, (_, n, _) in _d.nested.items() if s != _s):
            HOSTS.setdefault(_c, []).append((_d.name, _s, _l))


def unlucky(_):
    raise RuntimeError('no luck')


@check('M09.history')
def _(case, ctx):
    spec, ops = case
    d = proto.BY_NAME[spec['c']]
    if len(ops) > 1:
        ctx.mark()
    msg = b.build(spec)
    if d.name == 'Hello':
        spec = dict(spec, version=golem_messages.__version__)
    digest = model.spec_hash(spec)
    sig = model.spec_sig(spec)
    for op, arg in ops:
        ctx.label(op)
        if op == 'serialize' or op == 'serialize_signed' and sig is None or \
                op == 'encrypt':
            if op == 'serialize_signed':
                data = msg.serialize(sign_as=model.key(arg))
            elif op == 'encrypt':
                data = msg.serialize(encrypt_func=lambda p: b'<' + p + b'>')
            else:
                data = msg.serialize()
            if sig is None:
                sig = model.sign(arg, digest) if d.sign and \
                    op == 'serialize_signed' else model.FAKE
            if op == 'encrypt' and d.enc:
                expect(data[10] == 1, 'is not marked as encrypted')
                expect(data[HEAD:HEAD + 1] == b'<' and data[-1:] == b'>',
                       'the payload was not encrypted')
                got = base.Message.deserialize(
                    data, lambda p: p[1:-1], False)
            else:
                expect(data[10] == 0, 'is marked as encrypted')
                got = load(data)
            b.check_message(got, spec, sig,
                            encrypted=op == 'encrypt' and d.enc)
        elif op == 'serialize_signed':
            raises(exceptions.SignatureAlreadyExists, msg.serialize,
                   sign_as=model.key(arg))
        elif op == 'no luck' and d.enc:
            # who encrypts it fails
            private = model.key(arg) if arg % 2 and sig is None else None
            raises(Exception, msg.serialize, private, unlucky)
            if sig is None and msg.sig is not None:
                sig = model.sign(arg, digest) if private and d.sign \
                    else model.FAKE
        elif op == 'sign':
            msg.sign_message(model.key(arg))
            sig = model.sign(arg, digest)
        elif op == 'renew':
            # whatever there was before
            sig = model.sign(arg, digest)
            for at_ in (0, 31, 32, 63, 64, 65):
                msg.sig = sig[:at_] + (
                    bytes([sig[at_] ^ 1]) + sig[at_ + 1:]
                    if at_ < 65 else b'\0')
                msg.sign_message(model.key(arg))
                expect(same(msg.sig, sig), 'signed again, it has %s, should '
                       'have %s', short(msg.sig), short(sig))
        elif op == 'clear':
            msg.sig = sig = None
        elif op == 'fake':
            msg.sig = sig = model.FAKE
        elif op == 'set':
            msg.sig = sig = arg
        elif op == 'copy_and_sign':
            got = utils.copy_and_sign(msg, model.key(arg))
            if sig is None:
                expect(got is not msg, 'it is no copy')
                expect(msg.sig is None, 'the original got a signature')
                b.check_message(got, spec, model.sign(arg, digest),
                                encrypted=msg.encrypted)
                msg, sig = got, got.sig
            else:
                expect(got is msg, 'a signed message was copied')
        elif op == 'reload':
            got = load(msg.serialize())
            sig = model.FAKE if sig is None else sig
            expect(got == msg, 'differs after loading')
            msg = got
        elif op == 'nest' and HOSTS.get(d.name):
            hosts = HOSTS[d.name]
            host, slot, many = hosts[arg % len(hosts)]
            outer = b.klass(host)(**{slot: [msg] if many else msg})
            # a nested message keeps what it has, even nothing
            data = outer.serialize(sign_as=model.key(arg))
            inner = getattr(load(data, arg), slot)
            inner = inner[0] if many else inner
            expect(same(inner.sig, sig), 'nested, its signature is %s, '
                   'was %s', short(inner.sig), short(sig))
            expect(list(inner.header)[:2] == [d.type_, spec['ts']],
                   'nested, its header is %s', inner.header)
            ctx.label('nested')
        elif op == 'verify' and sig is not None:
            if model.signed_by(sig, digest, arg):
                expect(msg.verify_signature(model.pub(arg)) is True,
                       'its signature does not verify')
                ctx.label('verified')
            else:
                raises(exceptions.InvalidSignature, msg.verify_signature,
                       model.pub(arg))
        expect(same(msg.sig, sig), 'after %s the signature is %s, should '
               'be %s', op, short(msg.sig), short(sig))
        expect(msg.timestamp == spec['ts'], 'after %s the timestamp is %r',
               op, msg.timestamp)
    b.check_slots(msg, model.slots_wire(spec), 'in the end')


@check('M09.copy')
def _(case, ctx):
    """copy_and_sign leaves everything else as it was"""
    spec, key, then = case
    d = proto.BY_NAME[spec['c']]
    ctx.label(d.name)
    if d.name == 'Hello':
        spec = dict(spec, version=golem_messages.__version__)
    msg = b.build(spec)
    sig = None
    if d.nested:
        ctx.mark()
    copies = []
    for i in [0] + then:
        if sig is not None:
            break
        got = utils.copy_and_sign(msg, model.key(key + i))
        want = model.sign(key + i, model.spec_hash(spec))
        b.check_message(got, spec, want, what='copy %d' % i)
        b.check_message(msg, spec, None, what='original')
        copies.append((got, want))
        if i == 3:
            msg.sign_message(model.key(key))
            sig = model.sign(key, model.spec_hash(spec))
    for got, want in copies:
        b.check_message(got, spec, want, what='copy in the end')
    b.check_message(msg, spec, sig, what='original in the end')


@check('M09.relay')
def _(case, ctx):
    spec, key, twice = case
    ctx.label(spec['c'])
    got = load(model.wire(spec))
    for i in range(1 + twice):
        got.sig = None
        data = got.serialize(sign_as=model.key(key + i))
        got = load(data, key + i)
        b.check_message(
            got, spec, model.sign(key + i, model.spec_hash(spec)))
        for path, inner in nested_of(spec):
            msg = at(got, path)
            if inner['sig'] is not None:
                ctx.mark()
            expect(same(msg.sig, model.spec_sig(inner)),
                   '%s: the signature became %s', path, short(msg.sig))
            expect(msg.get_short_hash() == model.spec_hash(inner),
                   '%s: the hash changed', path)
    nested_signatures(got, spec, ctx)


@check('M09.shared')
def _(case, ctx):
    """What a signed message holds is used on its own, too"""
    spec, key, early, ops = case
    ctx.label(spec['c'])
    d = proto.BY_NAME[spec['c']]
    msg = b.build(spec)
    if early == 'dump':
        shortcuts.dump(msg, model.key(key), None)
    elif early == 'crypt':
        shortcuts.dump(msg, model.key(key), model.pub(key + 1))
    else:
        msg.sign_message(model.key(key))
    spec = dict(spec, sig=('k', key) if d.sign or early == 'sign' else 'fake')
    parts = [(msg, spec, 'the message')] + [
        (at(msg, path), inner, '.'.join(map(str, path)))
        for path, inner in nested_of(spec)]
    parts = [(m, s, w, model.spec_sig(s), model.spec_hash(s))
             for m, s, w in parts]
    data = model.wire(spec)
    for op, n, k in ops:
        m, s, what, sig, _ = parts[n % len(parts)]
        done = '%s of %s' % (op, what)
        e = proto.BY_NAME[s['c']]
        if sig is None and op in ('dump', 'crypt', 'nest'):
            op = 'hash'     # it would be signed
        ctx.label(op)
        if op in ('dump', 'crypt'):
            crypt = op == 'crypt' and e.enc
            if len(parts) > 1 and crypt:
                ctx.mark()
            sent = shortcuts.dump(
                m, None, model.pub(k) if op == 'crypt' else None)
            if not crypt:
                expect(sent == model.wire(s), '%s gives other bytes', done)
            got = shortcuts.load(sent, model.key(k), None, check_time=False)
            b.check_message(got, s, sig, encrypted=crypt, what=done)
        elif op == 'nest' and HOSTS.get(e.name):
            host, slot, many = HOSTS[e.name][k % len(HOSTS[e.name])]
            outer = b.klass(host)(**{slot: [m] if many else m})
            outer.serialize(sign_as=model.key(k))
        elif op == 'copy' and sig is not None:
            expect(utils.copy_and_sign(m, model.key(k)) is m,
                   'a signed message was copied')
        elif op == 'show':
            repr(m)
            m.slots()
            expect(m == m, 'differs from itself')
        for m, s, what, sig, digest in parts:
            expect(same(m.sig, sig), 'after %s the signature of %s is %s',
                   done, what, short(m.sig))
            expect(m.get_short_hash() == digest,
                   'after %s the content of %s is another one', done, what)
            if isinstance(s['sig'], tuple):
                expect(m.verify_signature(model.pub(s['sig'][1])) is True,
                       'after %s the signature of %s does not verify', done,
                       what)
        expect(msg.serialize() == data, 'after %s the bytes are others', done)


# M10

STRANGERS = {}


def strangers(msg):
    """What has the name and content of the message, but is none"""
    cls = type(msg)
    if cls not in STRANGERS:
        STRANGERS[cls] = [
            type(cls.__name__, bases, {
                '__module__': cls.__module__, '__slots__': [],
                '__qualname__': cls.__qualname__})
            for bases in ((message.p2p.Ping,), (base.RandVal,))
        ] + [type(cls.__name__, (), {'__module__': cls.__module__,
                                     '__qualname__': cls.__qualname__})]
    ping, other, plain = STRANGERS[cls]
    yield ping(header=msg.header, sig=msg.sig)
    yield other(header=msg.header, sig=msg.sig, slots=[['rand_val', 1]])
    got = plain()
    for name in ['header', 'sig'] + list(cls.__slots__):
        setattr(got, name, getattr(msg, name, None))
    got.serialize = msg.serialize
    got.slots = msg.slots
    yield got


@check('M10.slot')
def _(case, ctx):
    outer, slot, what, right, other, junk = case
    d = proto.BY_NAME[outer['c']]
    cls, none_ok, many = d.nested[slot]
    ctx.label(what, '%s.%s' % (d.name, slot))
    if what != 'right':
        ctx.mark()

    def wire(value):
        slots = [[n, value if n == slot else v]
                 for n, v in model.slots_wire(outer)]
        return model.pack_header(d.type_, outer['ts'], False) + model.FAKE + \
            refcbor.dumps(slots)

    def refused(value):
        e = raises(MessageError, load, wire(value))
        # the constructor that loading uses
        e = raises(FieldError, b.klass(d.name), slots=[[slot, value]])
        expect(e.field == slot, 'the error names %r instead of %r', e.field,
               slot)

    def unserializable(value):
        msg = b.build(outer)
        setattr(msg, slot, value)
        e = raises(FieldError, msg.serialize)
        expect(e.field == slot, 'the error names %r instead of %r', e.field,
               slot)
    good = model.nested_wire(right)
    cls_type = proto.BY_NAME[right['c']].type_
    if what == 'right':
        value = [True, [good, good]] if many else [False, good]
        got = b.klass(d.name)(slots=[[slot, value]])
        got = getattr(got, slot)
        for g in got if many else [got]:
            b.check_nested(g, good, cls, slot)
        expect(not many or len(got) == 2, 'not both messages: %s', got)
        msg = b.build(outer)
        setattr(msg, slot, [b.build(right)] * 2 if many else b.build(right))
        expect(same(dict(msg.slots())[slot], value), 'serialized as %s',
               short(dict(msg.slots())[slot]))
    elif what == 'none':
        if none_ok:
            got = b.klass(d.name)(slots=[[slot, [False, None]]])
            expect(getattr(got, slot) is None, 'should be None')
            msg = b.build(outer)
            setattr(msg, slot, None)
            expect(same(dict(msg.slots())[slot], [False, None]),
                   'None serialized as %s', short(dict(msg.slots())[slot]))
        else:
            refused([False, None])
            unserializable(None)
            refused([many, [None]] if many else [False, None])
    elif what == 'wrong':
        bad = b.build(other)
        unserializable([bad] if many else bad)
    elif what == 'stranger':
        # it calls itself what is declared
        for bad in strangers(b.build(right)):
            unserializable([bad] if many else bad)
            if many:
                unserializable([b.build(right), bad])
    elif what == 'liar':
        bad = model.nested_wire(other)
        refused([True, [bad]] if many else [False, bad])
        for n in ('%d' % cls_type, -cls_type, cls_type + 2 ** 8,
                  cls_type + 2 ** 15, cls_type + 2 ** 16, cls_type + 2 ** 32,
                  cls_type + 2 ** 64, cls_type - 2 ** 16, cls_type + 0.25):
            bad = [[n] + list(good[0][1:])] + list(good[1:])
            refused([True, [bad]] if many else [False, bad])
    elif what == 'mixed' and many:
        refused([True, [good, model.nested_wire(other)]])
        unserializable([b.build(right), b.build(other)])
        for hole in ([None], [right, None], [None, right], [right, None, right]):
            refused([True, [v and good for v in hole]])
            unserializable([v and b.build(right) for v in hole])
    elif what == 'list' and not many:
        refused([True, [good]])
    elif what == 'single' and many:
        refused([False, good])
    elif what == 'empty' and many:
        # the repository's tests want an empty list refused
        if d.name == 'ForcePayment':
            refused([True, []])
    elif what == 'junk':
        try:
            got = b.klass(d.name)(slots=[[slot, junk]])
        except FieldError as e:
            expect(e.field == slot, 'the error names %r', e.field)
        else:
            ctx.label('junk accepted')
            got = getattr(got, slot)
            if got is None:
                expect(none_ok, 'None where a message must be')
            elif many:
                for g in got:
                    well_formed(g, proto.BY_NAME[cls].type_, slot)
            else:
                well_formed(got, proto.BY_NAME[cls].type_, slot)


# M11

def content(spec):
    sig = model.spec_sig(spec)
    return spec['c'], spec['ts'], sig, model.slots_wire(spec)


def fixed(spec):
    """The same message with all signatures written out"""
    s = dict(spec['s'])
    wire = dict(model.slots_wire(spec))
    for slot, kind in proto.BY_NAME[spec['c']].slots:
        value = s.get(slot)
        if kind == 'msg' and value is not None:
            s[slot] = fixed(value)
        elif kind == 'msgs':
            s[slot] = [fixed(v) for v in value]
        elif kind == 'header' and value is not None:
            s[slot] = dict(value, sig=wire[slot]['signature'])
        elif kind == 'headers' and value:
            s[slot] = [dict(v, sig=w['signature'])
                       for v, w in zip(value, wire[slot])]
        elif slot == 'ethsig' or kind == 'psig':
            s[slot] = wire[slot]
    return dict(spec, sig=model.spec_sig(spec), s=s)


def turned(x):
    """The same with the keys of all dicts in the opposite order"""
    if isinstance(x, list):
        return [turned(v) for v in x]
    if isinstance(x, dict):
        return {k: turned(x[k]) for k in reversed(list(x))}
    return x


@check('M11.greetings')
def _(case, ctx):
    spec, (one, two) = case
    a, c = b.build(spec), b.build(spec)
    a._version, c._version = one, two   # pylint: disable=protected-access
    a.sig = c.sig = model.FAKE
    if one != two:
        ctx.mark()
    for x, y in ((a, c), (c, a)):
        expect((x == y) is (one == two), 'a greeting with version %r %s one '
               'with %r', one, 'is not' if one == two else 'is', two)
        expect((x != y) is (one != two), '!= of versions %r, %r', one, two)


@check('M11.pair')
def _(case, ctx):
    spec, how, n, value, stranger = case
    d = proto.BY_NAME[spec['c']]
    ctx.label(how)
    a = b.build(spec)
    twin = copy.deepcopy(spec)
    if how == 'ts':
        step = 2 ** (n % 35) if n % 2 else 1
        twin['ts'] = twin['ts'] + step if twin['ts'] + step < MAX_TS \
            else twin['ts'] - step if twin['ts'] - step > MIN_TS \
            else twin['ts'] - 1
        if isinstance(spec['sig'], tuple):
            twin['sig'] = model.spec_sig(spec)   # only the time differs
        if d.name == 'Hello' and isinstance(spec['sig'], tuple):
            twin['sig'] = b'\1' * 65
    elif how == 'sig':
        twin['sig'] = None if spec['sig'] is not None else 'fake'
    elif how == 'part of sig':
        # all of it counts: one bit of one byte, or a missing end
        sig = model.spec_sig(spec) or model.FAKE
        spec = dict(spec, sig=sig)
        a = b.build(spec)
        i = [n % 65, 64, 0, 63][n // 65 % 4]
        twin['sig'] = sig[:i] if n % 7 == 0 else \
            sig[:i] + bytes([sig[i] ^ 1 << n % 8]) + sig[i + 1:]
    elif how == 'slot':
        free = [s for s, k in d.slots if k == 'v' and s != 'ethsig' and
                not isinstance(spec['s'].get(s), tuple)]
        if free:
            twin['s'][free[n % len(free)]] = value
    elif how == 'deep':
        inside = list(nested_of(twin))
        if inside:
            inner = inside[n % len(inside)][1]
            free = [s for s, k in proto.BY_NAME[inner['c']].slots
                    if k == 'v' and s != 'ethsig' and
                    not isinstance(inner['s'].get(s), tuple)
                    and s not in ('requestor_ethereum_public_key',
                                  'provider_ethereum_address')]
            if n % 3 and free:
                inner['s'][free[n % len(free)]] = value
            else:
                inner['sig'] = bytes([n % 256]) * 65
    elif how == 'order':
        # how a dict was put together does not matter
        spec = fixed(spec)
        a, twin = b.build(spec), turned(spec)
    c = b.build(twin)
    if d.name == 'Hello':
        v = {'version': golem_messages.__version__}
        spec, twin = dict(spec, **v), dict(twin, **v)
    if how == 'encrypted':
        c.encrypted = not c.encrypted
    elif how == 'loaded':
        data = model.wire(spec)
        c = load(data)
        if a.sig is None:
            a.sig = model.FAKE
            spec = dict(spec, sig='fake')
        twin = spec
    elif how == 'class':
        c = b.build(stranger)
        if stranger['c'] == 'Hello':
            stranger = dict(stranger, version=golem_messages.__version__)
        twin = stranger
    elif how == 'version' and d.name == 'Hello':
        other = dict(spec, version='2.18.777', sig='fake')
        c = load(model.wire(other))
        a = load(model.wire(dict(spec, sig='fake')))
        spec, twin = dict(spec, sig='fake'), other
    want = content(spec) == content(twin) and (
        d.name != 'Hello' or spec.get('version') == twin.get('version'))
    if not want:
        ctx.mark()
    for x, y in ((a, c), (c, a)):
        expect((x == y) is want, '%s == %s is %s', short(x), short(y),
               not want)
        expect((x != y) is not want, '%s != %s is %s', short(x), short(y),
               want)
    expect(a == a, 'is not equal to itself')
    for x in (None, 1, 'x', b'', a.slots()):
        expect(not a == x, 'is equal to %r', x)


# M12

@check('M12.bare')
def _(case, ctx):
    name, ts, micro, given = case
    d = proto.BY_NAME[name]
    cls = b.klass(name)
    # a float cannot tell so late a microsecond from the next second
    clock.at(ts, micro if ts < 1 << 32 else 0)
    header = dt.MessageHeader(d.type_, ts // 2, given)
    msgs = []
    for _ in range(2):
        msg = cls(header=header) if given else cls()
        msgs.append(msg)
        expect(same(list(msg.header), list(header) if given else
                    [d.type_, ts, False]), 'header is %s', msg.header)
        expect(msg.timestamp == (ts // 2 if given else ts), 'timestamp')
        expect(msg.encrypted is given, 'encrypted flag')
        expect(msg.sig is None, 'has signature %s', short(msg.sig))
        for slot, kind in d.slots:
            got = getattr(msg, slot)
            want = {'bool': False, 'pos1': 1, 'orlist': [], 'peers': [],
                    'headers': []}.get(kind)
            if name == 'TaskFailure' and slot == 'reason':
                want = b.enum_of(name, slot)('ComputationError')
            expect(same(got, want), '%s.%s is %s, should be %s', name, slot,
                   short(got), short(want))
            if isinstance(got, list):
                got.append('poked')
    if not d.nested:
        repr(cls())


@check('M12.given')
def _(case, ctx):
    """What is given is what the slot holds, however empty it looks"""
    name, values, how, ts = case
    d = proto.BY_NAME[name]
    cls = b.klass(name)
    kinds = d.kinds
    header = dt.MessageHeader(d.type_, ts, False)
    ctx.mark()
    ctx.label(how)
    values = model.resolve(values)
    if how == 'slots' and not all(
            ok_number(kinds[s], value) for s, value in values.items()):
        ctx.label('a number is refused elsewhere')
        return
    if how == 'kwargs':
        msg = cls(header=header, **values)
    else:
        msg = cls(header=header, slots=list(map(list, values.items())))
    for slot, value in values.items():
        kind = kinds[slot]
        want = {'bool': bool(value), 'orlist': value or [],
                'pos1': 1 if value is None else value}.get(kind, value)
        got = getattr(msg, slot)
        if value is not None and not value:
            ctx.label('empty')
        expect(same(got, want), '%s(%s=%s): the slot holds %s', name, slot,
               short(value), short(got))
    expect(same(list(msg.header), list(header)), 'header is %s', msg.header)


def ok_number(kind, value):
    low = {'int': None, 'nonneg': 0, 'pos1': 1}
    if kind not in low:
        return True
    return is_int(value) and (low[kind] is None or value >= low[kind])


@check('M12.enum')
def _(case, ctx):
    name, slot, value, ts = case
    ctx.mark()
    d = proto.BY_NAME[name]
    cls = b.klass(name)
    header = dt.MessageHeader(d.type_, ts, False)
    values = {v: n for n, v in d.enums[slot]}

    def make():
        return cls(header=header, slots=[[slot, value]])
    if value is None:
        want = None
        if name == 'TaskFailure':
            want = b.enum_of(name, slot)('ComputationError')
        expect(getattr(make(), slot) is want, 'None became %r',
               getattr(make(), slot))
    elif isinstance(value, str) and value in values:
        ctx.label('member')
        got = getattr(make(), slot)
        expect(got is b.enum_of(name, slot)[values[value]],
               '%r became %r', value, got)
        msg = cls(header=header, **{slot: got})
        if not d.nested:
            back = dict(msg.slots())[slot]
            expect(type(back) is str and back == value,
                   '%r is serialized as %r', got, back)
    else:
        ctx.label('refused')
        e = raises(FieldError, make)
        expect(e.field == slot, 'the error names %r', e.field)
        expect(same(e.value, value) or value != value,
               'the error shows %s', short(e.value))


@check('M12.rule')
def _(case, ctx):
    name, slot, value = case
    ctx.mark()
    ctx.label('%s.%s' % (name, slot))
    cls = b.klass(name)
    want, given = value, {slot: value}
    if slot == 'cpu_usage':
        ok = value is None or is_int(value) and value >= 0
    elif slot == 'num_subtasks':
        ok = is_int(value) and value >= 1
    elif slot in ('price', 'size'):
        ok = is_int(value)
    elif slot in ('task_id', 'subtask_id'):
        ok = isinstance(value, str) and len(value) <= 128
        given = {'compute_task_def': {slot: value}}
    elif slot == 'node_info':
        if not value:
            ok = True
        elif isinstance(value, dict):
            ports = [v for k, v in value.items() if str(k).endswith('port')]
            if any(is_int(v) and v == 65535 for v in ports):
                return
            bad = [k for k, v in value.items() if k not in model.NODE or
                   k in NODE_RULES and v is not None and
                   not NODE_RULES[k](v)]
            ok = not bad
            want = None
        else:
            ok = False
    else:
        # peers, tasks: only lists of well formed dicts
        ok = value == [] and isinstance(value, list)

    def make():
        return cls(slots=list(map(list, given.items())))
    if not ok:
        ctx.label('refused')
        e = raises(MessageError, make)
        inner = slot in ('node_info', 'peers', 'tasks') and \
            isinstance(value, (dict, list))
        if not inner:   # there, it is something in the value that is wrong
            expect(isinstance(e, FieldError) and e.field == slot,
                   'wrong is %s, but the error is %r', slot, e)
            expect(same(e.value, value), 'the error shows %s, wrong is %s',
                   short(e.value), short(value))
        return
    ctx.label('accepted')
    got = make()
    if slot in ('task_id', 'subtask_id'):
        expect(same(got.compute_task_def[slot], value), 'ctd changed')
        expect(same(getattr(got, slot), value), '%s is %s', slot,
               short(getattr(got, slot)))
    elif slot == 'node_info' and value:
        expect(same(got.node_info.to_dict(), model.node_wire(value)),
               'node became %s', short(got.node_info.to_dict()))
    else:
        expect(same(getattr(got, slot), want), '%s became %s', short(want),
               short(getattr(got, slot)))


PEER = ('address', 'port', 'node')
NEEDED = ('task_id', 'task_owner', 'subtasks_count', 'min_version',
          'timestamp')


@check('M12.list')
def _(case, ctx):
    """One bad element of a list is enough, wherever it is"""
    spec, edits = case
    slot = {'Tasks': 'tasks', 'Peers': 'peers'}[spec['c']]
    ctx.mark()
    cls = b.klass(spec['c'])
    good = dict(model.slots_wire(spec))[slot]
    got = cls(slots=[[slot, copy.deepcopy(good)]])
    expect(len(getattr(got, slot)) == len(good), 'has %s of %d elements',
           short(getattr(got, slot)), len(good))
    items, bad = list(good), False
    for n, how, value in edits:
        if how == 'twice' and items:
            value = items[n % len(items)]
            items.insert(n % (len(items) + 1), value)
            continue
        if how in ('lacks', 'extra') and not good:
            continue
        bad = True
        if how == 'lacks':
            # one that lacks something
            value = dict(good[n % len(good)])
            needed = PEER if slot == 'peers' else NEEDED
            del value[needed[(n + len(good)) % len(needed)]]
            n += len(edits)
        elif how == 'extra':
            # one with something else in it
            value = dict(good[n % len(good)], **{
                ['other', 'Port', 'ITEMS', '_type'][n % 4]: value})
        if how == 'set' and items:
            items[n % len(items)] = value
        else:
            items.insert(n % (len(items) + 1), value)
    ctx.label('%d elements' % len(items))
    if bad:
        raises(MessageError, cls, slots=[[slot, copy.deepcopy(items)]])
        data = model.wire(dict(spec, sig=None), refcbor.dumps([[slot, items]]))
        raises(MessageError, load, data)
    else:
        got = cls(slots=[[slot, copy.deepcopy(items)]])
        expect(same(dict(got.slots())[slot], items), 'became %s',
               short(dict(got.slots())[slot]))


@check('M12.unsendable')
def _(case, ctx):
    """What can't be sent in a slot is found out when it is sent"""
    name, slot, value, late = case
    ctx.mark()
    ctx.label('%s.%s' % (name, slot))
    cls = b.klass(name)
    if late:
        msg = cls()
        setattr(msg, slot, value)
    else:
        msg = cls(**{slot: value})
    for _ in range(2):
        e = raises(FieldError, msg.serialize)
        expect(e.field == slot, 'the error names %s, not %s', e.field, slot)
        expect(same(e.value, value), 'the error shows %s, not %s',
               short(e.value), short(value))
    setattr(msg, slot, [] if slot == 'tasks' else None)
    msg.sig = model.FAKE
    load(msg.serialize())

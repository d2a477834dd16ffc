"""Builds real messages out of specs, and compares real ones with the model.
Only public constructors and attributes are used."""
from golem_messages import datastructures as dt
from golem_messages import message
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import stats as dt_stats
from golem_messages.datastructures import tasks as dt_tasks
from golem_messages.datastructures import promissory

import model
import proto
from lib import expect, fail, same, short

ENUM_ATTR = {'reason': 'REASON', 'operation': 'Operation',
             'origin': 'Origin', 'recipient_type': 'Actor'}


def klass(name):
    d = proto.BY_NAME[name]
    return getattr(getattr(message, d.mod), name)


def enum_of(name, slot):
    return getattr(klass(name), ENUM_ATTR[slot])


def build_node(kw):
    return dt_p2p.Node(**model.resolve(kw))


def build_header(spec):
    kw = model.resolve(spec['kw'])
    sig = spec.get('sig')
    if isinstance(sig, bytes):
        kw['signature'] = sig
    header = dt_tasks.TaskHeader(**kw)
    if isinstance(sig, tuple):
        header.sign(model.key(sig[1]))
    return header


def build_slot(name, slot, kind, value, nest=None):
    if value is None:
        return None
    nest = nest or {'msg': build, 'header': build_header}
    if kind == 'msg':
        return nest['msg'](value)
    if kind == 'msgs':
        return [nest['msg'](v) for v in value]
    if kind == 'header':
        return nest['header'](value)
    if kind == 'headers':
        return [build_header(v) for v in value]
    value = model.resolve(value)
    if kind == 'node':
        return build_node(value) if value else value
    if kind == 'peers':
        return [dt_p2p.Peer(address=p['address'], port=p['port'],
                            node=build_node(p['node'])) for p in value]
    if kind == 'ctd':
        return message.tasks.ComputeTaskDef(value)
    if kind == 'files':
        info = message.concents.FileTransferToken.FileInfo
        return [info({
            k: info.Category(v) if k == 'category' else v
            for k, v in f.items()}) for f in value]
    if kind == 'stats':
        return dt_stats.ProviderStats(**value)
    if kind == 'enum':
        return enum_of(name, slot)(value)
    if kind == 'psig':
        return promissory.PromissoryNoteSig(*value)
    return value


def build(spec, nest=None):
    """nest: where to get messages and headers within from"""
    d = proto.BY_NAME[spec['c']]
    kwargs, later = {}, {}
    for slot, kind in d.slots:
        value = spec['s'].get(slot)
        if slot == 'ethsig' and isinstance(value, tuple):
            later[slot] = value
        elif kind == 'psig' and isinstance(value, tuple):
            later[slot] = value
        elif slot in spec['s']:
            kwargs[slot] = build_slot(d.name, slot, kind, value, nest)
    header = dt.MessageHeader(d.type_, spec['ts'], bool(spec.get('enc')))
    msg = klass(d.name)(header=header, **kwargs)
    for slot, value in later.items():
        if slot == 'ethsig':
            msg.generate_ethsig(model.key(value[1]))
        elif slot == 'promissory_note_sig':
            msg.sign_promissory_note(
                deposit_contract_address=model.resolve(value[2]),
                private_key=model.key(value[1]))
        else:
            msg.sign_concent_promissory_note(
                deposit_contract_address=model.resolve(value[2]),
                private_key=model.key(value[1]))
    sig = spec.get('sig')
    if sig == 'fake':
        msg.sig = model.FAKE
    elif isinstance(sig, tuple):
        msg.sign_message(model.key(sig[1]))
    elif sig is not None:
        msg.sig = sig
    return msg


def expect_same(got, want, what):
    if not same(got, want):
        fail('%s: is %s, should be %s', what, short(got), short(want))


def plain_node(node, what):
    expect(isinstance(node, dt_p2p.Node), '%s: %r is no Node', what, node)
    return node.to_dict()


def check_slot(d, slot, kind, got, want, what):
    """got: attribute of a real message; want: its wire value in the model"""
    what = '%s.%s' % (what, slot)
    if kind == 'msg':
        want = want[1]
        if want is None:
            expect(got is None, '%s: %r should be None', what, got)
        else:
            check_nested(got, want, d.nested[slot][0], what)
        return
    if kind == 'msgs':
        expect(isinstance(got, list), '%s: %r should be a list', what, got)
        expect(len(got) == len(want[1]), '%s: %d messages, should be %d',
               what, len(got), len(want[1]))
        for i, (g, w) in enumerate(zip(got, want[1])):
            check_nested(g, w, d.nested[slot][0], '%s[%d]' % (what, i))
        return
    if want is not None:
        if kind == 'enum':
            enum_ = enum_of(d.name, slot)
            expect(isinstance(got, enum_), '%s: %r is not of %r', what, got,
                   enum_)
            got = got.value
        elif kind == 'node' and want:
            got = plain_node(got, what)
        elif kind == 'header':
            expect(isinstance(got, dt_tasks.TaskHeader),
                   '%s: %r is no TaskHeader', what, got)
            got = got.to_dict()
        elif kind == 'headers':
            expect(isinstance(got, list) and all(
                isinstance(h, dt_tasks.TaskHeader) for h in got),
                '%s: %r should be TaskHeaders', what, got)
            got = [h.to_dict() for h in got]
        elif kind == 'peers':
            expect(isinstance(got, list) and all(
                isinstance(p, dt_p2p.Peer) for p in got),
                '%s: %r should be Peers', what, got)
            got = [dict(p, node=plain_node(p['node'], what)) for p in got]
        elif kind == 'ctd':
            expect(isinstance(got, message.tasks.ComputeTaskDef),
                   '%s: %r is no ComputeTaskDef', what, got)
            got = dict(got)
        elif kind == 'files':
            info = message.concents.FileTransferToken.FileInfo
            expect(isinstance(got, list) and all(
                isinstance(f, info) for f in got),
                '%s: %r should be FileInfos', what, got)
            expect(all(isinstance(f['category'], info.Category)
                       for f in got), '%s: category lost: %r', what, got)
            got = [dict(f, category=f['category'].value) for f in got]
        elif kind == 'stats':
            expect(isinstance(got, dt_stats.ProviderStats),
                   '%s: %r is no ProviderStats', what, got)
            got = got.to_dict()
    expect_same(got, want, what)


def check_slots(msg, wire_slots, what):
    d = proto.TYPES[msg.header.type_]
    for (slot, kind), (name, want) in zip(d.slots, wire_slots):
        check_slot(d, slot, kind, getattr(msg, slot), want, what)


def check_nested(msg, want, cls_name, what):
    expect(type(msg) is klass(cls_name), '%s: %r should be a %s', what, msg,
           cls_name)
    header, sig, slots = want
    expect_same(list(msg.header), header, what + '.header')
    expect_same(msg.sig, sig, what + '.sig')
    check_slots(msg, slots, what)


def check_message(msg, spec, sig, encrypted=False, what='message'):
    """msg is what the spec describes, with this signature"""
    d = proto.BY_NAME[spec['c']]
    expect(type(msg) is klass(d.name), '%s: %r should be a %s', what, msg,
           d.name)
    expect_same(list(msg.header), [d.type_, spec['ts'], encrypted],
                what + '.header')
    expect_same(msg.sig, sig, what + '.sig')
    check_slots(msg, model.slots_wire(spec), what)

"""Oracles for the factories that other projects test with."""
import random
import re
import uuid

import factory.random
import faker.generator

import golem_messages
from golem_messages import cryptography
from golem_messages import datastructures
from golem_messages import exceptions
from golem_messages import idgenerator
from golem_messages.factories import base as f_base
from golem_messages.factories import concents as f_concents
from golem_messages.factories import helpers as f_helpers
from golem_messages.factories import p2p as f_p2p
from golem_messages.factories import tasks as f_tasks
from golem_messages.factories.datastructures import p2p as f_node
from golem_messages.factories.datastructures import tasks as f_header
from golem_messages.message import base
from golem_messages.message import concents
from golem_messages.message import tasks

import build as b
import model
import proto
from chk_state import spoil_all
from lib import check, clock, expect, raises, same, short

MODULES = {'Hello': f_base, 'WantToStartTaskSession': f_p2p,
           'SetTaskSession': f_p2p}
NAMES = '''
Hello WantToStartTaskSession SetTaskSession WantToComputeTask TaskToCompute
CannotComputeTask TaskFailure ReportComputedTask AckReportComputedTask
RejectReportComputedTask SubtaskResultsAccepted SubtaskResultsRejected
FileTransferToken ForceReportComputedTask SubtaskResultsVerify
AckSubtaskResultsVerify SubtaskResultsSettled ForceGetTaskResult
AckForceGetTaskResult ForceGetTaskResultFailed ForceGetTaskResultRejected
ForceGetTaskResultUpload ForceGetTaskResultDownload
ForceSubtaskResultsResponse ForceSubtaskResults ForceSubtaskResultsRejected
ForcePayment ForcePaymentCommitted ForcePaymentRejected
ForceReportComputedTaskResponse VerdictReportComputedTask
ClientAuthorization ServiceRefused'''.split()


def factory_of(name):
    d = proto.BY_NAME[name]
    module = MODULES.get(name) or (
        f_tasks if d.mod == 'tasks' else f_concents)
    return getattr(module, name + 'Factory')


# what has to be asked for, to be complete
NEEDS = {
    'ForcePayment': {'subtask_results_accepted_list__generate': 2},
    'ForcePaymentRejected': {
        'force_payment__subtask_results_accepted_list__generate': 2},
}


def seeded(seed, ts):
    clock.at(ts)
    random.seed(seed)
    factory.random.reseed_random(seed)
    faker.generator.random.seed(seed)


def check_types(msg, name, what, ts):
    d = proto.BY_NAME[name]
    expect(type(msg) is b.klass(name), '%s is a %s, should be a %s', what,
           type(msg).__name__, name)
    expect(msg.header.type_ == d.type_, '%s has header %s', what,
           short(msg.header))
    expect(msg.timestamp == ts, '%s is of %s, should be %s', what,
           msg.timestamp, ts)
    for slot, kind in d.slots:
        value = getattr(msg, slot)
        where = '%s.%s' % (what, slot)
        if kind == 'msg':
            if value is None:
                expect(d.nested[slot][1], '%s is missing', where)
            else:
                check_types(value, d.nested[slot][0], where, ts)
        elif kind == 'msgs':
            for i, v in enumerate(value or ()):
                check_types(v, d.nested[slot][0], '%s[%d]' % (where, i), ts)
        elif kind == 'enum' and value is not None:
            expect(isinstance(value, b.enum_of(name, slot)), '%s is %r',
                   where, value)


def trip(msg, signer, reader, ts):
    """What arrives when it is sent"""
    if isinstance(msg, tasks.TaskMessage):
        expect(msg.is_valid() is True, '%s is not valid', short(msg))
    data = golem_messages.dump(
        msg, model.key(signer) if msg.sig is None else None,
        model.pub(reader))
    got = golem_messages.load(data, model.key(reader), model.pub(signer))
    expect(type(got) is type(msg), 'arrives as %s', short(got))
    expect(got == msg, 'arrives as %s instead of %s', short(got, 1500),
           short(msg, 1500))
    return got


# F01

@check('F01.make')
def _(case, ctx):
    n, seed, ts, signer, reader = case
    ctx.mark()
    name = NAMES[n % len(NAMES)]
    ctx.label(name)
    seeded(seed, ts)
    if seed % 3 == 0:
        msg = factory_of(name)(**NEEDS.get(name, {}))
        expect(msg.sig is None, 'signed, though nobody asked')
    else:
        msg = factory_of(name)(
            sign__privkey=model.key(signer), **NEEDS.get(name, {}))
        expect(msg.sig is not None, 'not signed')
        expect(msg.verify_signature(model.pub(signer)) is True, 'signature')
    check_types(msg, name, name, ts)
    got = trip(msg, signer, reader, ts)
    check_types(got, name, 'received ' + name, ts)
    if seed % 5 == 0:
        raises(factory.errors.InvalidDeclarationError, factory_of(name),
               sign__x=1)


@check('F01.apart')
def _(case, ctx):
    """What is done to a message that was made alters no other one"""
    names, seed, ts, signer = case
    ctx.mark()
    seeded(seed, ts)

    def made(n):
        name = NAMES[n % len(NAMES)]
        return factory_of(name)(
            sign__privkey=model.key(signer), **NEEDS.get(name, {}))
    victim, other = made(names[0]), made(names[1])
    ctx.label(type(victim).__name__)
    before = other.slots()
    sent = golem_messages.dump(other, None, None)
    expect(not spoils(sent), 'what another test does is in %s', short(other))
    spoil_all(victim)
    expect(same(other.slots(), before) and
           golem_messages.dump(other, None, None) == sent,
           'what is done to a %s alters a %s: %s', type(victim).__name__,
           type(other).__name__, short(other, 1500))
    for n in names:
        got = made(n)
        expect(not spoils(golem_messages.dump(got, None, None)),
               'what was done to a %s is in the next %s: %s',
               type(victim).__name__, type(got).__name__, short(got, 1500))


def spoils(data):
    return b'spoiled' in data


OVER = {
    'price': lambda m: m.price, 'size': lambda m: m.size,
    'package_hash': lambda m: m.package_hash,
    'concent_enabled': lambda m: m.concent_enabled,
    'task_id': lambda m: m.compute_task_def['task_id'],
    'subtask_id': lambda m: m.compute_task_def['subtask_id'],
    'compute_task_def__deadline': lambda m: m.compute_task_def['deadline'],
    'want_to_compute_task__price': lambda m: m.want_to_compute_task.price,
    'want_to_compute_task__task_header__deadline':
    lambda m: m.want_to_compute_task.task_header.deadline,
    'want_to_compute_task__task_header__environment':
    lambda m: m.want_to_compute_task.task_header.environment,
}


@check('F01.signed')
def _(case, ctx):
    seed, ts, req, prov, which, over, other = case
    ctx.mark()
    ctx.label(which)
    seeded(seed, ts)
    conc = (other + 1) % 6
    req_key, prov_key = model.pub(req), model.pub(prov)
    kwargs = {}
    if which in ('both', 'requestor'):
        kwargs['requestor_keys'] = cryptography.ECCx(model.key(req))
    if which in ('both', 'provider'):
        kwargs['provider_keys'] = cryptography.ECCx(model.key(prov))
    values = {}
    for name, n in over.items():
        value = n
        if name in ('task_id', 'subtask_id'):
            if which not in ('both', 'requestor'):
                continue
            value = model.seeded_uuid(req, n)
        elif name == 'concent_enabled':
            value = n % 2 == 0
        elif name.endswith(('environment', 'hash')):
            value = 'env %d' % n
        values[name] = value
    ctx.label(*values)
    cls = f_tasks.TaskToComputeFactory
    msg = cls.with_signed_nested_messages(**kwargs, **values)
    check_types(msg, 'TaskToCompute', 'TaskToCompute', ts)
    for name, value in values.items():
        got = OVER[name](msg)
        expect(same(got, value), '%s is %s, should be %s', name, short(got),
               short(value))
    wtct = msg.want_to_compute_task
    header = wtct.task_header
    if 'requestor_keys' in kwargs:
        expect(msg.requestor_public_key == req_key.hex(), 'requestor is %s',
               msg.requestor_public_key)
        expect(header.task_owner.key == req_key.hex(), 'owner is %s',
               short(header.task_owner))
        expect(header.verify(req_key) is True, 'header')
        expect(msg.verify_signature(req_key) is True, 'signature')
        if 'task_id' not in values:
            expect(msg.task_id == header.task_id,
                   'the task is %s, in the header %s', msg.task_id,
                   header.task_id)
    else:
        expect(msg.sig is None and header.signature is None,
               'signed, though nobody could')
    if 'provider_keys' in kwargs:
        expect(wtct.provider_public_key == prov_key.hex(), 'provider is %s',
               wtct.provider_public_key)
        expect(msg.provider_id == prov_key.hex(), 'provider is %s',
               msg.provider_id)
        expect(wtct.verify_signature(prov_key) is True, 'offer')
    else:
        expect(wtct.sig is None, 'the offer is signed, though nobody could')
    expect(msg.requestor_id == msg.requestor_public_key, 'requestor_id')
    expect(msg.provider_id == wtct.provider_public_key, 'provider_id')
    expect(msg.verify_ethsig() is True, 'ethsig')
    for id_ in (msg.task_id, msg.subtask_id):
        expect(uuid.UUID(id_).node == int(msg.requestor_id[:12], 16),
               'id %s of %s', id_, msg.requestor_id)
    verify = dict(concent_public_key=model.pub(conc))
    if 'requestor_keys' in kwargs:
        if 'provider_keys' in kwargs:
            verify['provider_public_key'] = prov_key
        verify['requestor_public_key'] = req_key
        expect(msg.verify_owners(**verify) is True, 'verify_owners')
        if other != req:
            raises(exceptions.OwnershipMismatch, msg.verify_owners,
                   **dict(verify, requestor_public_key=model.pub(other)))
    else:
        raises(exceptions.InvalidSignature, msg.verify_owners, **verify)
    got = trip(msg, req, other, ts)
    if 'requestor_keys' in kwargs:
        expect(got.verify_owners(**verify) is True, 'verify_owners, received')


@check('F01.identities')
def _(case, ctx):
    """Whoever is named explicitly is taken at their word"""
    seed, ts, (req, prov, node, eth), how = case
    ctx.mark()
    ctx.label(*how)
    seeded(seed, ts)
    req_key, prov_key = model.pub(req), model.pub(prov)
    kwargs = {'requestor_keys': cryptography.ECCx(model.key(req)),
              'provider_keys': cryptography.ECCx(model.key(prov))}
    owner, header = req_key, None
    if 'requestor_id' in how:
        owner = model.pub(node)
        kwargs['requestor_id'] = owner.hex()
    if 'eth keys' in how:
        kwargs['ethsig__keys'] = cryptography.ECCx(model.key(eth))
    elif 'eth privkey' in how:
        kwargs['ethsig__privkey'] = model.key(eth)
        kwargs['requestor_ethereum_public_key'] = model.pub(eth).hex()
    if 'header' in how:
        header = f_header.TaskHeaderFactory(
            requestor_public_key=req_key.hex(),
            sign__privkey=model.key(req))
        kwargs['want_to_compute_task__task_header'] = header
    elif 'header owner' in how:
        kwargs['want_to_compute_task__task_header__requestor_public_key'] = \
            model.pub(node).hex()
    if 'provider_id' in how:
        kwargs['provider_id'] = model.pub(node).hex()
    msg = f_tasks.TaskToComputeFactory.with_signed_nested_messages(**kwargs)
    check_types(msg, 'TaskToCompute', 'TaskToCompute', ts)
    offer = msg.want_to_compute_task
    expect(msg.requestor_id == owner.hex(), 'requestor is %s',
           msg.requestor_id)
    expect(msg.requestor_public_key == req_key.hex(), "requestor's key")
    want = model.pub(node) if 'provider_id' in how else prov_key
    expect(msg.provider_id == want.hex(), 'provider is %s', msg.provider_id)
    expect(offer.provider_public_key == prov_key.hex(), "provider's key")
    if 'eth keys' in how or 'eth privkey' in how:
        expect(msg.requestor_ethereum_public_key == model.pub(eth).hex(),
               'the account is %s', msg.requestor_ethereum_public_key)
    expect(msg.verify_ethsig() is True, 'ethsig')
    for id_ in (msg.task_id, msg.subtask_id):
        expect(idgenerator.check_id_seed(id_, owner) is True,
               'id %s of %s', id_, owner.hex())
    if header is not None:
        expect(offer.task_header is header, 'another header')
    named = model.pub(node) if 'header owner' in how and header is None \
        else req_key
    got = offer.task_header
    expect(got.task_owner.key == named.hex(), 'the owner is %s',
           got.task_owner.key)
    expect((msg.task_id == got.task_id) is (named == owner),
           'the task is %s, in the header %s, of %s', msg.task_id,
           got.task_id, named.hex())
    expect(got.verify(req_key) is True, 'header')
    expect(offer.verify_signature(prov_key) is True, 'offer')
    expect(msg.verify_signature(req_key) is True, 'signature')
    expect(msg.verify_owners(
        requestor_public_key=req_key, provider_public_key=prov_key,
        concent_public_key=model.pub(0)) is True, 'verify_owners')
    trip(msg, req, node, ts)


def reason(cls, name):
    return lambda m, ts: m.reason is getattr(cls.REASON, name)


Settled = concents.SubtaskResultsSettled.Origin
Op = concents.FileTransferToken.Operation
Actor = concents.ForcePaymentCommitted.Actor
Reject = tasks.RejectReportComputedTask
Response = concents.ForceReportComputedTaskResponse
Premature = concents.ForceSubtaskResultsRejected
FC, FT = f_concents, f_tasks


def only(*slots):
    """Of the optional messages exactly these are there"""
    def f(m, ts):
        d = proto.TYPES[m.header.type_]
        there = {s for s, k in d.slots if k == 'msg' and
                 getattr(m, s) is not None}
        return there == set(slots)
    return f


def both(*fs):
    return lambda m, ts: all(f(m, ts) for f in fs)


NAMED = [
    ('past deadline', FT.TaskToComputeFactory.past_deadline, {},
     lambda m, ts: m.compute_task_def['deadline'] == ts - 86400),
    ('deadline', FT.TaskToComputeFactory, {},
     lambda m, ts: m.compute_task_def['deadline'] == ts + 86400),
    ('header', FT.TaskToComputeFactory, {}, lambda m, ts: (
        m.want_to_compute_task.task_header.timestamp == ts and
        m.want_to_compute_task.task_header.deadline == ts + 3600)),
    ('paid now', FT.SubtaskResultsAcceptedFactory, {},
     lambda m, ts: m.payment_ts == ts),
    ('payment now', FC.ForcePaymentCommittedFactory, {},
     lambda m, ts: m.payment_ts == ts),
    ('no ethsig', FT.TaskToComputeFactory, {
        'ethsig__disable': True},
     lambda m, ts: m.ethsig is None),
    ('acceptance timeout',
     FC.SubtaskResultsSettledFactory.origin_acceptance_timeout, {},
     lambda m, ts: m.origin is Settled.ResultsAcceptedTimeout),
    ('results rejected',
     FC.SubtaskResultsSettledFactory.origin_results_rejected, {},
     lambda m, ts: m.origin is Settled.ResultsRejected),
    ('to provider', FC.ForcePaymentCommittedFactory.to_provider, {},
     lambda m, ts: m.recipient_type is Actor.Provider),
    ('to requestor', FC.ForcePaymentCommittedFactory.to_requestor, {},
     lambda m, ts: m.recipient_type is Actor.Requestor),
    ('upload', FC.FileTransferTokenFactory, {'upload': True},
     lambda m, ts: m.operation is Op.upload and m.is_upload),
    ('download', FC.FileTransferTokenFactory, {'download': True},
     lambda m, ts: m.operation is Op.download and m.is_download),
    ('result upload', FC.ForceGetTaskResultUploadFactory, {},
     lambda m, ts: m.file_transfer_token.is_upload),
    ('result download', FC.ForceGetTaskResultDownloadFactory, {},
     lambda m, ts: m.file_transfer_token.is_download),
    ('both files', FC.AckSubtaskResultsVerifyFactory, {},
     lambda m, ts: [f['category'].value for f in m.file_transfer_token.files]
     == ['resources', 'results']),
    ('premature', FC.ForceSubtaskResultsRejectedFactory.premature, {},
     reason(Premature, 'RequestPremature')),
    ('too late', FC.ForceSubtaskResultsRejectedFactory.too_late, {},
     reason(Premature, 'RequestTooLate')),
    ('accepted', FC.ForceSubtaskResultsResponseFactory.with_accepted, {},
     only('subtask_results_accepted')),
    ('rejected', FC.ForceSubtaskResultsResponseFactory.with_rejected, {},
     only('subtask_results_rejected')),
    ('no response', FC.ForceSubtaskResultsResponseFactory, {}, only()),
    ('one accepted', FC.ForcePaymentFactory.with_accepted_tasks, {},
     lambda m, ts: len(m.subtask_results_accepted_list) == 1),
    ('three accepted', FC.ForcePaymentFactory,
     {'subtask_results_accepted_list__generate': 3},
     lambda m, ts: len(m.subtask_results_accepted_list) == 3),
    ('reject task', FT.RejectReportComputedTaskFactory.with_task_to_compute,
     {}, both(only('attached_task_to_compute'),
              reason(Reject, 'SubtaskTimeLimitExceeded'))),
    ('reject failure', FT.RejectReportComputedTaskFactory.with_task_failure,
     {}, both(only('task_failure'), reason(Reject, 'GotMessageTaskFailure'))),
    ('reject cannot',
     FT.RejectReportComputedTaskFactory.with_cannot_compute_task, {},
     both(only('cannot_compute_task'),
          reason(Reject, 'GotMessageCannotComputeTask'))),
    ('reject own reason',
     FT.RejectReportComputedTaskFactory.with_task_failure,
     {'reason': Reject.REASON.SubtaskTimeLimitExceeded},
     both(only('task_failure'), reason(Reject, 'SubtaskTimeLimitExceeded'))),
    ('reject nothing', FT.RejectReportComputedTaskFactory, {}, only()),
    ('response ack',
     FC.ForceReportComputedTaskResponseFactory.with_ack_report_computed_task,
     {}, both(only('ack_report_computed_task'),
              reason(Response, 'AckFromRequestor'))),
    ('response own reason',
     FC.ForceReportComputedTaskResponseFactory.with_ack_report_computed_task,
     {'reason': Response.REASON.SubtaskTimeout},
     both(only('ack_report_computed_task'),
          reason(Response, 'SubtaskTimeout'))),
    ('response reject', FC.ForceReportComputedTaskResponseFactory.
     with_reject_report_computed_task, {},
     both(only('reject_report_computed_task'),
          reason(Response, 'RejectFromRequestor'))),
    ('response reject own reason', FC.ForceReportComputedTaskResponseFactory.
     with_reject_report_computed_task,
     {'reason': Response.REASON.ConcentAck},
     both(only('reject_report_computed_task'),
          reason(Response, 'ConcentAck'))),
    ('verdict', FC.VerdictReportComputedTaskFactory, {}, lambda m, ts: (
        m.ack_report_computed_task.report_computed_task ==
        m.force_report_computed_task.report_computed_task)),
]


@check('F01.named')
def _(case, ctx):
    n, seed, ts = case
    ctx.mark()
    name, f, kwargs, judge = NAMED[n % len(NAMED)]
    ctx.label(name)
    seeded(seed, ts)
    msg = f(**kwargs)
    expect(judge(msg, ts), '%s: made %s', name, short(msg, 3000))
    if kwargs.get('ethsig__disable'):
        raises(factory.errors.InvalidDeclarationError, f,
               ethsig__disable=True, ethsig__privkey=model.key(1))
        return
    trip(msg, seed % 6, n % 6, ts)
    # signing comes last
    msg = f(**kwargs, sign__privkey=model.key(n % 5))
    expect(judge(msg, ts), '%s: made %s', name, short(msg, 3000))
    expect(msg.verify_signature(model.pub(n % 5)) is True, 'signature')
    trip(msg, n % 5, n % 6, ts)


# not for everybody, or not with just anything
DERIVED = {'requestor_id', 'requestor_public_key', 'ethsig',
           'requestor_ethereum_public_key', 'provider_public_key',
           'compute_task_def', 'task_header'}


@check('F01.given')
def _(case, ctx):
    """What is given is taken, and the rest is made"""
    n, seed, ts, given, how, signer = case
    name = NAMES[n % len(NAMES)]
    d = proto.BY_NAME[name]
    seeded(seed, ts)
    slots = [(s, k) for s, k in d.slots if s not in DERIVED and
             k in ('msg', 'enum', 'v', 'bool', 'int', 'nonneg', 'pos1')]
    if not slots:
        return
    if name in ('ForceSubtaskResultsResponse', 'ForcePayment',
                'FileTransferToken') and how == 'build':
        how = 'create'      # the hooks are for what is created
    kwargs = dict(NEEDS.get(name, {}))
    want = {}
    for i, value in given:
        slot, kind = slots[i % len(slots)]
        if kind == 'msg':
            cls, none, _ = d.nested[slot]
            value = factory_of(cls)(**NEEDS.get(cls, {}))
            for k in [k for k in kwargs if k.startswith(slot)]:
                del kwargs[k]
        elif kind == 'enum':
            members = list(b.enum_of(name, slot))
            value = members[i % len(members)]
        elif kind == 'bool':
            value = i % 2 == 0
        elif kind != 'v':
            value = i + 1
        want[slot] = value
    kwargs.update(want)
    f = factory_of(name)
    f = {'call': f, 'create': f.create, 'build': f.build}[how]
    if signer is not None:
        kwargs['sign__privkey'] = model.key(signer)
    ctx.mark()
    ctx.label(how, name)
    msg = f(**kwargs)
    for slot, value in want.items():
        got = getattr(msg, slot)
        expect(got is value or not isinstance(value, base.Message) and
               same(got, value), '%s.%s is %s, given was %s', name, slot,
               short(got), short(value))
    for slot, kind in d.slots:
        if kind == 'msg' and slot not in want and how != 'build':
            expect(getattr(msg, slot) is not None or d.nested[slot][1] or
                   name == 'ForcePaymentRejected', '%s has no %s', name, slot)
    if signer is None:
        expect(msg.sig is None, 'signed, though nobody asked')
    else:
        expect(msg.verify_signature(model.pub(signer)) is True, 'signature')


@check('F01.reached')
def _(case, ctx):
    """What is given for the messages within is taken there, and only there"""
    n, seed, ts, steps, k, value, signer, inner = case
    top = name = NAMES[n % len(NAMES)]
    seeded(seed, ts)
    needs = NEEDS.get(name, {})
    plain = factory_of(name)(**needs)
    path, msg = [], plain
    for step in steps:
        slots = [s for s, kind in proto.BY_NAME[name].slots if kind == 'msg'
                 and getattr(msg, s) is not None and not (
                     top == 'VerdictReportComputedTask' and
                     s == 'report_computed_task' and
                     path[:1] == ['ack_report_computed_task'])]
        if not slots:
            break
        path.append(slots[step % len(slots)])
        msg = getattr(msg, path[-1])
        name = proto.BY_NAME[name].nested[path[-1]][0]
    slots = [s for s, kind in proto.BY_NAME[name].slots if kind == 'v' and
             s not in DERIVED and s not in ('task_id', 'subtask_id')]
    if not path or not slots:
        return
    slot = slots[k % len(slots)]
    where = '__'.join(path + [slot])
    kwargs = dict(needs, **{where: value})
    if inner is not None:
        kwargs['__'.join(path + ['sign__privkey'])] = model.key(inner)
    if signer is not None:
        kwargs['sign__privkey'] = model.key(signer)
    ctx.mark()
    ctx.label(top, 'depth %d' % len(path))
    seeded(seed, ts)
    got = made = factory_of(top)(**kwargs)
    check_types(made, top, top, ts)
    for s in path:
        got = getattr(got, s)
    expect(type(got) is type(msg), '%s: %s instead of %s', where, short(got),
           short(msg))
    expect(same(getattr(got, slot), value), '%s.%s is %s, given was %s',
           top, where, short(getattr(got, slot)), short(value))
    if inner is not None:
        expect(got.verify_signature(model.pub(inner)) is True, 'signature of '
               '%s in %s', name, top)
    else:
        expect(got.sig is None, '%s in %s is signed', name, top)
    if signer is not None:
        expect(made.verify_signature(model.pub(signer)) is True, 'signature')
    else:
        expect(made.sig is None, '%s is signed, though nobody asked', top)


@check('F01.verdict')
def _(case, ctx):
    """The report in the acknowledgement differs just as was asked"""
    seed, ts, given, signer = case
    seeded(seed, ts)
    ctx.mark()
    names = [s for s, kind in proto.BY_NAME['ReportComputedTask'].slots
             if kind == 'v']
    want = {names[i % len(names)]: value for i, value in given}
    kwargs = {'arct_report_computed_task__' + k: v for k, v in want.items()}
    if signer is not None:
        kwargs['sign__privkey'] = model.key(signer)
    msg = f_concents.VerdictReportComputedTaskFactory(**kwargs)
    check_types(msg, 'VerdictReportComputedTask', 'verdict', ts)
    theirs = msg.force_report_computed_task.report_computed_task
    ours = msg.ack_report_computed_task.report_computed_task
    expect(ours is not theirs, 'one report for both')
    for name, kind in proto.BY_NAME['ReportComputedTask'].slots:
        value = want.get(name, getattr(theirs, name))
        if kind == 'msg':
            expect(getattr(ours, name) == value, 'other %s', name)
            continue
        expect(same(getattr(ours, name), value), '%s is %s, should be %s',
               name, short(getattr(ours, name)), short(value))
        if name in want:
            ctx.label('same' if same(getattr(theirs, name), value)
                      else 'other')
    if signer is not None:
        expect(msg.verify_signature(model.pub(signer)) is True, 'signature')
    if not want:
        expect(ours == theirs, 'the reports differ')


@check('F01.helpers')
def _(case, ctx):
    seed, k, ts, n = case
    ctx.mark()
    seeded(seed, ts)
    id_ = f_helpers.fake_golem_uuid(model.pub(k).hex())
    expect(idgenerator.check_id_seed(id_, model.pub(k)) is True,
           'id %s of key %s', id_, model.pub(k).hex())
    for text in ('00' + model.pub(k).hex()[2:],
                 '0' * (n % 13) + model.pub(k).hex(),
                 'ff' * (n % 7) + '00' * 10):
        node = int(text[:12], 16)
        id_ = f_helpers.fake_golem_uuid(text + '0' * (len(text) % 2))
        expect(uuid.UUID(id_).node == node, 'id %s of %s', id_, text)
    version = f_helpers.fake_version()
    expect(re.fullmatch(r'(0|[1-9]\d*)(\.(0|[1-9]\d*)){2}', version),
           'version %s', short(version))
    key = f_helpers.random_eth_pub_key()
    expect(re.fullmatch('[0-9a-f]{128}', key), 'key %s', short(key))
    address = f_helpers.random_eth_address()
    expect(model.checksum_address(bytes.fromhex(address[2:])) == address,
           'address %s', short(address))
    name = NAMES[n % len(NAMES)]
    ctx.label(name)
    msg = factory_of(name)(
        sign__privkey=model.key(k), **NEEDS.get(name, {}))
    copy = f_helpers.clone_message(msg)
    expect(copy is not msg and type(copy) is type(msg), 'clone %s',
           short(copy))
    expect(copy == msg, 'the clone differs: %s, %s', short(copy, 1000),
           short(msg, 1000))
    before = msg.slots()
    if n % 2:
        msg.header = datastructures.MessageHeader(
            msg.header.type_, msg.header.timestamp, True)
        copy = f_helpers.clone_message(msg)
        expect(copy.header == msg.header and copy.encrypted is True,
               'header of the clone is %s', copy.header)
        ctx.label('came encrypted')
    for other in (0, 1, 2**32, 2**64 - 1, ts + 1 + seed):
        f_helpers.override_timestamp(msg, other)
        expect(msg.timestamp == other and msg.header.timestamp == other,
               'timestamp is %s, not %s', msg.timestamp, other)
    expect(msg.header.type_ == copy.header.type_ and
           msg.header.encrypted == copy.header.encrypted, 'header is %s',
           msg.header)
    expect(same(msg.sig, copy.sig), 'the signature changed')
    expect(msg.slots() == before, 'the slots changed')
    expect(copy.timestamp == ts, 'the clone changed')
    header = f_header.TaskHeaderFactory(
        requestor_public_key=model.pub(k).hex(), sign__privkey=model.key(k))
    expect(header.verify(model.pub(k)) is True, 'header')
    expect(header.task_owner.key == model.pub(k).hex(), 'owner')
    expect(header.timestamp == ts and header.deadline == ts + 3600,
           'times of the header')
    node = f_node.Node()
    expect(node.key and node.node_name, 'node %s', short(node.to_dict()))

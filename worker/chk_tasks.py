"""Oracles for the messages about tasks."""
import copy
import re
import uuid

from coincurve import PublicKey

from golem_messages import datastructures as dt
from golem_messages import exceptions
from golem_messages import message
from golem_messages import shortcuts
from golem_messages.datastructures import masking
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import promissory
from golem_messages.datastructures import tasks as dt_tasks

import build as b
import model
import proto
import refcbor
from chk_core import NODE_RULES, is_int
from chk_wire import HEAD, load, nested_of, try_load
from lib import check, clock, expect, fail, raises, same, short

MessageError = exceptions.MessageError
FieldError = exceptions.FieldError
InvalidSignature = exceptions.InvalidSignature
ValidationError = exceptions.ValidationError


def is_task(spec):
    return proto.BY_NAME[spec['c']].owners is not None


def children(spec):
    """(slot, nested task message) in the order of slots"""
    d = proto.BY_NAME[spec['c']]
    for slot, kind in d.slots:
        value = spec['s'].get(slot)
        if kind == 'msg' and value is not None and is_task(value):
            yield slot, value


def chain_of(spec, path=()):
    """(path, spec) of the task messages, the outermost first"""
    yield path, spec
    for slot, value in children(spec):
        yield from chain_of(value, path + (slot,))


def at(msg, path):
    for p in path:
        msg = getattr(msg, p)
    return msg


def lookup(spec, attr):
    """What the accessors give, from the spec alone"""
    if spec['c'] == 'TaskToCompute':
        if attr == 'task_to_compute':
            return spec
        if attr in ('task_id', 'subtask_id'):
            ctd = spec['s'].get('compute_task_def')
            if not ctd:
                return None
            return model.with_defaults(model.resolve(ctd), model.CTD)[attr]
        return model.resolve(spec['s'].get(attr))
    for slot in proto.BY_NAME[spec['c']].chain:
        inner = spec['s'].get(slot)
        if inner is not None:
            value = lookup(inner, attr)
            if value:
                return value
    return None


def party(ttc, who):
    """Public key of a role, in bytes"""
    if who == 'provider':
        text = ttc['s']['want_to_compute_task']['s']['provider_public_key']
    else:
        text = ttc['s'][who + '_public_key']
    return bytes.fromhex(model.resolve(text))


def signed_by_key(sig, digest, pub):
    if not isinstance(sig, bytes) or len(sig) != 65:
        return False
    try:
        point = PublicKey.from_signature_and_message(
            sig, model.sha3(digest), hasher=None)
    except Exception:
        return False
    return point.format(compressed=False)[1:] == pub


def owner_ok(spec, concent):
    """One of the expected parties signed this very message"""
    ttc = lookup(spec, 'task_to_compute')
    digest, sig = model.spec_hash(spec), model.spec_sig(spec)
    for who in proto.BY_NAME[spec['c']].owners:
        pub = concent if who == 'concent' else party(ttc, who)
        if signed_by_key(sig, digest, pub):
            break
    else:
        return False
    return header_ok(spec)


def header_ok(spec):
    if spec['c'] != 'TaskToCompute':
        return True
    header = spec['s']['want_to_compute_task']['s']['task_header']
    wire = model.header_wire(header)
    return signed_by_key(wire['signature'], model.header_hash(wire),
                         party(spec, 'requestor'))


def freeze(spec):
    spec['sig'] = model.spec_sig(spec)


def mutate(spec, n, how, arg, value):
    """Breaks (or not) one message of the chain; the others stay signed"""
    nodes = list(chain_of(spec))
    path, node = nodes[n % len(nodes)]
    if how == 'resign':
        node['sig'] = ('k', arg)
    elif how == 'fake':
        node['sig'] = 'fake'
    elif how == 'none':
        node['sig'] = None
    elif how == 'flip':
        freeze(node)
        if isinstance(node['sig'], bytes) and len(node['sig']) == 65:
            i = arg * 11 % 64
            node['sig'] = node['sig'][:i] + bytes(
                [node['sig'][i] ^ 1]) + node['sig'][i + 1:]
    elif how == 'stale ts':
        freeze(node)
        node['ts'] += 1 + arg
        if node['c'] == 'SubtaskResultsAccepted':
            node['s']['payment_ts'] = node['ts']
    elif how == 'stale':
        freeze(node)
        d = proto.BY_NAME[node['c']]
        free = [s for s, k in d.slots if k == 'v' and s not in (
            'ethsig', 'payment_ts') and not s.endswith('_key') and
            not s.endswith('_id')]
        if free:
            node['s'][free[arg % len(free)]] = value
        else:
            node['ts'] += 1
    elif how == 'other sig':
        # a valid one, of another message of the chain
        node['sig'] = model.spec_sig(nodes[arg % len(nodes)][1])
    elif how == 'twin':
        # a valid one, of a message that comes earlier but isn't around it
        pairs = [(a, z) for i, a in enumerate(nodes) for z in nodes[i + 1:]
                 if z[0][:len(a[0])] != a[0]]
        if not pairs:
            return None
        (_, source), (path, node) = pairs[arg % len(pairs)]
        node['sig'] = model.spec_sig(source)
    elif how in ('header', 'header stale', 'header none', 'role', 'offer'):
        # the offers that the chain is about
        ttcs = [s for _, s in nodes if s['c'] == 'TaskToCompute']
        if not ttcs:
            return None
        node = ttcs[n % len(ttcs)]
        wtct = node['s']['want_to_compute_task']
        header = wtct['s']['task_header']
        if how == 'header':
            header['sig'] = ('k', arg)
        elif how == 'header none':
            header['sig'] = None
        elif how == 'header stale':
            header['sig'] = model.header_wire(header)['signature']
            header['kw']['subtasks_count'] += 1
        elif how == 'role':
            if arg % 2:
                node['s']['requestor_public_key'] = ('pub', arg)
            else:
                wtct['s']['provider_public_key'] = ('pub', arg)
        else:
            wtct['sig'] = ('k', arg)    # the offer's own is not looked at
    return path


# T01

@check('T01.chain')
def _(case, ctx):
    spec, changes, concent, keys, loaded = case
    spec = copy.deepcopy(spec)
    ctx.label(spec['c'])
    for change in changes:
        mutate(spec, *change)
        ctx.label(change[1])
    ttc = lookup(spec, 'task_to_compute')
    if any(lookup(s, 'task_to_compute') is None for _, s in chain_of(spec)):
        ctx.label('no offer')
        return
    msg = b.build(spec)
    if loaded:
        got = try_load(model.wire(spec))
        if got is None:
            ctx.label('not loaded')
        else:
            msg = got
            if spec['sig'] is None:
                spec['sig'] = 'fake'
    conc = model.pub(concent)
    bad = [s for _, s in chain_of(spec) if not owner_ok(s, conc)]
    want = {}
    for who, k in zip(('provider', 'requestor'), keys):
        actual = party(ttc, who)
        if k == 'right':
            want[who] = actual
        elif isinstance(k, tuple):
            # resembles the right one
            how, i = k
            want[who] = {
                'cut': actual[:64 - i], 'long': actual + b'\0' * i,
                'end': actual[i:], 'twice': actual * 2,
                'front': b'\0' * i + actual,
                'bit': actual[:i] + bytes([actual[i] ^ 0x20]) +
                actual[i + 1:], 'other case': actual.swapcase()}[how]
        elif k is not None:
            want[who] = model.pub(k)
    mismatch = any(v != party(ttc, w) for w, v in want.items())
    kwargs = {w + '_public_key': v for w, v in want.items()}
    kwargs['concent_public_key'] = conc
    if len(list(chain_of(spec))) > 1:
        ctx.mark()
    own = owner_ok(spec, conc)
    if own:
        expect(msg.validate_ownership(concent_public_key=conc) is True,
               'validate_ownership')
    else:
        raises(InvalidSignature, msg.validate_ownership,
               concent_public_key=conc)
    if mismatch:
        ctx.label('role mismatch')
        raises((exceptions.OwnershipMismatch, InvalidSignature) if bad else
               exceptions.OwnershipMismatch, msg.verify_owners, **kwargs)
    elif bad:
        ctx.label('forged')
        raises(InvalidSignature, msg.verify_owners, **kwargs)
    else:
        ctx.label('genuine')
        expect(msg.verify_owners(**kwargs) is True, 'verify_owners')
    if bad:
        e = raises(InvalidSignature, msg.validate_ownership_chain,
                   concent_public_key=conc)
        culprit = getattr(e, 'message', None)
        if culprit is not None and not isinstance(culprit, str):
            ctx.label('culprit named')
            expect(any(type(culprit) is b.klass(s['c']) and
                       culprit.timestamp == s['ts'] and
                       same(culprit.sig, model.spec_sig(s)) for s in bad),
                   'blames %s', short(culprit))
    else:
        expect(msg.validate_ownership_chain(concent_public_key=conc) is True,
               'validate_ownership_chain')
    without_concent(msg, spec, ctx)


def without_concent(msg, spec, ctx):
    """Nobody says which key the Concent has"""
    involved = any('concent' in proto.BY_NAME[s['c']].owners
                   for _, s in chain_of(spec))
    bad = [s for _, s in chain_of(spec) if not owner_ok(s, None)]
    own = not owner_ok(spec, None)
    for wrong, verify in ((own, msg.validate_ownership),
                          (bad, msg.validate_ownership_chain),
                          (bad, msg.verify_owners)):
        if wrong:
            ctx.label('no key of the Concent')
            # in which way depends on whether one was needed
            raises(Exception if involved else InvalidSignature, verify)
        elif not involved:
            expect(verify() is True, '%s without a key', verify.__name__)


# T02

ATTRS = ('task_id', 'subtask_id', 'task_to_compute', 'provider_id',
         'requestor_id')


@check('T02.order')
@check('T02.last')
@check('T02.accessors')
def _(case, ctx):
    spec, drop, loaded = case
    spec = copy.deepcopy(spec)
    ctx.label(spec['c'])
    nodes = list(chain_of(spec))
    for _, node in nodes:
        # they can't be made without ids
        for slot, kind in proto.BY_NAME[node['c']].slots:
            if kind == 'psig':
                node['s'][slot] = None
    for n, what, value in drop:
        path, node = nodes[n % len(nodes)]
        if what == 'first':
            # only the last of the messages to look at knows
            slots = [s for s in proto.BY_NAME[spec['c']].chain
                     if spec['s'].get(s) is not None]
            for slot in slots[:max(1, len(slots) - 1 - value % 2)]:
                for _, inner in chain_of(spec['s'][slot]):
                    if inner['c'] == 'TaskToCompute':
                        inner['s']['compute_task_def'] = None
            ctx.label('the last of %d' % len(slots))
            continue
        ttcs = [s for _, s in nodes if s['c'] == 'TaskToCompute']
        if what == 'slot':
            # an optional message is not there
            d = proto.BY_NAME[node['c']]
            names = [s for s, _ in children(node) if d.nested[s][1]]
            if names:
                node['s'][names[value % len(names)]] = None
        elif ttcs:
            node = ttcs[n % len(ttcs)]
            if what == 'ctd':
                node['s']['compute_task_def'] = None
            elif what in ('task_id', 'subtask_id'):
                ctd = node['s']['compute_task_def']
                if ctd:
                    ctd[what] = ['', 'x', 'abc'][value % 3]
            else:
                node['s'][what] = [None, '', 'abc', ('pub', 5)][value % 4]
    spec['sig'] = 'fake'
    msg = b.build(spec)
    if loaded and not any(w in ('ctd', 'first') for _, w, _ in drop):
        got = try_load(model.wire(spec))
        if got is not None:
            ctx.label('loaded')
            msg = got
    for path, node in chain_of(spec):
        if path:
            ctx.mark()
        m = at(msg, path)
        for attr in ATTRS:
            want, got = lookup(node, attr), getattr(m, attr)
            what = '%s.%s' % ('.'.join(('message',) + path), attr)
            if attr == 'task_to_compute' and want is not None:
                expect(got is not None, '%s is None', what)
                if any(w in ('ctd', 'first') for _, w, _ in drop):
                    continue
                b.check_nested(got, model.nested_wire(want), 'TaskToCompute',
                               what)
                continue
            expect(same(got, want), '%s is %s, should be %s', what,
                   short(got), short(want))
        if node['c'] == 'TaskToCompute':
            wtct = node['s']['want_to_compute_task']
            for attr in ('provider_public_key', 'provider_ethereum_address'):
                want = model.resolve(wtct['s'].get(attr))
                expect(same(getattr(m, attr), want), '%s is %s, should be %s',
                       attr, short(getattr(m, attr)), short(want))
            eth = model.resolve(node['s']['requestor_ethereum_public_key'])
            want = model.checksum_address(
                model.keccak(bytes.fromhex(eth))[12:])
            expect(m.requestor_ethereum_address == want,
                   'requestor_ethereum_address is %s, should be %s',
                   m.requestor_ethereum_address, want)
            header = wtct['s'].get('task_header')
            if header is not None:
                got = m.want_to_compute_task.task_id
                expect(got == header['kw']['task_id'],
                       'want_to_compute_task.task_id is %s', short(got))


# T03

def uuid_node(text):
    """The last 48 bits of an id, None if it is none"""
    try:
        return uuid.UUID(text).int & (1 << 48) - 1
    except (ValueError, AttributeError, TypeError):
        return None


def reshape(text, how):
    """The same id, written another way"""
    if len(text) < 13:
        return text
    return {
        'upper': text.upper(), 'bare': text.replace('-', ''),
        'braces': '{%s}' % text, 'urn': 'urn:uuid:' + text,
        'short': text[:-1], 'long': text + '0', 'empty': '',
        'letter': 'g' + text[1:], 'node': text[-12:], 'same': text,
        'last': text[:-1] + ('0' if text[-1] != '0' else '1'),
        'first node': text[:-12] + (
            '0' if text[-12] != '0' else '1') + text[-11:],
        'other time': '0' + text[1:], 'space': text + ' ',
    }[how]


@check('T03.offer')
def _(case, ctx):
    spec, changes, signer, before = case
    spec = copy.deepcopy(spec)
    s = spec['s']
    s['promissory_note_sig'] = s['concent_promissory_note_sig'] = None
    wtct = s['want_to_compute_task']
    if before and try_load(model.wire(dict(spec, sig=('k', signer)))):
        # the one it was made of
        ctx.label('accepted before')
    if changes:
        ctx.mark()
    for what, arg, value in changes:
        ctx.label(what)
        ctd = s['compute_task_def']
        if what in ('task_id', 'subtask_id'):
            if isinstance(arg, str):
                ctd[what] = reshape(model.resolve(ctd[what]), arg)
            else:
                ctd[what] = ('uuid', arg, value if is_int(value) else 1)
        elif what == 'requestor_id':
            s['requestor_id'] = ('pub', arg)
        elif what == 'prefix id':
            # shares the first bytes only
            text = model.resolve(s['requestor_id'])
            i = arg * 5 % 24
            text = text[:i] + ('0' if text[i] != '0' else '1') + text[i + 1:]
            s['requestor_id'] = text
        elif what == 'ethsig':
            s['ethsig'] = ('ethsig', arg)
        elif what == 'ethsig junk':
            s['ethsig'] = [None, b'', model.FAKE, b'\1' * 65, b'\1' * 64,
                           b'\xff' * 66][arg % 6]
        elif what == 'eth key':
            s['requestor_ethereum_public_key'] = ('pub', arg)
        elif what == 'offer':
            # the offer is altered after it was signed for
            s['ethsig'] = model.sign(
                s['ethsig'][1] if isinstance(s['ethsig'], tuple) else 0,
                model.spec_hash(wtct))
            if arg % 2:
                wtct['ts'] += 1 + arg
            else:
                name = ['perf_index', 'price', 'extra_data', 'num_subtasks',
                        'max_memory_size', 'concent_enabled'][arg]
                wtct['s'][name] = arg + 3
        elif what == 'offer sig':
            wtct['sig'] = ('k', arg)
        elif what == 'ttc':
            s['package_hash'] = value
    spec['sig'] = ('k', signer)
    data = model.wire(spec)
    eth = bytes.fromhex(model.resolve(s['requestor_ethereum_public_key']))
    ethsig = dict(model.slots_wire(spec))['ethsig']
    eth_ok = signed_by_key(ethsig, model.spec_hash(wtct), eth)
    want = int.from_bytes(
        bytes.fromhex(model.resolve(s['requestor_id']))[:6], 'big')
    ctd = model.resolve(s['compute_task_def'])
    bad_ids = [k for k in ('task_id', 'subtask_id')
               if uuid_node(ctd[k]) != want]
    if eth_ok and not bad_ids:
        ctx.label('accepted')
        got = load(data, signer)
        b.check_message(got, spec, data[11:HEAD])
        expect(got.verify_ethsig() is True, 'verify_ethsig')
        got.validate_taskid()
        return
    ctx.label('refused')
    e = raises(FieldError if eth_ok else (InvalidSignature, FieldError)
               if bad_ids else InvalidSignature, load, data, signer)
    if isinstance(e, FieldError):
        expect(e.field in bad_ids, 'blames %s instead of %s', e.field,
               bad_ids)
    # the same on what was built here
    msg = b.build(spec)
    if eth_ok:
        expect(msg.verify_ethsig() is True, 'verify_ethsig')
    else:
        raises(InvalidSignature, msg.verify_ethsig)
    if bad_ids:
        raises(FieldError, msg.validate_taskid)
    else:
        msg.validate_taskid()


@check('T03.sign')
def _(case, ctx):
    spec, key, eth, given = case
    spec = copy.deepcopy(spec)
    ctx.mark()
    s = spec['s']
    s['requestor_ethereum_public_key'] = ('pub', eth)
    s['ethsig'] = None
    spec['sig'] = None
    msg = b.build(spec)
    digest = model.spec_hash(s['want_to_compute_task'])
    before = msg.want_to_compute_task.sig
    if given:
        msg.generate_ethsig(model.key(key), digest)
    else:
        msg.generate_ethsig(model.key(key))
    expect(msg.ethsig == model.sign(key, digest), 'ethsig is %s',
           short(msg.ethsig))
    expect(same(msg.want_to_compute_task.sig, before),
           "the offer's own signature was replaced")
    if key == eth:
        expect(msg.verify_ethsig() is True, 'verify_ethsig')
        ctx.label('right key')
    else:
        raises(InvalidSignature, msg.verify_ethsig)
    msg.ethsig = None
    for nothing in (None, ''):
        msg.requestor_ethereum_public_key = nothing
        e = raises(FieldError, msg.generate_ethsig, model.key(key))
        expect(e.field == 'requestor_ethereum_public_key',
               'the error names %s', e.field)
        expect(msg.ethsig is None, 'signed nevertheless')


# T04

def ttc_of(spec):
    return lookup(spec, 'task_to_compute')


SIGNERS = {
    'provider': ('promissory_note_sig', 'sign_promissory_note',
                 'verify_promissory_note'),
    'concent': ('concent_promissory_note_sig', 'sign_concent_promissory_note',
                'verify_concent_promissory_note'),
}


@check('T04.note')
def _(case, ctx):
    spec, which, signer, contract, check_with, change, travel = case
    spec = copy.deepcopy(spec)
    name = spec['c']
    if name == 'SubtaskResultsVerify':
        which = 'concent'
    ctx.label(name, which, change[0])
    slot, sign, verify = SIGNERS[which]
    ttc = ttc_of(spec)
    values = ttc['s']
    eth = int(values['requestor_ethereum_public_key'][1])
    # the provider's account is that of its key
    rightful = eth if name == 'TaskToCompute' else \
        values['want_to_compute_task']['s']['provider_ethereum_address'][1]
    key = rightful if signer is None else signer
    spec['sig'] = None
    address = model.resolve(contract)
    for s in [p[0] for p in SIGNERS.values()]:
        if s in proto.BY_NAME[name].kinds:
            spec['s'][s] = None
    msg = b.build(spec)
    expect(getattr(msg, verify)(deposit_contract_address=address) is False,
           'verifies with no signature')
    want = model.note_sig(spec, slot, ('note', key, contract))
    got = getattr(msg, sign)(deposit_contract_address=address,
                             private_key=model.key(key))
    expect(got is None, 'signing gives %s', short(got))
    sig = getattr(msg, slot)
    expect(same(list(sig), want), 'signature is %s, should be %s', short(sig),
           short(want))
    others = [p[0] for p in SIGNERS.values() if p[0] != slot]
    for s in others:
        if s in proto.BY_NAME[name].kinds:
            expect(getattr(msg, s) is None, '%s was set too', s)
    spec['s'][slot] = want
    if travel:
        data = msg.serialize(sign_as=model.key(0))
        loaded = try_load(data)
        if loaded is not None:
            ctx.label('travelled')
            msg = loaded
            expect(same(list(getattr(msg, slot)), want),
                   'received as %s', short(getattr(msg, slot)))
    # what it is checked against
    what, arg, value = change
    node = msg.task_to_compute
    changed = check_with != contract
    address = model.resolve(check_with)
    changed_note = False
    if what == 'price':
        new = min(2**256 - 1, max(0, value if is_int(value) else arg))
        changed_note = new != node.price
        node.price = new
    elif what == 'subtask':
        ctd = dict(node.compute_task_def)
        new = model.resolve(('uuid', arg, arg))
        changed_note = new != ctd['subtask_id']
        ctd['subtask_id'] = new
        node.compute_task_def = message.tasks.ComputeTaskDef(ctd)
    elif what == 'provider':
        new = model.address(arg)
        old = node.want_to_compute_task.provider_ethereum_address
        node.want_to_compute_task.provider_ethereum_address = new
        changed_note = new != old and (
            which == 'provider' or name == 'SubtaskResultsVerify')
    elif what == 'requestor':
        new = model.pub(arg).hex()
        changed_note = new != node.requestor_ethereum_public_key and \
            name == 'TaskToCompute'
        node.requestor_ethereum_public_key = new
    elif what == 'task':
        # not a part of the note
        ctd = dict(node.compute_task_def, task_id='other')
        node.compute_task_def = message.tasks.ComputeTaskDef(ctd)
        node.package_hash = 'other'
    elif what == 'sig':
        bad = list(want)
        i = 1 + arg % 2
        at_ = arg * 7 % 32
        bad[i] = bad[i][:at_] + bytes([bad[i][at_] ^ (1 << arg % 8)]) + \
            bad[i][at_ + 1:]
        setattr(msg, slot, bad)
        changed_note = True
    elif what == 'v':
        v = want[0]
        v = (55 - v, v + 2, v + 4, v + 6, 26, v - 20)[arg % 6]
        setattr(msg, slot, [v, want[1], want[2]])
        changed_note = True
    elif what == 'as tuple':
        setattr(msg, slot, tuple(want))
    elif what == 'crossed' and name == 'TaskToCompute':
        # that of the other note
        other = 'concent' if which == 'provider' else 'provider'
        o_slot, _, verify = SIGNERS[other]
        setattr(msg, o_slot, want)
        provider = node.provider_ethereum_address
        changed_note = provider != model.resolve(contract)
        changed = check_with != contract
    ok = key == rightful and not changed and not changed_note
    if changed and not changed_note and what != 'crossed' and \
            model.resolve(check_with) == model.resolve(contract):
        ok = key == rightful
    ctx.mark()
    if what in ('provider', 'requestor') and not changed and \
            name == ('TaskToCompute' if what == 'requestor' else
                     'SubtaskResultsVerify'):
        # whoever signed may be the one named now
        ok = not changed_note and key == rightful
    try:
        got = getattr(msg, verify)(deposit_contract_address=address)
    except Exception as e:
        if what in ('sig', 'v'):
            return      # not taken for valid, which is all that is promised
        fail('verification raises %r', e)
    expect(got is ok, 'the note verifies: %s, should be %s', got, ok)
    ctx.label('valid' if ok else 'invalid')


@check('T04.all')
def _(case, ctx):
    spec, key, contract, spoil = case
    spec = copy.deepcopy(spec)
    ctx.mark()
    eth = spec['s']['requestor_ethereum_public_key'][1]
    address = model.resolve(contract)
    for s, _, _ in SIGNERS.values():
        spec['s'][s] = None
    msg = b.build(spec)
    kw = {'deposit_contract_address': address}
    expect(msg.verify_all_promissory_notes(**kw) is False,
           'verifies with no signatures')
    msg.sign_all_promissory_notes(private_key=model.key(key), **kw)
    for s, _, _ in SIGNERS.values():
        want = model.note_sig(spec, s, ('note', key, contract))
        expect(same(list(getattr(msg, s)), want), '%s is %s, should be %s', s,
               short(getattr(msg, s)), short(want))
    if spoil == 'none':
        ok = key == eth
    else:
        how, which = spoil.rsplit(' ', 1)
        slot = SIGNERS[which][0]
        ok = False
        if how == 'missing':
            setattr(msg, slot, None)
        elif how == 'crossed':
            # that of the other one
            other = [s for s, _, _ in SIGNERS.values() if s != slot][0]
            setattr(msg, slot, getattr(msg, other))
            ok = key == eth and msg.provider_ethereum_address == address
        else:
            # by somebody else
            name = SIGNERS[which][1]
            getattr(msg, name)(private_key=model.key(eth + 1), **kw)
    ctx.label('valid' if ok else 'invalid')
    expect(msg.verify_all_promissory_notes(**kw) is ok,
           'verify_all_promissory_notes is not %s', ok)


@check('T04.direct')
def _(case, ctx):
    key, owner, to, amount, n, contract, size, change = case
    ctx.mark()
    subtask = model.seeded_uuid(0, n)
    args = {'address_from': model.address(owner), 'address_to':
            model.resolve(to), 'amount': amount, 'subtask_id': subtask,
            'contract_address': model.resolve(contract)}
    note = promissory.PromissoryNote(**args)
    text = model.note_message(args['contract_address'], args['address_from'],
                              args['address_to'], amount, subtask)
    digest = model.eth_hash(text)
    expect(bytes(note.hash) == digest, 'hash is %s', bytes(note.hash).hex())
    want = model.eth_sign(key, digest)
    sig = note.sign(model.key(key))
    expect(same(list(sig), want), 'signs with %s', short(sig))
    for form in (sig, tuple(sig), list(sig)):
        expect(note.sig_valid(form) is (key == owner), 'sig_valid')
    for nothing in (None, (), []):
        expect(note.sig_valid(nothing) is False, 'no signature is valid')
    if size != 3:
        raises(TypeError, note.sig_valid, (list(want) * 3)[:size or 4])
    if change is not None:
        # a note says what it says now, not what it said before
        field, value = change
        value = model.resolve(value)
        if field == 'subtask_id':
            value = model.seeded_uuid(1, value)
        if value != args[field]:
            other = promissory.PromissoryNote(**dict(args, **{field: value}))
            if field == 'address_from':
                ok = False
            else:
                ok = False
            expect(other.sig_valid(sig) is ok,
                   'the signature holds for another %s', field)
            setattr(note, field, value)
            expect(note.sig_valid(sig) is ok,
                   'the signature holds for the note with %s altered', field)
            again = model.note_message(
                note.contract_address, note.address_from, note.address_to,
                note.amount, note.subtask_id)
            expect(bytes(note.hash) == model.eth_hash(again),
                   'with %s altered the hash is %s', field,
                   bytes(note.hash).hex())
            expect(same(list(note.sign(model.key(key))), model.eth_sign(
                key, model.eth_hash(again))),
                'with %s altered it is signed otherwise', field)


# T05

def arrives(spec, way, ok, *errors):
    """The message is received, encrypted or not, of a known sender or not,
    and accepted or refused"""
    crypt, known, k, j = way
    if not (crypt or known):
        if ok:
            b.check_message(load(model.wire(spec)), spec, model.FAKE)
        else:
            raises(errors, load, model.wire(spec))
        return
    d = proto.BY_NAME[spec['c']]
    sig = 'fake'
    msg = b.build(dict(spec, sig=None if known else sig))
    data = shortcuts.dump(msg, model.key(k) if known else None,
                          model.pub(j) if crypt else None)
    how = dict(pubkey=model.pub(k) if known else None,
               check_time=False)
    if not ok:
        raises(errors, shortcuts.load, data, model.key(j), **how)
        return
    if known and d.sign:
        sig = ('k', k)
    spec = dict(spec, sig=sig)
    b.check_message(shortcuts.load(data, model.key(j), **how), spec,
                    model.spec_sig(spec), encrypted=bool(crypt and d.enc))


@check('T05.accepted')
def _(case, ctx):
    spec, delta, ts, way = case
    spec = copy.deepcopy(spec)
    if isinstance(delta, tuple):
        delta = ts - delta[1]
    spec['ts'] = ts
    spec['s']['payment_ts'] = ts - delta
    spec['sig'] = 'fake'
    ctx.mark()
    msg = b.build(spec)
    if 0 <= delta <= 900:
        ctx.label('valid')
        expect(msg.is_valid() is True, 'is_valid')
    else:
        ctx.label('invalid')
        raises(ValidationError, msg.is_valid)
    arrives(spec, way, 0 <= delta <= 900, ValidationError)


REASONS = dict(proto.BY_NAME['SubtaskResultsRejected'].enums['reason'])
ALLOWED = {True: ('VerificationNegative', 'ForcedResourcesFailure'),
           False: ('VerificationNegative', 'ResourcesFailure')}


@check('T05.rejected')
def _(case, ctx):
    spec, reason, failed, change, concent, way = case
    spec, failed = copy.deepcopy(spec), copy.deepcopy(failed)
    ctx.label(str(reason))
    ctx.mark()
    s = spec['s']
    own = s['report_computed_task']['s']['task_to_compute']
    own['s']['concent_enabled'] = concent
    s['reason'] = None if reason is None else REASONS[reason]
    s['force_get_task_result_failed'] = failed
    if failed is not None:
        failed['s']['task_to_compute'] = copy.deepcopy(own)
        ctd = failed['s']['task_to_compute']['s']['compute_task_def']
        for what, n in change:
            if what == 'swap':
                if {'task_id', 'subtask_id'} <= set(ctd):
                    ctd['task_id'], ctd['subtask_id'] = (
                        ctd['subtask_id'], ctd['task_id'])
            elif n is None:
                if what != 'deadline':
                    ctd[what] = ''      # it does not say
                    for slot, kind in proto.BY_NAME['TaskToCompute'].slots:
                        if kind == 'psig':
                            failed['s']['task_to_compute']['s'][slot] = None
            elif what in ctd:
                ctd[what] = ('uuid', own['s']['requestor_id'][1], n)
    spec['sig'] = 'fake'
    msg = b.build(spec)
    ok = reason is not None and (
        failed is not None or reason != 'ForcedResourcesFailure')
    if failed is not None:
        for what in ('task_id', 'subtask_id'):
            ok = ok and lookup(failed, what) == lookup(spec, what)
    ctx.label('valid' if ok else 'invalid', 'failed result'
              if failed is not None else 'no failed result')
    if ok:
        expect(msg.is_valid() is True, 'is_valid')
    else:
        raises(ValidationError, msg.is_valid)
    arrives(spec, way, ok, MessageError if any(n is None for _, n in change)
            else ValidationError)
    if reason is None:
        try:
            msg.is_valid_for_requestor()
        except Exception:
            return
        fail('no reason is a valid reason for a requestor')
    if ok and reason in ALLOWED[bool(concent)]:
        ctx.label('allowed')
        expect(msg.is_valid_for_requestor() is True,
               'is_valid_for_requestor')
    else:
        raises(ValidationError, msg.is_valid_for_requestor)


@check('T05.verdict')
def _(case, ctx):
    spec, change, way = case
    spec = copy.deepcopy(spec)
    ctx.mark()
    ack = spec['s']['ack_report_computed_task']
    mine = ack['s']['report_computed_task']['s']
    mine['task_to_compute'] = copy.deepcopy(
        spec['s']['force_report_computed_task']['s']['report_computed_task']
        ['s']['task_to_compute'])
    ttc = mine['task_to_compute']
    before = model.nested_wire(ttc)
    if change is not None:
        where, value = change
        if where == 'ts':
            ttc['ts'] += 1
        elif where == 'sig':
            ttc['sig'] = ('k', value)
        elif where == 'task_id':
            ttc['s']['compute_task_def']['task_id'] = ('uuid', 0, value)
        elif where == 'offer':
            ttc['s']['want_to_compute_task']['ts'] += 1
        elif where == 'offer sig':
            ttc['s']['want_to_compute_task']['sig'] = ('k', value)
        else:
            if value % 3:
                # the signatures do not tell
                ttc['sig'] = model.spec_sig(ttc)
                other = (spec['s']['force_report_computed_task']['s']
                         ['report_computed_task']['s']['task_to_compute'])
                other['sig'] = ttc['sig']
                if value % 3 == 2:
                    ttc['sig'] = other['sig'] = None
                before = model.nested_wire(ttc)
            ttc['s'][where] = value
    if change is not None and change[0] == 'report':
        # the rest of the report may differ
        mine['secret'] = 'x'
    spec['sig'] = 'fake'
    msg = b.build(spec)
    if same(model.nested_wire(ttc), before):
        ctx.label('valid')
        expect(msg.is_valid() is True, 'is_valid')
        arrives(spec, way, True)
    elif model.nested_wire(ttc) == before:
        ctx.label('equal in a way')
    else:
        ctx.label('invalid')
        raises(ValidationError, msg.is_valid)
        arrives(spec, way, False, ValidationError)


@check('T05.others')
def _(case, ctx):
    """No other message has rules about its content"""
    spec = case
    spec = dict(spec, sig='fake')
    ctx.label(spec['c'])
    if spec['c'] in ('SubtaskResultsAccepted', 'SubtaskResultsRejected',
                     'VerdictReportComputedTask'):
        return
    ctx.mark()
    expect(b.build(spec).is_valid() is True, 'is_valid')


# T06

def text128(v):
    return isinstance(v, str) and len(v) <= 128


HEADER_RULES = {
    'mask': lambda v: isinstance(v, bytes) and len(v) == 32,
    'timestamp': is_int, 'signature': lambda v: isinstance(v, bytes),
    'task_id': text128, 'deadline': is_int,
    'subtask_timeout': lambda v: is_int(v) and v >= 0,
    'market_type': lambda v: isinstance(v, str) and v in ('Brass', 'Usage'),
    'environment': text128,
    'environment_prerequisites': lambda v: isinstance(v, dict),
    'estimated_memory': is_int, 'max_price': is_int, 'subtask_budget': is_int,
    'subtasks_count': lambda v: is_int(v) and v >= 1,
    'concent_enabled': lambda v: isinstance(v, bool),
}
REQUIRED = ('task_id', 'task_owner', 'subtasks_count', 'min_version',
            'timestamp')


BLANK = [' ', '\n', '\t', '\0', '\u00a0', '\r\n', '\x0b']


def nearly(value, how, n):
    """Something that looks much like the value, but is not the same"""
    blank = BLANK[n % len(BLANK)]
    if how == 'wrap':
        return [[value], {'value': value}, [[value]], {}][n % 4]
    if how == 'empty':
        return [0, '', b'', [], {}, False, 0.0][n % 7]
    if isinstance(value, str):
        if how == 'type':
            return [value.encode(errors='replace'), [value],
                    {value: value}][n % 3]
        if how == 'case':
            return value.swapcase() if n % 2 else value.lower()
        return blank + value if how == 'before' else value + blank
    if isinstance(value, bytes):
        if how == 'type':
            return [value.hex(), value.decode('latin-1'), list(value),
                    int.from_bytes(value, 'big')][n % 4]
        return b'\0' + value if how == 'before' else value + b'\0'
    if isinstance(value, bool):
        return [int(value), str(value), float(value), None][n % 4]
    if isinstance(value, int):
        return [float(value) if abs(value) < 2**60 else 0.5, str(value),
                [value], value.to_bytes(40, 'big', signed=True),
                complex(n)][n % 5]
    if isinstance(value, dict):
        return [[list(p) for p in value.items()], list(value), str(value),
                list(value.values())][n % 4]
    return value


@check('T06.near')
def _(case, ctx):
    kw, field, how, n = case
    value = kw.get(field)
    if field == 'market_type' and value is None:
        value = ['Brass', 'Usage'][n % 2]
    elif field == 'mask' and value is None:
        value = b'm' * 32
    elif field == 'task_owner' and how != 'wrap':
        how = 'type'
    value = nearly(value, how, n)
    ctx.label('nearly', how)
    judge_header((kw, ('value', field, value)), ctx)


@check('T06.fields')
def judge_header(case, ctx):
    kw, change = case
    kw = copy.deepcopy(kw)
    ok, field, value = True, None, None
    if change is not None:
        ctx.mark()
        what, field, value = change
        ctx.label(what)
        if what == 'missing':
            kw.pop(field, None)
            ok = field not in REQUIRED
        elif what == 'unknown':
            kw[field] = value
            ok = False
        elif what == 'none':
            kw[field] = None
            ok = field not in REQUIRED
        else:
            kw[field] = value
            if value is None:
                ok = field not in REQUIRED
            elif field in HEADER_RULES:
                ok = HEADER_RULES[field](value)
            elif field == 'min_version':
                ok = good_version(value)
            elif field == 'task_owner':
                ok = isinstance(value, dict) and all(
                    k in model.NODE and (
                        k not in NODE_RULES or v is None or
                        NODE_RULES[k](v)) for k, v in value.items())
                if isinstance(value, dict) and any(
                        is_int(v) and v == 65535 for v in value.values()):
                    return
    if ok is None:
        return
    if field == 'mask' and isinstance(value, bytes) and len(value) != 32:
        return      # the length is not looked at
    if not ok:
        ctx.label('refused')
        e = raises(MessageError, dt_tasks.TaskHeader, **kw)
        if isinstance(e, FieldError) and field != 'task_owner':
            expect(e.field == field, 'the error names %s instead of %s',
                   e.field, field)
        if field != 'task_owner':
            expect(isinstance(e, FieldError), 'refused with %r', e)
        return
    ctx.label('accepted')
    header = dt_tasks.TaskHeader(**kw)
    want = {name: kw.get(name) for name in model.HEADER}
    want['task_owner'] = model.node_wire(kw['task_owner'])
    got = header.to_dict()
    expect(same(got, want), 'to_dict gives %s, should be %s', short(got),
           short(want))
    expect(list(got) == list(model.HEADER), 'order of fields: %s', list(got))
    again = dt_tasks.TaskHeader(**got)
    expect(same(again.to_dict(), want), 'a copy differs: %s',
           short(again.to_dict()))
    expect(isinstance(header.task_owner, dt_p2p.Node), 'owner is %s',
           short(header.task_owner))
    if kw.get('mask') is not None:
        expect(isinstance(header.mask, masking.Mask) and
               header.mask.to_bytes() == kw['mask'], 'mask is %s',
               short(header.mask))
    if kw.get('market_type') is not None:
        expect(header.market_type is
               dt_tasks.TaskHeader.MARKET_TYPE(kw['market_type']),
               'market type is %r', header.market_type)


def good_version(v):
    """None: left open"""
    if not isinstance(v, str):
        return False
    num = '(0|[1-9][0-9]*)'
    if re.fullmatch(r'%s\.%s\.%s' % (num, num, num), v, re.ASCII):
        return True
    if re.match(r'\d+\.\d+\.\d+', v):
        return None
    return False


@check('T06.sign')
def _(case, ctx):
    kw, key, change, other = case
    kw = copy.deepcopy(kw)
    ctx.mark()
    header = dt_tasks.TaskHeader(**copy.deepcopy(kw))
    plain = {name: kw.get(name) for name in model.HEADER}
    plain['task_owner'] = model.node_wire(kw['task_owner'])
    digest = model.header_hash(plain)
    expect(header.get_hash() == digest, 'hash is %s, should be %s',
           header.get_hash().hex(), digest.hex())
    raises(InvalidSignature, header.verify, model.pub(key))
    header.sign(model.key(key))
    want = model.sign(key, digest)
    expect(header.signature == want, 'signature is %s', short(
        header.signature))
    expect(header.get_hash() == digest, 'the hash covers the signature')
    expect(header.verify(model.pub(key)) is True, 'verify')
    wire = dict(plain, signature=want)
    expect(same(header.to_dict(), wire), 'to_dict after signing: %s',
           short(header.to_dict()))
    got = dt_tasks.TaskHeader(**wire)
    expect(got.verify(model.pub(key)) is True, 'the received one')
    if other != key:
        raises(InvalidSignature, got.verify, model.pub(other))
    if change is None:
        return
    field, value = change
    ctx.label('altered ' + field)
    if field == 'signature':
        # one bit is another, or it is no signature at all
        wire['signature'] = value or \
            want[:5] + bytes([want[5] ^ 1]) + want[6:]
        for short_ in (b'', want[:-1], want + b'\0'):
            got = dt_tasks.TaskHeader(**dict(wire, signature=short_))
            raises(InvalidSignature, got.verify, model.pub(key))
    elif field == 'task_owner':
        old = wire[field]
        wire[field] = model.node_wire(value)
        if old == wire[field]:
            return
    else:
        if same(wire[field], value):
            return
        if wire[field] == value and type(wire[field]) is type(value):
            return
        wire[field] = value
    got = dt_tasks.TaskHeader(**wire)
    raises(InvalidSignature, got.verify, model.pub(key))


# T07

Info = message.concents.FileTransferToken.FileInfo
Category = Info.Category
DEFAULTS = dict(model.FILEINFO)


@check('T07.info')
def _(case, ctx):
    given, raw = case
    if given:
        ctx.mark()
    kw = dict(given)
    ok_keys = all(k in DEFAULTS for k in kw)
    if not raw and kw.get('category') in ('results', 'resources') and \
            isinstance(kw['category'], str):
        kw['category'] = Category(kw['category'])
    cat_ok = 'category' not in kw or isinstance(kw['category'], Category)
    if ok_keys and cat_ok:
        ctx.label('made')
        info = Info(kw)
        want = model.with_defaults(
            {k: v.value if isinstance(v, Category) else v
             for k, v in kw.items()}, model.FILEINFO)
        expect(isinstance(info['category'], Category), 'category is %r',
               info['category'])
        expect(same({k: v.value if isinstance(v, Category) else v
                     for k, v in info.items()}, want), 'made %s',
               short(dict(info)))
    elif not cat_ok and ok_keys:
        ctx.label('bad category')
        e = raises(FieldError, Info, kw)
        expect(e.field == 'category', 'the error names %s', e.field)
    else:
        ctx.label('bad key')
        raises((KeyError, FieldError), Info, kw)


@check('T07.token')
def _(case, ctx):
    files, op, ts = case
    d = proto.BY_NAME['FileTransferToken']
    cls = b.klass('FileTransferToken')
    if files:
        ctx.mark()
    spec = {'c': 'FileTransferToken', 'ts': ts, 'sig': 'fake', 's': {
        'files': files, 'operation': op, 'subtask_id': 'x'}}
    built = b.build(spec)
    got = load(model.wire(spec))
    ctx.label(str(op), '%d files' % min(3, len(files)))
    for msg in (built, got):
        b.check_message(msg, spec, model.FAKE)
        expect(msg.is_upload is (op == 'upload'), 'is_upload with %s', op)
        expect(msg.is_download is (op == 'download'), 'is_download with %s',
               op)
        for cat in Category:
            first = [i for i, f in enumerate(files)
                     if f.get('category', 'results') == cat.value]
            info = msg.get_file_info(cat)
            if first:
                expect(info is msg.files[first[0]], 'the %s are %s',
                       cat.value, short(info))
            else:
                expect(info is None, 'there are no %s: %s', cat.value,
                       short(info))
    again = load(got.serialize())
    expect(again == got, 'changes when passed on')


def is_file(value):
    return isinstance(value, dict) and all(
        k in DEFAULTS for k in value) and (
            'category' not in value or
            isinstance(value['category'], str) and
            value['category'] in ('results', 'resources'))


@check('T07.bad')
def _(case, ctx):
    """A token with a file that is none is refused"""
    good, n, what, value, ts = case
    ctx.mark()
    ctx.label(what)
    spec = {'c': 'FileTransferToken', 'ts': ts, 'sig': 'fake', 's': {
        'files': good, 'operation': 'upload'}}
    slots = model.slots_wire(spec)
    files = dict(slots)['files']
    if not files:
        return
    f = files[n % len(files)]
    if what == 'category':
        f['category'] = value
        bad = not (isinstance(value, str) and
                   value in ('results', 'resources'))
    elif what == 'key':
        f['name'] = value
        bad = True
    elif what == 'file':
        files[n % len(files)] = value
        bad = not is_file(value)
    else:
        slots = [[k, value if k == 'files' else v] for k, v in slots]
        bad = not (isinstance(value, (list, dict, str, bytes)) and not value
                   or isinstance(value, list) and all(map(is_file, value)))
    data = model.pack_header(4005, ts, False) + model.FAKE + \
        refcbor.dumps(slots)
    if bad:
        ctx.label('refused')
        raises(MessageError, load, data)
    else:
        load(data)


# T08

def stripped(spec):
    """A copy without shared parts, as nothing was sent yet"""
    out = {k: v for k, v in spec.items() if k != 'enc'}
    kinds = proto.BY_NAME[spec['c']].kinds
    out['s'] = {
        k: v if v is None else
        stripped(v) if kinds[k] == 'msg' else
        [stripped(x) for x in v] if kinds[k] == 'msgs' else copy.deepcopy(v)
        for k, v in spec['s'].items()}
    return out


def owner_of(spec):
    return spec['sig'][1] if proto.BY_NAME[spec['c']].sign else None


class Relay:
    """Everybody builds a message of those received, signs it, and sends it"""
    def __init__(self, plan, meddle, ctx):
        self.plan, self.meddle, self.ctx = plan, meddle, ctx
        self.hops = 0
        self.received = {}      # repr of the spec -> (message, spec, crypt)
        self.headers = {}
        self.meddled = False

    def header(self, spec):
        known = repr(spec)
        if known not in self.headers:
            crypt, to, delta = self.step()
            sent = message.p2p.Tasks(
                header=dt.MessageHeader(1006, 1600000000, False),
                tasks=[b.build_header(spec)])
            got = self.send(sent, spec['sig'][1], crypt, to,
                            sent.timestamp + delta)
            header, = got.tasks
            expect(same(header.to_dict(), model.header_wire(spec)),
                   'the header became %s', short(header.to_dict()))
            self.headers[known] = header
        return self.headers[known]

    def step(self):
        crypt, to, delta = self.plan[self.hops % len(self.plan)]
        self.hops += 1
        return crypt, to, delta

    def send(self, msg, key, crypt, to, now):
        data = shortcuts.dump(msg, None if key is None else model.key(key),
                              model.pub(to) if crypt else None)
        clock.at(now)
        got = shortcuts.load(data, model.key(to),
                             None if key is None else model.pub(key))
        expect(got.encrypted is bool(crypt and type(msg).ENCRYPT),
               'encrypted: %r', got.encrypted)
        return got

    def message(self, spec):
        known = repr(spec)
        if known in self.received:
            got, _, crypt = self.received[known]
            for _, inner in [((), spec)] + list(nested_of(spec)):
                inner['enc'] = self.received[repr(stripped(inner))][2]
            return got
        d = proto.BY_NAME[spec['c']]
        plain = stripped(spec)
        msg = b.build(dict(spec, sig=None),
                      {'msg': self.message, 'header': self.header})
        crypt, to, delta = self.step()
        got = self.send(msg, owner_of(spec), crypt, to, spec['ts'] + delta)
        if not d.sign:
            plain['sig'] = spec['sig'] = 'fake'
        crypt = bool(crypt and d.enc)
        if not self.meddled:
            b.check_message(got, spec, model.spec_sig(spec), encrypted=crypt,
                            what='received %s' % d.name)
        spec['enc'] = crypt
        self.received[known] = self.received[repr(plain)] = got, spec, crypt
        if self.meddle and not self.meddled and \
                self.meddle[0] <= self.hops:
            if is_task(spec) and self.meddle[2] != 'header':
                self.alter(got, spec)
            elif self.meddle[2] == 'header':
                self.alter_header(got, spec)
        return got

    def alter_header(self, got, spec):
        """The parties may sign anything around it, but it is another task
        than the one that was announced"""
        offers = [at(got, path) for path, inner in
                  [((), spec)] + list(nested_of(spec))
                  if inner['c'] == 'WantToComputeTask']
        if not offers:
            return
        header = offers[0].task_header
        _, n, _, x, value = self.meddle
        if n % 4 == 0:
            header.subtasks_count += x
        elif n % 4 == 1:
            header.timestamp += x
        elif n % 4 == 2:
            header.signature = model.sign(x % 97, b'another one')
        else:
            field = ('max_price', 'deadline', 'environment_prerequisites',
                     'task_id')[x % 4]
            before = getattr(header, field)
            value = '%s.' % before if field == 'task_id' else {} \
                if field == 'environment_prerequisites' and before != {} \
                else x
            if same(before, value):
                return
            setattr(header, field, value)
        self.ctx.label('altered: header')
        self.meddled = True

    def alter(self, got, spec):
        _, n, how, x, value = self.meddle
        inside = [((), spec)] + list(nested_of(spec))
        path, inner = inside[n % len(inside)]
        where = at(got, path)
        before = model.nested_wire(inner)
        if how == 'ts':
            where.header = dt.MessageHeader(
                where.header.type_, where.header.timestamp + x,
                where.header.encrypted)
        elif how == 'sig':
            where.sig = where.sig[:x % 64] + bytes(
                [where.sig[x % 64] ^ (1 + x % 255)]) + where.sig[x % 64 + 1:]
        else:
            free = [s for s, k in proto.BY_NAME[inner['c']].slots
                    if k == 'v' and s not in ('ethsig', 'payment_ts')]
            if not free:
                return
            slot = free[x % len(free)]
            if slot.endswith(('_key', '_id')):
                value = model.pub(x).hex()
            if same(getattr(where, slot), value):
                return
            setattr(where, slot, value)
        self.ctx.label('altered: ' + how)
        self.meddled = True


@check('T08.relay')
def _(case, ctx):
    spec, concent, plan, meddle = case
    spec = stripped(spec)
    ctx.label(spec['c'])
    if any(lookup(s, 'task_to_compute') is None for _, s in chain_of(spec)):
        ctx.label('no offer')
        return
    relay = Relay(plan, meddle, ctx)
    try:
        got = relay.message(spec)
    except MessageError:
        if not relay.meddled:
            raise
        ctx.label('refused on the way')
        return
    ttc = lookup(spec, 'task_to_compute')
    conc = model.pub(concent)
    ctx.mark()
    if relay.meddled:
        ctx.label('refused in the end')
        raises((MessageError, InvalidSignature), got.verify_owners,
               concent_public_key=conc)
        return
    kwargs = {w + '_public_key': party(ttc, w)
              for w in ('provider', 'requestor')}
    expect(got.verify_owners(concent_public_key=conc, **kwargs) is True,
           'verify_owners')
    expect(got.validate_ownership_chain(concent_public_key=conc) is True,
           'validate_ownership_chain')
    for attr in ('task_id', 'subtask_id', 'requestor_id', 'provider_id'):
        expect(same(getattr(got, attr), lookup(spec, attr)), '%s is %s', attr,
               short(getattr(got, attr)))
    for msg, s, crypt in relay.received.values():
        s = dict(s)
        s.pop('enc', None)
        b.check_message(msg, s, model.spec_sig(s), encrypted=crypt,
                        what='in the end, %s' % s['c'])
        if proto.BY_NAME[s['c']].sign:
            expect(msg.verify_signature(model.pub(s['sig'][1])) is True,
                   '%s does not verify', s['c'])

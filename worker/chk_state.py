"""Oracles for histories over many messages, and for threads."""
import copy
import pickle
import sys
import threading
import warnings

import golem_messages
from golem_messages import exceptions
from golem_messages import idgenerator
from golem_messages import message
from golem_messages import shortcuts
from golem_messages.datastructures import p2p as dt_p2p
from golem_messages.datastructures import tasks as dt_tasks

import boot
import build as b
import model
import proto
import refcbor
from chk_wire import HEAD, load
from lib import Violation, check, expect, fail, same, short

Message = message.base.Message


def own(spec):
    """A greeting of this library tells its own version"""
    if spec['c'] == 'Hello':
        return dict(spec, version=golem_messages.__version__)
    return spec


# M13

def mutable(value, found, seen):
    """Everything reachable that can be altered"""
    if id(value) in seen:
        return
    seen.add(id(value))
    if isinstance(value, Message):
        for slot, _ in proto.TYPES[value.header.type_].slots:
            found.append((value, slot))
            mutable(getattr(value, slot), found, seen)
    elif isinstance(value, (dt_p2p.Node, dt_tasks.TaskHeader)):
        for name in (model.NODE if isinstance(value, dt_p2p.Node)
                     else model.HEADER):
            found.append((value, name))
            mutable(getattr(value, name), found, seen)
    elif isinstance(value, dict):
        found.append((value, None))
        for v in list(value.values()):
            mutable(v, found, seen)
    elif isinstance(value, list):
        found.append((value, None))
        for v in value:
            mutable(v, found, seen)


def spoil_all(msg):
    """Whether containers were among it"""
    found = []
    mutable(msg, found, set())
    inner = False
    for where, name in found[::-1]:
        if name is not None:
            continue
        inner = True
        if isinstance(where, list):
            where.append('spoiled')
            continue
        for k in [k for k in where] + ['spoiled']:
            try:
                where[k] = 'spoiled'
            except (exceptions.FieldError, KeyError):
                pass
    for where, name in found[::-1]:
        if name is not None:
            setattr(where, name, 'spoiled')
    return inner


def spoil(msg, n, m):
    found = []
    mutable(msg, found, set())
    if not found:
        return
    where, name = found[n * 31 % len(found)]
    if m % 3:
        # rather inside of containers
        inner = [f for f in found if f[1] is None]
        if inner:
            where, name = inner[n % len(inner)]
    if name is not None:
        setattr(where, name, 'spoiled')
    elif isinstance(where, list):
        if m % 2 and where:
            del where[:]
        else:
            where.append('spoiled')
    else:
        keys = list(where)
        try:
            where['spoiled' if m % 2 else keys[m % len(keys)]] = 'spoiled'
        except (exceptions.FieldError, KeyError, ZeroDivisionError):
            where.clear()


def broken(data, i, j):
    """Well-formed, but something deep inside of it is not"""
    # found by the reference codec, as are the edits of M04
    tail = data[-32:] if data[:2] == b'\0\0' else b''
    body = data[HEAD:len(data) - len(tail)]
    slots = refcbor.loads(body)
    places = []

    def walk(value):
        if isinstance(value, list):
            for n, v in enumerate(value):
                places.append((value, n))
                walk(v)
        elif isinstance(value, dict):
            for k, v in value.items():
                places.append((value, k))
                walk(v)
    walk(slots)
    if places:
        # rather far down
        where, key = places[-1 - (i * 400 + j) % len(places)]
        where[key] = [None, 'x', [None], {}, -1][j % 5]
    return data[:HEAD] + refcbor.dumps(slots) + tail


@check('M13.history')
def _(case, ctx):
    specs, ops, k = case
    specs = [own(s) for s in specs]
    ctx.label(*{s['c'] for s in specs})
    objs = []       # [message, spec, signature, altered]

    def verify(o, what):
        msg, spec, sig, _ = o
        b.check_message(msg, spec, sig, what=what)

    for n, (op, i, j) in enumerate(ops):
        spec = specs[i % len(specs)]
        sig = model.spec_sig(spec)
        here = '%d. %s' % (n, op)
        if op in ('relay', 'dump', 'look', 'spoil'):
            if not objs:
                continue
            o = objs[i % len(objs)]
            if o[3]:
                continue
        if op == 'build':
            objs.append([b.build(spec), spec, sig, False])
            verify(objs[-1], here)
        elif op == 'load':
            objs.append([load(model.wire(spec)), spec,
                         model.FAKE if sig is None else sig, False])
            verify(objs[-1], here)
        elif op in ('relay', 'dump'):
            data = o[0].serialize()
            if o[2] is None:
                o[2] = model.FAKE
            want = model.wire(dict(o[1], sig=o[2]))
            expect(data == want, '%s: bytes are\n%s\nshould be\n%s', here,
                   data.hex(), want.hex())
            if op == 'relay':
                objs.append([load(data), o[1], o[2], False])
                verify(objs[-1], here)
        elif op == 'look':
            o[0].get_short_hash()
            repr(o[0])
            other = objs[j % len(objs)]
            if not other[3]:
                o[0] == other[0]    # pylint: disable=pointless-statement
            verify(o, here)
        elif op == 'spoil':
            spoil(o[0], j, i)
            o[3] = True
            if len(objs) > 1:
                ctx.mark()
                ctx.label('altered')
        else:
            data = model.wire(spec)
            try:
                if op == 'break':
                    load(broken(data, i, j))
                elif op == 'cut':
                    load(data[:j % len(data)])
                elif op == 'flip':
                    at = j % len(data)
                    load(data[:at] + bytes([data[at] ^ 1 + i]) +
                         data[at + 1:])
                else:
                    b.klass(spec['c'])(no_such_slot=1, sig=b'x')
            except Exception:       # how it fails is another property
                if objs:
                    ctx.mark()
                    ctx.label('refused')
    for n, o in enumerate(objs):
        if not o[3]:
            verify(o, 'message %d at the end' % n)
    for spec in specs:
        sig = model.spec_sig(spec)
        verify([b.build(spec), spec, sig, False], 'built anew')
        verify([load(model.wire(spec)), spec,
                model.FAKE if sig is None else sig, False], 'received anew')


@check('M13.refused')
def _(case, ctx):
    """Nothing of a message that was refused is found in the next one"""
    spec, breaks = case
    spec = own(spec)
    ctx.label(spec['c'])
    data, sig = model.wire(spec), model.spec_sig(spec)
    sig = model.FAKE if sig is None else sig
    for i, j in breaks:
        try:
            load(broken(data, i, j))
        except Exception:       # how it fails is another property
            ctx.mark()
            ctx.label('refused')
        b.check_message(load(data), spec, sig, what='the next one')
    b.check_message(b.build(spec), spec, model.spec_sig(spec),
                    what='built anew')


@check('M13.twins')
def _(case, ctx):
    """One message is altered wherever that is possible, in place"""
    one, two, hows = case
    specs = [own(one), own(two)]
    ctx.label(*hows)
    objs = []
    for spec, how in zip(specs, hows):
        sig = model.spec_sig(spec)
        if how == 'load':
            sig = model.FAKE if sig is None else sig
            msg = load(model.wire(spec))
        else:
            msg = b.build(spec)
        objs.append((msg, spec, sig))
    for victim, other in (objs, objs[::-1]):
        if spoil_all(victim[0]):
            ctx.mark()
        if other is objs[1]:
            b.check_message(other[0], other[1], other[2],
                            what='the other message')
    for _, spec, sig in objs:
        b.check_message(b.build(spec), spec, model.spec_sig(spec),
                        what='built anew')
        b.check_message(load(model.wire(spec)), spec,
                        model.FAKE if sig is None else sig,
                        what='received anew')


# M14

def copied(x, how):
    if how == 'copy':
        return copy.copy(x)
    if how == 'deepcopy':
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, how))


@check('M14.message')
def _(case, ctx):
    spec, received, hows, alter = case
    ctx.label(spec['c'])
    if nested(spec):
        ctx.mark()
    if not received:
        spec = own(spec)
    sig = model.spec_sig(spec)
    if received:
        sig = model.FAKE if sig is None else sig
        msg = load(model.wire(spec))
    else:
        msg = b.build(spec)
    made = []
    for how in hows:
        ctx.label('how: %s' % how)
        got = copied(made[-1][0] if made and alter % 3 == 0 else msg, how)
        expect(got is not msg, 'it is no copy')
        expect(got == msg and msg == got, '%s differs', how)
        b.check_message(got, spec, sig, what='after %s' % how)
        expect(got.get_short_hash() == model.spec_hash(spec),
               'after %s the hash is another one', how)
        show(got, how)
        made.append((got, how))
    show(msg, 'itself')
    data = model.wire(spec)
    # each is on its own
    for got, how in made[::-1] if alter % 2 else made:
        if how == 'copy':
            for slot, _ in proto.BY_NAME[spec['c']].slots:
                setattr(got, slot, None)
            got.sig = b'x' * 65
            got.header = got.header._replace(timestamp=1)
        else:
            spoil_all(got)
            got.sig = b'x' * 65
        b.check_message(msg, spec, sig,
                        what='when what %s gave was altered' % how)
    expect(msg.serialize() == data, 'it is serialized in another way')


def show(msg, what):
    """Whoever logs a message sees which one it is"""
    for text in (repr(msg), str(msg), '%s' % (msg,)):
        expect(isinstance(text, str) and type(msg).__name__ in text and
               str(msg.timestamp) in text, '%s is shown as %s', what,
               short(text))


def nested(spec):
    return any(kind in ('msg', 'msgs') and spec['s'].get(slot)
               for slot, kind in proto.BY_NAME[spec['c']].slots)


def spoil_all(msg):
    found = []
    mutable(msg, found, set())
    for where, name in found[::-1]:
        if name is not None:
            continue
        if isinstance(where, list):
            where.append('spoiled')
            continue
        for k in [k for k in where] + ['spoiled']:
            try:
                where[k] = 'spoiled'
            except (exceptions.FieldError, KeyError):
                pass
    for where, name in found[::-1]:
        if name is not None:
            if isinstance(where, Message):
                where.sig = b'spoiled'
            setattr(where, name, 'spoiled')


@check('M14.show')
def _(case, ctx):
    """A message that cannot be sent can still be shown"""
    name, slot, value, as_slot = case
    ctx.mark()
    msg = b.klass(name)()
    if as_slot:
        setattr(msg, slot, value)
    show(msg, 'with %s: %s' % (slot, short(value)))
    if as_slot and name != 'Hello':
        # the library itself does so before there is a header
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter('always')
            msg = b.klass(name)(deserialized=True)
        expect(len(seen) == 1 and name in str(seen[0].message),
               'warns of %s', short(seen))
        show(msg, 'without a header')


# C01

PREFIX = boot.REPO + '/golem_messages/'


class Scheduler:
    """Runs threads one at a time; where they take turns is up to a list of
    (lines of the code under test to run, whom to run then)"""
    def __init__(self, jobs, schedule):
        self.schedule = list(schedule)
        self.left, self.next = self.schedule.pop(0)
        self.turns = [threading.Semaphore(0) for _ in jobs]
        self.alive = list(range(len(jobs)))
        self.over = threading.Semaphore(0)
        self.errors = []
        self.switches = 0
        self.progress = 0
        self.threads = [
            threading.Thread(target=self.body, args=(i, job), daemon=True)
            for i, job in enumerate(jobs)]

    def run(self):
        for t in self.threads:
            t.start()
        self.turns[0].release()
        if not self.over.acquire(timeout=50):
            fail('the threads wait for each other')
        for t in self.threads:
            t.join()

    def body(self, i, job):
        self.turns[i].acquire()
        sys.settrace(lambda frame, event, arg: self.trace(i, frame))
        try:
            job()
        except BaseException as e:
            self.errors.append((i, e))
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            if self.alive:
                self.turns[self.alive[0]].release()
            else:
                self.over.release()

    def wait(self, i):
        """Until it is our turn, or nobody does anything any more: whoever
        should go on needs a lock that we hold"""
        while True:
            before = self.progress
            if self.turns[i].acquire(timeout=.7) or before == self.progress:
                return

    def trace(self, i, frame):
        self.progress += 1
        if not frame.f_code.co_filename.startswith(PREFIX):
            return None
        return lambda frame, event, arg: self.line(i, event)

    def line(self, i, event):
        if event == 'line' and self.left > 0:
            self.left -= 1
            if not self.left:
                whom = self.next
                if self.schedule:
                    self.left, self.next = self.schedule.pop(0)
                others = [j for j in self.alive if j != i]
                if others:
                    self.switches += 1
                    self.turns[others[whom % len(others)]].release()
                    self.wait(i)
        return lambda frame, event, arg: self.line(i, event)


def job_of(steps, ids):
    """What a thread does, and how it is judged"""
    prepared = []
    for what, x, k, j in steps:
        if what == 'header':
            plain = model.header_wire({'kw': x, 'sig': None})
            digest = model.header_hash(plain)
            prepared.append((what, x, k, j, digest,
                             model.sign(k, digest)))
        elif what == 'id':
            prepared.append((what, x, k, j, model.pub(k), None))
        else:
            spec = own(x)
            sig = model.spec_sig(spec)
            if what == 'trip' and proto.BY_NAME[spec['c']].sign:
                sig = model.sign(k, model.spec_hash(spec))
            prepared.append((what, spec, k, j, model.wire(spec),
                             model.FAKE if sig is None else sig))

    def run():
        for n, (what, x, k, j, data, sig) in enumerate(prepared):
            here = '%d. %s' % (n, what)
            if what == 'trip':
                d = proto.BY_NAME[x['c']]
                msg = b.build(x)
                sent = shortcuts.dump(msg, model.key(k), model.pub(j))
                got = shortcuts.load(
                    sent, model.key(j), model.pub(k) if d.sign else None,
                    check_time=False)
                b.check_message(got, x, sig, encrypted=d.enc, what=here)
                b.check_message(msg, x, sig, what=here + ', sent',
                                encrypted=msg.encrypted)
            elif what == 'read':
                b.check_message(load(data), x, sig, what=here)
            elif what == 'bad':
                try:
                    load(data[:j % len(data)])
                except Exception:   # how it fails is another property
                    pass
            elif what == 'header':
                header = dt_tasks.TaskHeader(**x)
                header.sign(model.key(k))
                expect(header.signature == sig, '%s: signature %s', here,
                       short(header.signature))
                expect(header.get_hash() == data, '%s: hash', here)
            else:
                id_ = idgenerator.generate_id(data)
                ids.append(id_)
                expect(idgenerator.check_id_seed(id_, data) is True,
                       '%s: %s is not of %s', here, id_, data.hex())
    return run


class Interrupt(Scheduler):
    """The first thread is interrupted once, where it comes to a place for
    the n-th time; then the other runs to its end, and it goes on"""
    def __init__(self, jobs, place, nth):
        super().__init__(jobs, [(0, 0)])
        self.place, self.nth = place, nth

    def trace(self, i, frame):
        self.progress += 1
        if i or not frame.f_code.co_filename.startswith(PREFIX):
            return None
        return self.watch

    def watch(self, frame, event, arg):
        if event == 'line' and self.nth and \
                (frame.f_code, frame.f_lineno) == self.place:
            self.nth -= 1
            if not self.nth and len(self.alive) > 1:
                self.switches += 1
                self.turns[1].release()
                self.wait(0)
        return self.watch


def places(job):
    """Where the job comes to: {place: how often}, in order"""
    found = {}

    def watch(frame, event, arg):
        if event == 'line':
            place = frame.f_code, frame.f_lineno
            found[place] = found.get(place, 0) + 1
        return watch

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            return watch
        return None
    sys.settrace(trace)
    try:
        job()
    finally:
        sys.settrace(None)
    return found


@check('C01.reasons')
@check('C01.recipients')
@check('C01.preempt')
def _(case, ctx):
    steps, others, where = case
    ids = []
    ctx.label(*{s[0] for s in steps})
    first, second = job_of(steps, ids), job_of(others, ids)
    second()
    found = places(first)
    every = list(found)
    for n, m in where:
        place = every[n % len(every)]
        s = Interrupt([first, second], place, 1 + m % found[place])
        s.run()
        if s.switches:
            ctx.mark()
        ctx.label('%d interrupted' % s.switches)
        for i, e in s.errors:
            at = '%s:%d' % (place[0].co_name, place[1])
            if isinstance(e, Violation):
                fail('thread %d, the first was interrupted in %s: %s', i, at,
                     e)
            raise e
    expect(len(set(ids)) == len(ids), 'two threads got the id %s', ids)


def within(x):
    """Messages and task headers that a message consists of"""
    if isinstance(x, list):
        for y in x:
            yield from within(y)
    elif isinstance(x, dt_tasks.TaskHeader):
        yield x
    elif isinstance(x, Message):
        yield x
        for slot, _ in proto.BY_NAME[type(x).__name__].slots:
            yield from within(getattr(x, slot))


def look(msg, what, k, twin):
    """Something that alters nothing, and what it says"""
    if what == 'dump':
        return shortcuts.dump(msg, None, None)
    if what == 'seal':
        got = shortcuts.load(shortcuts.dump(msg, None, model.pub(k)),
                             model.key(k), None, check_time=False)
        return got == msg, got.slots()
    if what == 'slots':
        return msg.slots()
    if what == 'hash':
        return msg.get_short_hash()
    if what == 'show':
        return repr(msg)
    if what == 'equal':
        return msg == twin, twin == msg
    if what == 'copy':
        return copy.deepcopy(msg).slots()
    parts = list(within(msg))
    if what == 'verify':
        return [verified(x, k) for x in parts]
    if what == 'nested':
        return [x.serialize() for x in parts if isinstance(x, Message) and
                x.sig is not None]
    if what == 'ids':
        return [getattr(x, n) for n in (
            'task_id', 'subtask_id', 'requestor_id', 'provider_id',
            'task_to_compute') for x in parts if hasattr(x, n)]
    return [(x.get_hash(), x.to_dict(), verified(x, k)) for x in parts
            if isinstance(x, dt_tasks.TaskHeader)]


def verified(x, k):
    try:
        if isinstance(x, Message):
            return x.verify_signature(model.pub(k))
        return x.verify(model.pub(k))
    except exceptions.InvalidSignature:
        return False


@check('C01.shared')
def _(case, ctx):
    """Several threads look at the same message"""
    spec, k, one, two, where = case
    spec = own(spec)
    spec = dict(spec, sig=model.spec_sig(spec) or model.FAKE)
    ctx.label(*one)
    msg, twin = b.build(spec), b.build(spec)
    todo = set(one + two)
    alone = {what: look(twin, what, k, twin) for what in todo}

    def job(steps):
        def run():
            for what in steps:
                got = look(msg, what, k, twin)
                expect(same(got, alone[what]) if what != 'ids' else
                       got == alone[what], '%s gives %s, alone it gives %s',
                       what, short(got), short(alone[what]))
        return run
    first, second = job(one), job(two)
    found = places(first)
    every = list(found)
    for n, m in where if every else ():
        place = every[n % len(every)]
        s = Interrupt([first, second], place, 1 + m % found[place])
        s.run()
        if s.switches:
            ctx.mark()
        for i, e in s.errors:
            at = '%s:%d' % (place[0].co_name, place[1])
            if isinstance(e, Violation):
                fail('thread %d, the first was interrupted in %s: %s', i, at,
                     e)
            raise e
    b.check_message(msg, spec, spec['sig'], encrypted=bool(spec.get('enc')),
                    what='in the end')


@check('C01.threads')
def _(case, ctx):
    jobs, schedule = case
    ids = []
    for steps in jobs:
        ctx.label(*{s[0] for s in steps})
    s = Scheduler([job_of(steps, ids) for steps in jobs], schedule)
    s.run()
    if s.switches:
        ctx.mark()
    ctx.label('%d switches' % min(s.switches, 5) if s.switches < 10
              else '10 switches or more')
    for i, e in s.errors:
        if isinstance(e, Violation):
            fail('thread %d: %s', i, e)
        raise e
    expect(len(set(ids)) == len(ids), 'two threads got the id %s', ids)

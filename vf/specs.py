"""Generators of message specs (see worker/model.py)."""
import functools

from hypothesis import strategies as st

from worker import proto

from . import g
from .gen_core import COUNT, good_ip, good_version, node_kw, port, stats_kw

MIN_TS = 1262304000    # 2010-01-01
MAX_TS = 32819212800   # 3010-01-01
KEYS = 6

TASK_CHAIN = [d.name for d in proto.TYPES.values() if d.owners]
PLAIN = [d.name for d in proto.TYPES.values() if not d.owners]
ALL = [d.name for d in proto.TYPES.values()]

LIGHT = st.one_of(
    g.pick([None, 0, 1, 7, 10**18, '', 'x', 'abc', b'', b'\0\xff', True,
            False, 0.5, -1, [], {}, [1, 'a'], {'k': None}, {1: b'x'}]),
    g.values(2))
KEY = st.integers(0, KEYS - 1)


@functools.lru_cache(None)
def stamps():
    return st.one_of(
        st.integers(1500000000, 1700000000), g.ints(MIN_TS + 1, MAX_TS - 1),
        st.integers(1577836800, 1577836900))


@functools.lru_cache(None)
def signatures():
    """None, the placeholder, a real one by some key, or any 65 bytes"""
    return st.one_of(
        KEY.map(lambda i: ('k', i)), KEY.map(lambda i: ('k', i)),
        g.pick([None, 'fake']), g.fixed(65))


@functools.lru_cache(None)
def header_kw():
    opt = g.opt
    return st.fixed_dictionaries({
        'task_id': g.text(128), 'task_owner': node_kw(),
        'subtasks_count': g.ints(1), 'min_version': good_version(),
        'timestamp': g.ints(),
    }, optional={
        'mask': opt(st.one_of(g.fixed(32), g.fixed(32), g.pick(
            [b'', b'\0', bytes(32), bytes(33)]))),
        'deadline': opt(g.ints()),
        'subtask_timeout': opt(g.ints(0)),
        'market_type': opt(g.pick(['Brass', 'Usage'])),
        'environment': opt(g.text(128)),
        'environment_prerequisites': opt(
            st.dictionaries(g.KEYS, g.values(2), max_size=3)),
        'estimated_memory': opt(g.ints()), 'max_price': opt(g.ints()),
        'subtask_budget': opt(g.ints()), 'concent_enabled': opt(st.booleans()),
    })


@functools.lru_cache(None)
def headers():
    return st.fixed_dictionaries({
        'kw': header_kw(),
        'sig': st.one_of(KEY.map(lambda i: ('k', i)), st.none(),
                         g.fixed(65))})


@functools.lru_cache(None)
def files():
    return g.lists(st.fixed_dictionaries({}, optional={
        'path': g.text(40), 'checksum': g.text(40), 'size': COUNT,
        'category': g.pick(['results', 'resources'])}), 4)


@functools.lru_cache(None)
def peers():
    return g.opt(g.lists(st.fixed_dictionaries({
        'address': good_ip(), 'port': port(), 'node': node_kw()}), 3))


def _note(slot):
    return st.one_of(
        st.none(),
        st.tuples(st.just('note'), KEY, KEY.map(lambda i: ('addr', i))),
        st.tuples(g.pick([27, 28, 0]), g.fixed(32), g.fixed(32)).map(list))


@functools.lru_cache(None)
def by_kind(kind):
    """Values of a slot that says nothing more than its kind"""
    return {
        'v': LIGHT,
        'node': g.opt(node_kw()),
        'peers': peers(),
        'headers': g.opt(g.lists(headers(), 2)),
        'header': g.opt(headers()),
        'files': files(),
        'stats': g.opt(stats_kw()),
        'psig': _note(None),
        'bool': st.one_of(st.booleans(), LIGHT),
        'int': g.ints(0, 2**256 - 1),
        'nonneg': g.opt(g.ints(0)),
        'pos1': g.opt(g.ints(1)),
        'orlist': g.opt(st.one_of(g.lists(LIGHT, 4), LIGHT)),
        'ctd': st.none(),
    }[kind]


CTD_EXTRA = st.fixed_dictionaries({}, optional={
    'deadline': st.one_of(g.ints(0, 2**40), st.integers(15 * 10**8, 17 * 10**8)),
    'extra_data': st.dictionaries(g.KEYS, g.values(2), max_size=2),
    'performance': g.floats(), 'docker_images': LIGHT,
    'resources': g.lists(g.text(10), 3)})


OPTIONAL = ('v', 'node', 'peers', 'headers', 'orlist', 'pos1', 'nonneg',
            'bool', 'stats')


NOTHING = {'int': [0], 'bool': [False, None], 'nonneg': [0, None],
           'v': [None, 0, '', False], 'orlist': [[], None],
           'headers': [[], None], 'peers': [[], None]}
LISTS = ('headers', 'peers', 'files', 'orlist')


class Chain:
    """What the messages of one task have in common.

    req, prov, eth, conc: keys of the requestor, provider, the requestor's
    ethereum account and the Concent.  reuse: nested messages of the same
    class are the same message.
    """
    def __init__(self, draw, reuse=True, roles=None, signed=None):
        self.draw = draw
        self.req, self.prov, self.eth, self.conc = \
            roles or draw(st.one_of(
                st.permutations(range(KEYS)).map(lambda p: tuple(p[:4])),
                st.tuples(KEY, KEY, KEY, KEY)))
        self.reuse = reuse
        self.memo = {}
        self.signed = signed       # everything signed by its expected owner
        # nobody has signed anything yet, or everything is of the same kind
        self.bias = draw(g.pick(['mix'] * 7 + ['none', 'none', 'fake']))
        # only what must be there is given
        self.sparse = draw(g.pick([0, 0, 0, 0, 1]))
        # whatever may be nothing is nothing
        self.nothing = draw(g.pick([0, 0, 0, 0, 0, 1]))
        # nested messages that were encrypted when they were received say so
        self.crypted = draw(g.pick(['none', 'none', 'all', 'some']))
        self.came = {}

    def owner_key(self, name):
        d = proto.BY_NAME[name]
        which = {'requestor': self.req, 'provider': self.prov,
                 'concent': self.conc}
        return which[self.draw(g.pick(d.owners))]

    def sig(self, name):
        d = proto.BY_NAME[name]
        if self.signed:
            if d.owners:
                return ('k', self.owner_key(name))
            if name == 'WantToComputeTask':
                return ('k', self.prov)
            return ('k', self.conc)
        if self.bias != 'mix':
            return None if self.bias == 'none' else 'fake'
        return self.draw(signatures())

    def get(self, name):
        if self.reuse and name in self.memo:
            return self.memo[name]
        spec = self.make(name)
        self.memo[name] = spec
        return spec

    def make(self, name, **over):
        d = proto.BY_NAME[name]
        ts = self.draw(stamps())
        spec = {'c': name, 'ts': ts, 'sig': None, 's': {}}
        s = spec['s']
        special = getattr(self, 'slots_' + name, None)
        if special:
            s.update(special(ts))
        for slot, kind in d.slots:
            if slot in s:
                continue
            if kind in ('msg', 'msgs'):
                s[slot] = self.nested(d, slot, kind)
            elif self.sparse and kind in OPTIONAL and self.draw(
                    g.pick([0, 1, 1, 1])):
                continue
            elif kind == 'enum':
                value = self.draw(g.pick([None] + [
                    v for _, v in d.enums[slot]] * 2))
                s[slot] = value
            else:
                value = self.value(kind)
                if value is None and kind != 'psig' and self.draw(
                        st.booleans()):
                    continue    # not given at all
                s[slot] = value
        s.update(over)
        if name == 'Hello':
            spec['version'] = '2.18.%d' % self.draw(g.ints(0, 99999))
        spec['sig'] = self.sig(name)
        return spec

    def value(self, kind):
        if self.nothing and kind in NOTHING:
            return self.draw(g.pick(NOTHING[kind]))
        value = self.draw(by_kind(kind))
        if kind in LISTS and isinstance(value, list) and value and \
                not self.draw(st.integers(0, 4)):
            # something is there twice
            i = self.draw(st.integers(0, len(value) - 1))
            j = self.draw(st.integers(0, len(value)))
            value = value[:j] + [value[i]] + value[j:]
        return value

    def nested(self, d, slot, kind):
        cls, allow_none, _ = d.nested[slot]
        if kind == 'msgs':
            n = self.draw(st.integers(1, 3))   # empty lists are refused
            return [self.came_as(
                self.make(cls) if not i or self.draw(st.booleans())
                else self.get(cls)) for i in range(n)]
        if allow_none and self.draw(st.booleans()):
            return None
        return self.came_as(self.get(cls))

    def came_as(self, spec):
        name = spec['c']
        if self.crypted == 'none' or not proto.BY_NAME[name].enc:
            return spec
        if name not in self.came:
            self.came[name] = self.crypted == 'all' or self.draw(
                st.booleans())
        return dict(spec, enc=True) if self.came[name] else spec

    def slots_Hello(self, ts):
        return {}

    def slots_WantToComputeTask(self, ts):
        out = {'provider_public_key': ('pub', self.prov),
               'provider_ethereum_address': ('addr', self.prov)}
        header = {'kw': self.draw(header_kw()), 'sig': ('k', self.req)}
        if not self.signed and self.draw(g.pick([0, 0, 1])):
            header = self.draw(g.opt(headers()))
        out['task_header'] = header
        return out

    def slots_TaskToCompute(self, ts):
        n = st.integers(0, 2**80 - 1)
        ctd = dict(self.draw(CTD_EXTRA),
                   task_id=('uuid', self.req, self.draw(n)),
                   subtask_id=('uuid', self.req, self.draw(n)))
        return {'requestor_id': ('pub', self.req),
                'requestor_public_key': ('pub', self.req),
                'requestor_ethereum_public_key': ('pub', self.eth),
                'provider_id': ('pub', self.prov),
                'compute_task_def': ctd, 'ethsig': ('ethsig', self.eth)}

    def slots_ReportComputedTask(self, ts):
        return {'size': self.draw(g.ints(0, 2**50))}

    def slots_SubtaskResultsAccepted(self, ts):
        ago = self.draw(g.ints(0, 900))
        if not self.draw(g.pick([0, 1, 1])):
            return {'payment_ts': ts - ago + ago % 8 / 8}
        return {'payment_ts': ts - ago}

    def slots_SubtaskResultsRejected(self, ts):
        d = proto.BY_NAME['SubtaskResultsRejected']
        reason = self.draw(g.pick([v for _, v in d.enums['reason']]))
        out = {'reason': reason}
        if reason.startswith('Concent reported failure'):
            self.get('ReportComputedTask')   # the task in common, first
            out['force_get_task_result_failed'] = self.common(
                'ForceGetTaskResultFailed')
        elif self.draw(g.pick([0, 0, 1])):
            self.get('ReportComputedTask')
            out['force_get_task_result_failed'] = self.common(
                'ForceGetTaskResultFailed')
        else:
            out['force_get_task_result_failed'] = None
        return out

    def common(self, name):
        """A message about the task the memo knows of"""
        keep, self.reuse = self.reuse, True
        try:
            return self.came_as(self.get(name))
        finally:
            self.reuse = keep

    def slots_VerdictReportComputedTask(self, ts):
        return {'force_report_computed_task':
                self.common('ForceReportComputedTask'),
                'ack_report_computed_task':
                self.common('AckReportComputedTask')}

    def slots_FileTransferToken(self, ts):
        d = proto.BY_NAME['FileTransferToken']
        return {'operation': self.draw(g.pick(
            [None] + [v for _, v in d.enums['operation']] * 3))}


@st.composite
def specs(draw, names=None, signed=None, reuse=True, top_sig=True):
    name = draw(g.pick(names or NAMES))
    chain = Chain(draw, reuse=reuse, signed=signed)
    spec = chain.make(name)
    if not top_sig:
        spec['sig'] = None
    return spec


# every type equally, those of tasks once more
NAMES = ALL + TASK_CHAIN


@functools.lru_cache(None)
def any_spec():
    return specs()


@functools.lru_cache(None)
def unsigned_spec():
    """The message itself is not yet signed"""
    return specs(top_sig=False)

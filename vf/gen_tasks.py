"""Cases for messages about tasks (mode full)."""
from hypothesis import strategies as st

from worker import proto

from . import g, specs
from .gen_core import bad_ip, good_version, node_kw
from .registry import Kind, prop
from .specs import KEY, LIGHT, Chain, stamps

MODE = ('full', 'chk_tasks')
CHAIN = specs.TASK_CHAIN


@st.composite
def chains(draw, names=CHAIN, signed=True, deep=True, reuse=None):
    """A chain all of whose messages are signed as they should be"""
    name = draw(g.pick(names))
    if deep and draw(st.booleans()):
        name = draw(g.pick([n for n in names
                            if n not in ('TaskToCompute',
                                         'ReportComputedTask')] or names))
    if reuse is None:
        reuse = draw(st.booleans())
    chain = Chain(draw, reuse=reuse, signed=signed)
    return chain.make(name), chain.conc


# T01

# there may be two messages side by side in them
WIDE = ('RejectReportComputedTask', 'SubtaskResultsRejected',
        'SubtaskResultsVerify', 'AckSubtaskResultsVerify')


@st.composite
def t01(draw):
    wide = not draw(st.integers(0, 5))
    spec, concent = draw(chains(WIDE) if wide else chains())
    change = st.tuples(
        st.integers(0, 9), g.pick(
            ['resign', 'resign', 'fake', 'none', 'flip', 'stale ts', 'stale',
             'stale', 'other sig', 'header', 'header stale', 'header none',
             'role', 'offer']), KEY, LIGHT)
    changes = draw(st.one_of(
        st.just([]), st.tuples(change).map(list), st.tuples(change).map(list),
        st.lists(change, max_size=3)))
    if wide:
        changes = [('stale', draw(st.integers(0, 9)), draw(KEY),
                    draw(LIGHT))] if draw(st.booleans()) else []
        changes = [(n, how, arg, v) for how, n, arg, v in changes]
        changes.append((0, 'twin', draw(KEY), None))
    keys = draw(st.tuples(*[g.pick(
        [None, 'right', 'right', 'right', 0, 1, 2, ('like', 0)])] * 2))
    keys = tuple((draw(g.pick(['cut', 'cut', 'long', 'end', 'twice', 'front',
                               'bit', 'other case'])),
                  draw(g.pick([1, 1, 2, 31, 32, 63])))
                 if isinstance(k, tuple) else k for k in keys)
    if not draw(g.pick([0, 1, 1, 1, 1, 1])):
        concent = draw(KEY)
    return spec, changes, concent, keys, draw(st.booleans())


@prop('T01', *MODE, quick=1800,
      rule='a case is a chain of task messages, properly signed, with up to '
           'three of its messages forged, and the keys it is checked with; '
           'non-trivial: at least one message is nested in another')
def _():
    return [Kind('chain', t01)]


# T02

@prop('T02', *MODE, quick=4000,
      rule='a case is a chain of task messages, some without the optional '
           'ones or without ids; non-trivial: at least one message is nested '
           'in another')
def _():
    drop = st.tuples(st.integers(0, 9), g.pick(
        ['slot', 'slot', 'slot', 'ctd', 'task_id', 'subtask_id',
         'requestor_id', 'provider_id']), st.integers(0, 5))
    # several messages to look at, of different tasks
    wide = [n for n in CHAIN if len(proto.BY_NAME[n].chain) > 1]
    return [
        Kind('accessors', lambda: st.tuples(
            specs.specs(names=CHAIN), st.one_of(
                st.just([]), st.lists(drop, max_size=3)), st.booleans()), 7),
        Kind('order', lambda: st.tuples(
            specs.specs(names=wide, reuse=False), st.one_of(
                st.just([]), st.tuples(drop).map(list)), st.booleans()), 1),
        Kind('last', lambda: st.tuples(
            specs.specs(names=wide, reuse=False), st.tuples(st.tuples(
                st.just(0), st.just('first'), st.integers(0, 1))).map(list),
            st.just(False)), 0.5)]


# T03

SHAPES = g.pick(['upper', 'bare', 'braces', 'urn', 'short', 'long', 'empty',
                 'letter', 'node', 'same', 'last', 'first node', 'other time',
                 'space'])


@st.composite
def offers(draw):
    chain = Chain(draw, signed=True)
    return chain.make('TaskToCompute')


@prop('T03', *MODE, quick=7000,
      rule='a case is an offer (TaskToCompute) with the ids, the ethereum '
           'signature, the keys or the demand in it altered, or one that is '
           'signed; non-trivial: something was altered, or it is signed')
def _():
    ids = g.pick(['task_id', 'subtask_id'])
    n = st.integers(0, 2**80 - 1)
    change = st.one_of(
        st.tuples(ids, SHAPES, LIGHT), st.tuples(ids, KEY, n),
        st.tuples(g.pick(['requestor_id', 'prefix id', 'ethsig',
                          'ethsig junk', 'eth key', 'offer', 'offer',
                          'offer sig']), KEY, LIGHT),
        st.tuples(st.just('ttc'), KEY, LIGHT))
    return [
        Kind('offer', lambda: st.tuples(
            offers(), st.one_of(st.tuples(change).map(list),
                                st.lists(change, max_size=2)), KEY,
            st.booleans()), 4),
        Kind('sign', lambda: st.tuples(
            offers(), KEY, KEY, st.booleans()).flatmap(
            lambda t: g.pick([t, t[:2] + (t[1],) + t[3:]])), 1)]


# T04

@prop('T04', *MODE, quick=5000,
      rule='a case is a message with promissory notes, who signs which of '
           'them and what is altered before they are verified, or a note of '
           'its own; all of them are non-trivial')
def _():
    contract = st.one_of(
        KEY.map(lambda i: ('addr', i)),
        st.binary(min_size=20, max_size=20).map(lambda x: '0x' + x.hex()))
    change = st.tuples(g.pick(
        ['nothing', 'nothing', 'nothing', 'price', 'price', 'subtask',
         'provider', 'requestor', 'task', 'sig', 'v', 'as tuple',
         'crossed']), KEY, st.one_of(g.ints(0, 2**256 - 1), st.none()))
    host = specs.specs(names=['TaskToCompute', 'SubtaskResultsVerify'],
                       signed=True)
    who = st.one_of(st.none(), st.none(), KEY)
    two = st.one_of(contract.map(lambda c: (c, c)),
                    contract.map(lambda c: (c, c)),
                    st.tuples(contract, contract))
    return [
        Kind('note', lambda: st.tuples(
            host, g.pick(['provider', 'concent']), who, two, change,
            st.booleans()).map(
            lambda t: t[:3] + t[3] + t[4:]), 4),
        Kind('all', lambda: st.tuples(
            offers(), KEY, contract,
            g.pick(['none', 'none', 'missing provider', 'missing concent',
                    'crossed provider', 'crossed concent', 'other provider',
                    'other concent'])).flatmap(
            lambda t: g.pick([t, (
                t[0], t[0]['s']['requestor_ethereum_public_key'][1],
                t[2], t[3])])), 1),
        Kind('direct', lambda: st.tuples(
            KEY, KEY, contract, g.ints(0, 2**256 - 1),
            st.integers(0, 2**80 - 1), contract,
            g.pick([3, 3, 3, 1, 2, 4, 5]), st.one_of(
                st.none(),
                st.tuples(g.pick(['address_to', 'contract_address',
                                  'address_from']), contract),
                st.tuples(st.just('amount'), g.ints(0, 2**256 - 1)),
                st.tuples(st.just('subtask_id'),
                          st.integers(0, 2**80 - 1)))).flatmap(
            lambda t: g.pick([t, (t[0], t[0]) + t[2:]])), 2)]


# T05

@prop('T05', *MODE, quick=4000,
      rule='a case is a message with rules about its content (payment time, '
           'reason, tasks in common), kept or broken; non-trivial: all but '
           'messages without rules')
def _():
    around = g.pick([0, 900])
    delta = st.one_of(
        st.tuples(around, st.integers(-3, 3)).map(sum), g.ints(-2000, 3000),
        st.integers(0, 900), g.ints(-10**9, 10**9),
        st.tuples(around, g.pick([-0.5, 0.5, 0.001])).map(sum),
        # close to it by the lower bits
        st.tuples(g.pick([1, -1]), st.integers(10, 40),
                  st.integers(-3, 903)).map(
                      lambda t: t[0] * 2 ** t[1] + t[2]),
        st.tuples(st.just('at'), g.pick(
            [0, 0, 1, -1, 900, 2**31, 2**32, 2**63, 0.0, 10**18, -10**9])))
    reasons = [n for n, _ in
               proto.BY_NAME['SubtaskResultsRejected'].enums['reason']]

    @st.composite
    def rejected(draw):
        chain = Chain(draw, signed=True)
        spec = chain.make('SubtaskResultsRejected')
        failed = draw(st.booleans())
        failed = chain.common('ForceGetTaskResultFailed') if failed else None
        change = draw(st.one_of(st.just([]), st.lists(st.tuples(
            g.pick(['task_id', 'subtask_id', 'deadline', 'swap']),
            st.one_of(st.integers(0, 2**80 - 1), st.none())), max_size=2)))
        return (spec, draw(g.pick(reasons + reasons + [None])), failed,
                change, draw(st.booleans()), draw(way))
    way = st.tuples(g.pick([False, False, True]), g.pick([False, True]), KEY,
                    KEY)
    verdict = st.one_of(st.none(), st.tuples(
        g.pick(['ts', 'sig', 'task_id', 'offer', 'offer sig', 'report',
                'package_hash', 'resources_options']), KEY), st.tuples(
        g.pick(['price', 'size', 'package_hash', 'price', 'size']),
        st.integers(0, 10)))
    return [
        Kind('accepted', lambda: st.tuples(
            specs.specs(names=['SubtaskResultsAccepted']), delta,
            stamps(), way), 3),
        Kind('rejected', rejected, 3),
        Kind('verdict', lambda: st.tuples(
            specs.specs(names=['VerdictReportComputedTask'], signed=True),
            verdict, way), 2),
        Kind('others', lambda: specs.specs(names=CHAIN), 0.5)]


# T06

MIXED = LIGHT
HEADER_VALUES = {
    'mask': st.one_of(g.fixed(32), g.raw(40), g.fixed(31), MIXED),
    'timestamp': st.one_of(g.ints(), MIXED),
    'signature': st.one_of(g.fixed(65), g.raw(70), MIXED),
    'task_id': st.one_of(g.text(140), g.text(140, 120), MIXED),
    'task_owner': st.one_of(node_kw(), MIXED, st.tuples(
        node_kw(), g.pick(['prv_addr', 'pub_addr']), bad_ip()).map(
        lambda t: dict(t[0], **{t[1]: t[2]})), st.just({'x': 1})),
    'deadline': st.one_of(g.ints(), MIXED),
    'subtask_timeout': st.one_of(g.ints(-3, 3), g.ints(), MIXED),
    'market_type': st.one_of(g.pick(
        ['Brass', 'Usage', 'brass', 'BRASS', '', 'Brass ', 'Usag']), MIXED),
    'environment': st.one_of(g.text(140), g.text(140, 120), MIXED),
    'environment_prerequisites': st.one_of(
        st.dictionaries(g.KEYS, g.values(2), max_size=2), MIXED),
    'min_version': st.one_of(good_version(), g.pick(
        ['1', '1.0', '1.0.0.0', '', 'x', '1.0.x', '01.0.0', 'v1.0.0']),
        MIXED),
    'estimated_memory': st.one_of(g.ints(), MIXED),
    'max_price': st.one_of(g.ints(), MIXED),
    'subtask_budget': st.one_of(g.ints(), MIXED),
    'subtasks_count': st.one_of(g.ints(-2, 3), g.ints(), MIXED),
    'concent_enabled': st.one_of(st.booleans(), MIXED),
}
REQUIRED = ['task_id', 'task_owner', 'subtasks_count', 'min_version',
            'timestamp']
VALID = {
    'mask': g.fixed(32), 'timestamp': g.ints(), 'task_id': g.text(128),
    'task_owner': node_kw(), 'deadline': g.ints(),
    'subtask_timeout': g.ints(0), 'market_type': g.pick(['Brass', 'Usage']),
    'environment': g.text(128), 'environment_prerequisites':
    st.dictionaries(g.KEYS, g.values(2), max_size=2),
    'min_version': good_version(), 'estimated_memory': g.ints(),
    'max_price': g.ints(), 'subtask_budget': g.ints(),
    'subtasks_count': g.ints(1), 'concent_enabled': st.booleans(),
    'signature': st.one_of(st.just(b''), g.fixed(65), g.fixed(64),
                           g.raw(70)),
}


@prop('T06', *MODE, quick=10000,
      rule='a case is a task header with one field missing, of another type '
           'or at a boundary, or a signed header one of whose fields is '
           'altered; non-trivial: it is signed, or a field was changed')
def _():
    names = sorted(HEADER_VALUES)
    change = st.one_of(
        g.pick(names).flatmap(lambda k: st.tuples(
            st.just('value'), st.just(k), HEADER_VALUES[k])),
        g.pick(names).flatmap(lambda k: st.tuples(
            st.just('value'), st.just(k), HEADER_VALUES[k])),
        st.tuples(st.just('missing'), g.pick(names + REQUIRED * 2),
                  st.none()),
        st.tuples(st.just('none'), g.pick(names + REQUIRED * 2), st.none()),
        st.tuples(st.just('unknown'), g.pick(
            ['x', 'fixed_header', 'Mask', 'resource_size']), LIGHT))
    altered = g.pick(names).flatmap(
        lambda k: st.tuples(st.just(k), VALID[k]))
    return [
        Kind('fields', lambda: st.tuples(
            specs.header_kw(), g.opt(change, 5)), 3),
        Kind('near', lambda: st.tuples(
            specs.header_kw(), g.pick(names), g.pick(
                ['type', 'type', 'before', 'after', 'case', 'empty', 'wrap']),
            st.integers(0, 20)), 2),
        Kind('sign', lambda: st.tuples(
            specs.header_kw(), KEY, g.opt(altered, 4), KEY), 2)]


# T07

@prop('T07', *MODE, quick=12000,
      rule='a case is the description of a file, a token with up to four '
           'files, or one with a malformed file; non-trivial: there is a '
           'file with a field')
def _():
    value = st.one_of(LIGHT, g.pick(['results', 'resources', 'Results', '',
                                     'result', 'sources']))
    info = st.dictionaries(
        g.pick(['path', 'checksum', 'size', 'category', 'category', 'name',
                'Category', 'size ']), value, max_size=4)
    def many():
        one = st.fixed_dictionaries({'path': g.text(5), 'category': g.pick(
            ['results', 'resources'])})
        return st.tuples(one, g.ints(4, 300), one).map(
            lambda t: [t[0]] * t[1] + [t[2]])
    good = st.dictionaries(
        g.pick(['path', 'checksum', 'size', 'category']), g.pick(
            ['results', 'resources']), max_size=4)
    return [
        Kind('info', lambda: st.tuples(st.one_of(info, good),
                                       st.booleans()), 2),
        Kind('token', lambda: st.tuples(st.one_of(
            specs.files(), specs.files(), specs.files(),
            many()), g.pick(
            ['upload', 'download', None]), stamps()), 3),
        Kind('bad', lambda: st.tuples(
            g.lists(st.fixed_dictionaries({}, optional={
                'path': g.text(10), 'category': g.pick(
                    ['results', 'resources'])}), 3, 1), st.integers(0, 5),
            g.pick(['category', 'category', 'key', 'file', 'files']),
            value, stamps()), 2)]


# T08

@st.composite
def t08(draw):
    spec, concent = draw(chains(names=[
        n for n in CHAIN if n != 'TaskToCompute'], reuse=True))
    hop = st.tuples(st.booleans(), KEY, st.one_of(
        st.integers(-300, 600), g.pick([-300, 600, 0])))
    plan = draw(st.lists(hop, min_size=1, max_size=7))
    meddle = draw(g.opt(st.tuples(
        st.integers(0, 5), st.one_of(st.just(0), st.integers(0, 9)),
        g.pick(['ts', 'sig', 'slot', 'header']), st.integers(1, 10**6),
        LIGHT), 1))
    return spec, concent, plan, meddle


@prop('T08', *MODE, quick=2400,
      rule='a case is a chain of task messages, who sends each of them to '
           'whom, encrypted or not and how long it takes, and at most one '
           'alteration of what somebody received; non-trivial: the last '
           'message arrived')
def _():
    return [Kind('relay', t08)]

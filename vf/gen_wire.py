"""Cases for the properties of messages on the wire (mode full)."""
import datetime

from hypothesis import strategies as st

from worker import proto

from . import g, specs
from .gen_core import good_version, node_kw
from .registry import Kind, prop
from .specs import KEY, LIGHT, stamps

MODE = ('full', 'chk_wire')


# M01

LISTS = [n for n in specs.ALL if any(
    k in ('msgs', 'headers', 'peers', 'orlist') or k == 'files'
    for _, k in proto.BY_NAME[n].slots)]


def m01_long():
    n = st.one_of(st.integers(4, 70), g.pick([23, 24, 25, 32, 33, 64, 65, 100,
                                              128, 129, 255, 256, 257]))
    return st.tuples(
        specs.specs(names=LISTS), n, st.integers(0, 30),
        st.one_of(KEY, st.none()), st.one_of(st.none(), KEY))


def m01():
    return st.tuples(specs.any_spec(), st.one_of(KEY, st.none()),
                     st.one_of(st.none(), KEY))


@prop('M01', *MODE, quick=6000,
      rule='a case is a message of any registered type with generated slots '
           'and nested messages, who signs it and for whom it is encrypted; '
           'non-trivial: it has at least one slot with a value')
def _():
    return [Kind('trip', m01, 20), Kind('long', m01_long, 1)]


# M02

@prop('M02', *MODE, quick=5000,
      rule='a case is a message of any registered type, as bytes by the '
           'reference implementation and by the library; non-trivial: it has '
           'at least one slot with a value')
def _():
    return [Kind('bytes', specs.any_spec, 10),
            Kind('table', st.sampled_from(sorted(proto.TYPES)), 0.3)]


# M03

@st.composite
def m03(draw):
    spec = draw(specs.unsigned_spec())
    how = draw(g.pick(['none', 'flip', 'flip', 'flip', 'slot', 'slot', 'ts',
                       'type', 'swap', 'other', 'cut', 'tail', 'sig', 'ver',
                       'recovery', 'nested', 'nested']))
    arg = (draw(st.integers(0, 10**6)), draw(st.integers(1, 255)),
           draw(LIGHT))
    return spec, draw(KEY), draw(KEY), how, arg


def m03_hello():
    version = st.tuples(
        g.pick([None, None, None, '2.18.0', '2.18', '2.19.0', '']),
        g.pick(['+x', '+build', '-rc.1', '-0', ' ', '\0', '0', '.0', '', '+']),
        g.pick([True, True, False]))
    return st.tuples(specs.specs(names=['Hello']), KEY, KEY, st.just('ver'),
                     st.tuples(st.just(0), st.just(1), version))


def m03_after():
    return st.tuples(
        specs.specs(names=[n for n in specs.ALL if proto.BY_NAME[n].sign],
                    top_sig=False), KEY, KEY, st.booleans(),
        st.integers(1, 10**6))


def m03_lists():
    """What was signed is all of a list, in its order"""
    return st.tuples(
        specs.specs(names=[n for n in LISTS if proto.BY_NAME[n].sign],
                    top_sig=False), KEY, st.integers(1, 9),
        st.booleans(), st.booleans())


@prop('M03', *MODE, quick=7000,
      rule='a case is a signed message and a change to its bytes, its claimed '
           'time, type, slots, signature or to the key it is checked with; '
           'non-trivial: the type is a signed one and something changed')
def _():
    return [Kind('tamper', m03, 20), Kind('hello', m03_hello, 1),
            Kind('after', m03_after, 1), Kind('lists', m03_lists, 1)]


# M04

def aliases():
    """Types that share most of their bits with a known one"""
    return st.tuples(
        g.pick(sorted(proto.TYPES)), st.integers(0, 15),
        g.pick([0, 0, 0, 1, 2**15])).map(
            lambda t: (t[0] ^ 1 << t[1]) | t[2])


def junk():
    return st.one_of(
        g.raw(600), g.raw(600, 77),
        st.tuples(st.one_of(g.ints(0, 65535, extra=proto.TYPES), aliases()),
                  st.one_of(g.ints(0, 2**64 - 1), g.ints(
                      specs.MIN_TS + 1, specs.MAX_TS - 1)),
                  st.integers(0, 255), g.raw(300)))


HOSTILE = st.one_of(
    LIGHT, g.values(3), g.pick([
        None, [], [False, None], [True, []], [True, None], [False, []],
        [True, [None]], [False, [[2002, 1, False], None, []]],
        [[2001, 5, False], None, []], [[9, 9, 9], b'', 7], '0x', 'zz',
        'ff' * 63, 'ff' * 64, 'FF' * 65, b'\0' * 65, {'task_id': 1}, {},
        [['a']], [{}], [None], -1, 2**70, 10**400, -10**400, float('inf'), float('nan'),
        float('-inf')]))


FALSY = g.pick([None, False, 0, 0.0, '', b'', [], {}, [None], [[]], [{}],
                {'': None}, -0.0])


@st.composite
def hostile(draw):
    spec = draw(specs.any_spec())
    edits = draw(st.lists(st.tuples(
        g.pick(['set', 'set', 'set', 'drop', 'add', 'dup', 'order', 'key',
                'wrap', 'slot', 'slot']),
        st.integers(0, 10**6), st.one_of(HOSTILE, FALSY)),
        min_size=1, max_size=3))
    return (spec, edits, draw(st.one_of(st.none(), KEY)),
            draw(g.pick(['keep', 'keep', 'resign'])))


def m04_deep():
    return st.tuples(
        specs.specs(names=[n for n in specs.ALL if len(
            proto.BY_NAME[n].slots) < 24]),
        g.pick([b'\x81', b'\x9f', b'\xa1\0', b'\xa1', b'\xbf\x61a', b'\xc0',
                b'\xd8\x40', b'\x82\0', b'\x82\xf5\x81']),
        st.one_of(g.pick([0, 1, 300, 900, 1000, 1100, 5000, 20000]),
                  st.integers(2, 3000)),
        g.pick([b'\0', b'', b'\x80', b'\x5b' + b'\xff' * 8, b'\x7f', b'\xf6',
                b'\x7b' + b'\x7f' * 8, b'\x9b' + b'\xff' * 8,
                b'\xbb' + b'\x7f' * 8, b'\x9a\x7f\xff\xff\xff', b'\xff',
                b'\xc2\x44\xff\xff\xff\xff', b'\xfb' + b'\xff' * 8]),
        g.pick(['payload', 'slot', 'slot', 'nested']), st.booleans(),
        st.integers(0, 30))


STRUCTURED = [n for n in specs.ALL if any(
    k not in ('v', 'int') for _, k in proto.BY_NAME[n].slots)]


def m04_hollow():
    """A slot that should hold something particular"""
    return st.tuples(
        specs.specs(names=STRUCTURED), st.integers(0, 30),
        g.pick([0, 0, 0, 1, 2]), st.integers(0, 10**6),
        st.one_of(FALSY, HOSTILE))


@prop('M04', *MODE, quick=9000,
      rule='a case is a hostile frame: random bytes, a header with random '
           'bytes, or a valid message whose decoded payload was edited at a '
           'random place of its tree or whose bytes were cut or flipped; '
           'non-trivial: the frame is longer than header and signature')
def _():
    return [Kind('junk', junk, 1), Kind('tree', hostile, 5),
            Kind('mangled', st.tuples(
                specs.any_spec(), st.lists(st.tuples(
                    g.pick(['flip', 'cut', 'insert', 'flip']),
                    st.integers(0, 10**6), st.integers(0, 255)),
                    min_size=1, max_size=4)), 2),
            Kind('hollow', m04_hollow, 1),
            Kind('empty', specs.specs(names=STRUCTURED), 0.5),
            Kind('number', st.tuples(st.one_of(specs.any_spec(), specs.specs(
                names=['SubtaskResultsAccepted', 'WantToComputeTask',
                       'TaskToCompute', 'ForcePaymentCommitted'])),
                st.lists(g.pick(
                    [10**400, -10**400, 2**64, -2**64 - 1, float('nan'),
                     1e308, float('inf'), -float('inf'), -1, 0, 2**63, 5e-324,
                     True]), min_size=2, max_size=5, unique=True)), 0.5),
            Kind('deep', m04_deep, 0.5)]


# M05: in gen_crypto

# M07

def months(n, seconds):
    """Some seconds after the beginning of the n-th month since 1970"""
    return int(datetime.datetime(
        1970 + n // 12, n % 12 + 1, 1,
        tzinfo=datetime.timezone.utc).timestamp()) + seconds


def m07():
    delta = st.one_of(
        st.integers(-700, 400), g.ints(-10**8, 10**8),
        g.pick([-602, -601, -600, -599, -1, 0, 1, 299, 300, 301, 302,
                -86400, 86400, -86400 - 300, 86400 + 100, -3600, 3600,
                -86399, 86399]),
        st.tuples(g.pick([1, 7, 28, 29, 30, 31, 365, 366, -1, -7, -28, -29,
                          -30, -31, -365, -366]),
                  st.integers(-700, 700)).map(lambda t: t[0] * 86400 + t[1]),
        # close to nothing by the lower bits
        st.tuples(g.pick([1, 1, 2, 3, -1]), st.integers(10, 34),
                  st.integers(-700, 700)).map(
                      lambda t: t[0] * 2 ** t[1] + t[2]))
    now = st.one_of(
        st.integers(1262304000 + 10**6, 4 * 10**9),
        st.tuples(st.integers(480, 1000), st.integers(-90000, 90000)).map(
            lambda t: months(*t)),
        g.pick([1583020799, 1583020800, 2**31 - 1, 2**31, 2**32, 253402300799
                - 10**6, 1577836799, 1577836800]))
    return st.tuples(specs.specs(names=specs.PLAIN), now, delta,
                     st.one_of(st.booleans(), st.just(True)),
                     g.pick(['', '', 'flag', 'key']))


def m07_header():
    edge = [specs.MIN_TS, specs.MAX_TS, 0, 2**63, 2**64 - 1, 2**31, 2**32,
            253402300799, 253402300800]
    return st.tuples(
        st.one_of(g.ints(0, 2**64 - 1), g.pick(
            sorted({e + d for e in edge for d in (-1, 0, 1)
                    if 0 <= e + d < 2**64}))),
        st.one_of(g.pick(sorted(proto.TYPES)), g.ints(0, 65535), aliases()),
        st.booleans())


@prop('M07', *MODE, quick=14000,
      rule='a case is a message, the receiver\'s clock and the distance '
           'between the two, or a raw header; non-trivial: the time check is '
           'on and the distance is not 0, or a header')
def _():
    real = st.tuples(
        specs.specs(names=specs.PLAIN), st.one_of(
            st.integers(-700, 400), g.ints(-10**8, 10**8), g.pick([
                -3600, 3600, -7200, 7200, -86400, 86400, -500, 250,
                -3300, -4000, 3500, 3800])),
        st.one_of(st.none(), st.tuples(
            st.booleans(), st.integers(-900, 600), st.integers(-11, 11))))
    return [Kind('window', m07, 3), Kind('header', m07_header, 1),
            Kind('real', real, 0.5)]


# M08

def version():
    n = st.one_of(g.small(40), g.ints(0, 10**6), g.pick([17, 18, 19, 2, 1, 3]))
    plain = st.tuples(g.pick([2, 2, 2, 2, 1, 3, 22, 0]),
                      st.one_of(g.pick([18] * 6 + [17, 19, 1, 180, 0]), n),
                      n).map(lambda t: '%d.%d.%d' % t)
    tail = g.pick(['', '', '', '-rc.1', '-0', '-alpha', '+build', '+1.2',
                   '-rc1+x', '-', '+', ' ', '.1', 'x', '\n', '-dev7'])
    return st.one_of(
        st.tuples(plain, tail).map(''.join),
        g.pick(['', '2.18', '2', '2.18.', 'v2.18.0', '02.18.0', '2.18.00',
                '2.19.0-rc.1', '2.18.0-rc.1', '2.18.x', '2.18.0.0', '2,18,0',
                '²', '2.18.-1', '2.19.0-0', ' 2.18.0', '2.18.0\0',
                '*', '==2.18.0', '>=2.18.0', '2.18.0,2.18.1']),
        g.text(31))


def ours():
    return st.tuples(st.one_of(g.small(3), g.small(30)),
                     st.one_of(g.small(30), g.pick([9, 10, 99])),
                     g.small(30),
                     g.pick(['', '', '', '', '-rc.1'])).map(
        lambda t: '%d.%d.%d%s' % t)


@prop('M08', *MODE, quick=18000,
      rule='a case is a greeting by a peer of some version, or two versions '
           'to compare, or a greeting with damaged version bytes; '
           'non-trivial: the two versions differ')
def _():
    near = st.tuples(ours(), st.tuples(
        g.pick([-1, 0, 0, 0, 0, 1]), g.pick([-1, 0, 0, 0, 1, 9]),
        st.one_of(g.pick([-1, 0, 1, 5, 100]), g.small(50)),
        g.pick(['', '', '', '-rc.1', '-0', '+b', '-rc.2+z'])))
    return [Kind('hello', st.tuples(
        specs.specs(names=['Hello']), version(), st.one_of(KEY, st.none())),
        3),
        Kind('pair', near, 2),
        Kind('raw', st.tuples(specs.specs(names=['Hello']), st.one_of(
            g.fixed(32), nearly_right()), st.one_of(
                st.just(0), st.integers(0, 40))), 1)]


def nearly_right():
    """Our version with a byte or two that do not belong there"""
    def spoilt(t):
        n, changes = t
        v = b'2.18.%d' % n
        for at, how, byte in changes:
            at %= len(v) + 1
            v = v[:at] + bytes([byte]) + v[at + (how == 'over'):]
        return bytes([len(v)]) + v + b'\0' * (31 - len(v))
    byte = st.one_of(st.integers(0, 255), st.integers(128, 255))
    return st.tuples(st.integers(0, 20), st.lists(st.tuples(
        st.integers(0, 9), g.pick(['in', 'in', 'over']), byte),
        min_size=1, max_size=2)).map(spoilt)


# M09

def m09_ops():
    return st.lists(st.one_of(
        st.tuples(g.pick(['serialize', 'serialize_signed', 'sign', 'clear',
                          'copy_and_sign', 'reload', 'encrypt', 'nest',
                          'fake', 'verify', 'no luck', 'renew']), KEY),
        st.tuples(st.just('set'), g.fixed(65))),
        min_size=1, max_size=6)


def m09_nest():
    return st.tuples(specs.specs(names=[
        n for n in specs.ALL if proto.BY_NAME[n].nested]), KEY,
        st.booleans())


def m09_shared():
    return st.tuples(
        specs.specs(names=[n for n in specs.ALL if proto.BY_NAME[n].nested
                           and n != 'Hello'], top_sig=False), KEY,
        g.pick(['sign', 'dump', 'crypt']),
        st.lists(st.tuples(
            g.pick(['dump', 'crypt', 'crypt', 'nest', 'copy', 'show',
                    'hash']),
            st.one_of(st.integers(1, 9), st.integers(0, 9)), KEY),
            min_size=1, max_size=5))


@prop('M09', *MODE, quick=5000,
      rule='a case is a history of signing, serializing, copying and nesting '
           'one message, or a message with nested signed messages to relay; '
           'non-trivial: at least two operations, or one nested signature')
def _():
    copying = st.tuples(specs.specs(top_sig=False), KEY, st.lists(
        st.integers(0, 3), max_size=3))
    return [Kind('history', st.tuples(specs.any_spec(), m09_ops()), 2),
            Kind('copy', copying, 1), Kind('shared', m09_shared, 1),
            Kind('relay', m09_nest, 2)]


# M10

def m10():
    """A nested slot and what somebody puts there"""
    slots = [(d.name, s) for d in proto.TYPES.values() for s in d.nested]

    @st.composite
    def case(draw):
        name, slot = draw(g.pick(slots))
        right, none, many = proto.BY_NAME[name].nested[slot]
        chain = specs.Chain(draw)
        outer = chain.make(name)
        what = draw(g.pick(['right', 'none', 'wrong', 'wrong', 'wrong',
                            'liar', 'liar', 'list', 'single', 'junk',
                            'mixed', 'empty', 'stranger']))
        twins = [d.name for d in proto.TYPES.values()
                 if [s for s, _ in d.slots] ==
                 [s for s, _ in proto.BY_NAME[right].slots]
                 and d.name != right]
        other = draw(g.pick([n for n in (twins * 4 + specs.ALL)
                             if n != right]))
        return (outer, slot, what, chain.get(right), chain.make(other),
                draw(HOSTILE))
    return case()


@prop('M10', *MODE, quick=7000,
      rule='a case is a message type with a slot for another message and what '
           'is put there: the right type, another one, nothing, a list, '
           'another type in disguise; non-trivial: not the right type')
def _():
    return [Kind('slot', m10)]


# M11

def m11():
    return st.tuples(
        specs.any_spec(), g.pick(['same', 'same', 'ts', 'sig', 'slot', 'slot',
                                  'part of sig', 'part of sig',
                                  'encrypted', 'class', 'version', 'loaded',
                                  'deep', 'deep', 'order']),
        st.integers(0, 10**6), g.values(2), specs.any_spec())


def m11_greetings():
    # of the same time and content; only the version may differ
    same = st.just(str)
    other = g.pick([
        '%s+dev7', '%s+', '%s-rc1', 'v%s', ' %s', '%s ', '%s.0', '0%s',
        '%s\0', '%s\u0661', '']).map(
            lambda f: lambda v: f % v if '%s' in f else f)
    case = st.tuples(st.one_of(good_version(), g.text(30)), st.one_of(
        same, other, other, st.just(str.upper), st.just(str.swapcase),
        st.just(lambda v: v[:-1]), st.just(lambda v: v + v[-1:]),
        st.just(lambda v: v.partition('+')[0]),
        st.just(lambda v: v.partition('-')[0]))).map(
            lambda t: (t[0], t[1](t[0])))
    return st.tuples(specs.specs(names=['Hello']), case)


@prop('M11', *MODE, quick=5000,
      rule='a case is a message and a second one that is equal or differs in '
           'one thing; non-trivial: something differs')
def _():
    return [Kind('pair', m11, 5), Kind('greetings', m11_greetings, 1)]


# M12

def m12():
    return st.tuples(g.pick(specs.ALL), stamps(), st.one_of(
        st.integers(0, 999999), g.pick(
            [0, 1, 499999, 500000, 500001, 999999])), st.booleans())


def m12_enum():
    slots = [(d.name, s) for d in proto.TYPES.values() for s in d.enums]
    return g.pick(slots).flatmap(lambda t: st.tuples(
        st.just(t[0]), st.just(t[1]), st.one_of(
            g.pick([v for _, v in proto.BY_NAME[t[0]].enums[t[1]]] +
                   [n for n, _ in proto.BY_NAME[t[0]].enums[t[1]]]),
            st.sampled_from([v for d in proto.TYPES.values()
                             for e in d.enums.values() for _, v in e]),
            HOSTILE), stamps()))


def m12_rule():
    return st.one_of(
        st.tuples(st.just('WantToComputeTask'), st.just('cpu_usage'),
                  st.one_of(g.ints(), g.small(3, -3), HOSTILE)),
        st.tuples(st.just('WantToComputeTask'), st.just('num_subtasks'),
                  st.one_of(g.ints(), g.small(3, -3), HOSTILE)),
        st.tuples(st.just('TaskToCompute'), g.pick(['price', 'size']),
                  st.one_of(g.ints(), HOSTILE)),
        st.tuples(st.just('TaskToCompute'), g.pick(['task_id', 'subtask_id']),
                  st.one_of(g.text(130, 126), HOSTILE)),
        st.tuples(st.just('Peers'), st.just('peers'), HOSTILE),
        st.tuples(st.just('Tasks'), st.just('tasks'), HOSTILE),
        st.tuples(g.pick(['Hello', 'SetTaskSession',
                          'WantToStartTaskSession']), st.just('node_info'),
                  st.one_of(HOSTILE, node_kw(), st.tuples(
                      node_kw(), g.pick(['zzz', 'key', 'prv_port']),
                      HOSTILE).map(lambda t: dict(t[0], **{t[1]: t[2]})))))


def m12_list():
    """Something else between the elements of a list"""
    return st.tuples(specs.specs(names=['Tasks', 'Peers']), st.lists(
        st.tuples(st.integers(0, 5), g.pick(['add', 'add', 'set', 'twice',
                                             'lacks', 'extra']),
                  st.one_of(HOSTILE, FALSY)), min_size=1, max_size=2))


def m12_unsendable():
    truthy = HOSTILE.filter(bool)
    node = st.tuples(
        st.just('Hello'), st.just('node_info'), st.one_of(
            truthy, node_kw().filter(bool)), st.booleans())
    slots = g.pick([(n, s) for n in ('SetTaskSession',
                                     'WantToStartTaskSession')
                    for s in ('node_info', 'super_node_info')])
    more = st.tuples(slots, truthy, st.booleans()).map(
        lambda t: t[0] + t[1:])
    tasks = st.tuples(
        st.just('Tasks'), st.just('tasks'),
        truthy.filter(lambda v: not isinstance(v, list)), st.booleans())
    return st.one_of(node, more, tasks)


FALSY = g.pick([0, '', b'', False, [], {}, 0.0, None])


def m12_given():
    """Slots given to the constructor, by name or as a list of slots"""
    def values(name):
        slots = {s: st.one_of(FALSY, LIGHT) for s, k in
                 proto.BY_NAME[name].slots
                 if k in ('v', 'bool', 'orlist', 'pos1', 'nonneg', 'int')}
        return st.tuples(st.just(name), st.fixed_dictionaries(
            {}, optional=slots), g.pick(['kwargs', 'kwargs', 'slots']),
            stamps())
    return g.pick([n for n in specs.ALL if proto.BY_NAME[n].slots]).flatmap(
        values)


@prop('M12', *MODE, quick=20000,
      rule='a case is a bare message and the current time, an enum slot with '
           'a value, or a slot with a rule and a value near its boundary; '
           'non-trivial: every case but a bare message')
def _():
    return [Kind('bare', m12, 1), Kind('enum', m12_enum, 2),
            Kind('rule', m12_rule, 2), Kind('given', m12_given, 2),
            Kind('list', m12_list, 0.3),
            Kind('unsendable', m12_unsendable, 0.7)]

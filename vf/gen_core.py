"""Cases for the properties of modules that need no crypto (mode core)."""
import functools
import ipaddress

from hypothesis import strategies as st

from . import g
from .registry import Kind, prop

MODE = ('core', 'chk_core')
MIXED = st.one_of(g.values(3), st.just(()), st.tuples(st.integers()))

# D01


def octets(hi=255):
    return st.lists(st.integers(0, hi), min_size=4, max_size=4)


@functools.lru_cache(None)
def good_ip():
    v4 = octets().map(lambda o: '.'.join(map(str, o)))
    v6 = st.one_of(
        st.integers(0, 2**128 - 1), st.integers(0, 2**16),
        g.pick([0, 1, 2**128 - 1, 0xfe80 << 112, 0xffff << 32])
    ).map(ipaddress.IPv6Address)
    return st.one_of(
        v4, v6.map(lambda a: a.compressed), v6.map(lambda a: a.exploded),
        v6.map(lambda a: a.compressed.upper()),
        octets().map(lambda o: '::ffff:' + '.'.join(map(str, o))))


@functools.lru_cache(None)
def bad_ip():
    def spoil(t):
        ip, how, n = t
        if how == 'tail':
            return ip + n
        if how == 'head':
            return n + ip
        if how == 'cut':
            return ip.rsplit('.' if '.' in ip else ':', 1)[0] \
                if '.' in ip else ip + ':'
        return ip.replace('.', ',').replace(':', ';')
    junk = g.pick(['/24', ' ', '\n', '.1', ':80', 'x', ']', '.', '..', '/'])
    return st.one_of(
        st.tuples(good_ip(), g.pick(['tail', 'cut', 'sep']), junk).map(spoil),
        st.tuples(good_ip(), st.just('head'),
                  g.pick([' ', '\n', 'x', '[', '.', '-', '/'])).map(spoil),
        st.tuples(octets(), st.integers(0, 3), st.integers(256, 999)).map(
            lambda t: '.'.join(map(str, t[0][:t[1]] + [t[2]] +
                                   t[0][t[1] + 1:]))),
        g.pick(['', 'localhost', '1.2.3', '1.2.3.4.5', 'golem.network', ':',
                ':::', '1::2::3', '12345::', '1:2:3:4:5:6:7:8:9', '1.2.3.-4',
                'g::', '0x7f.0.0.1', '1.2.3.4%', 'None']),
        # the library would take some of these for addresses
        st.one_of(g.ints(0, 2**128 - 1), st.integers(0, 2**32 - 1),
                  g.fixed(4), g.fixed(16), st.booleans(), g.pick([
                      b'1.2.3.4', b'', b'::1', 1.5, [1, 2, 3, 4],
                      ['1.2.3.4'], {'1.2.3.4': 1}, [], {}])))


def ident():
    return st.text('abcdefghijklmnopqrstuvwxyzABCXYZ-0123456789',
                   min_size=1, max_size=6).filter(
        lambda s: s.strip('0123456789') or s == '0' or s[0] != '0')


def good_version():
    nums = st.tuples(*[g.ints(0, 10**9)] * 3).map(
        lambda t: '%d.%d.%d' % t)
    pre = st.lists(ident(), min_size=1, max_size=3).map('.'.join)
    return st.builds(
        lambda n, p, b: n + ('-' + p if p else '') + ('+' + b if b else ''),
        nums, g.opt(pre, 1), g.opt(pre, 1))


def bad_version():
    n = st.integers(0, 99)
    return st.one_of(
        st.tuples(n, n).map(lambda t: '%d.%d' % t),
        n.map(str),
        st.tuples(n, n, n, n).map(lambda t: '%d.%d.%d.%d' % t),
        st.lists(n, min_size=4, max_size=8).map(
            lambda t: '.'.join(map(str, t))),
        st.tuples(n, n, n, g.pick(['%d.%d.%d.', '%d.%d.%d..', '.%d.%d.%d',
                                   '%d.%d.%d+', '%d.%d.%d-a..b', '%d.%d..%d',
                                   '%d.%d.%d-01', '%d.%d.%d\n1'])).map(
            lambda t: t[3] % t[:3]),
        st.tuples(n, n, n).map(lambda t: 'v%d.%d.%d' % t),
        st.tuples(n, n, n).map(lambda t: '%d.%d.-%d' % t),
        st.tuples(n, n, n).map(lambda t: '%d,%d,%d' % t),
        st.tuples(n, n, n).map(lambda t: '0%d.%d.%d' % t),
        st.tuples(n, n, n).map(lambda t: '%d.%d.%d ' % t),
        st.tuples(n, n, n).map(lambda t: ' %d.%d.%d' % t),
        st.tuples(n, n, n).map(lambda t: '%d.%d.%d-' % t),
        g.pick(['', 'x', '1.2.x', '..', '1..2', 'latest', '*', '>=1.0.0']))


def near_len(n):
    return g.stretched(st.text(g.CHARS, min_size=1, max_size=3), n + 2,
                       max(0, n - 2))


def d01_cases():
    v = []
    hi = g.lengths(400)
    v += [hi.flatmap(lambda n: st.tuples(
        st.just('varchar'), st.just(n),
        st.one_of(near_len(n), g.text(), MIXED)))] * 2
    v += [st.tuples(st.just('varchar128'), st.none(),
                    st.one_of(near_len(128), g.text(), MIXED))]
    for name in ('integer', 'positive_integer', 'boolean', 'dict'):
        v.append(st.tuples(st.just(name), st.none(), st.one_of(
            MIXED, g.ints(), st.booleans(), g.ints(-3, 3))))
    v.append(st.tuples(st.just('port'), st.none(), st.one_of(
        g.ints(-10, 70000, extra=range(65530, 65540)), g.ints(), MIXED)))
    v.append(st.tuples(st.just('ipaddress'), st.just('good'), good_ip()))
    v.append(st.tuples(st.just('ipaddress'), st.just('bad'),
                       st.one_of(bad_ip(), st.none())))
    v.append(st.tuples(st.just('version'), st.just('good'), good_version()))
    v.append(st.tuples(st.just('version'), st.just('bad'),
                       st.one_of(bad_version(), st.none(), g.ints())))
    v.append(st.tuples(st.just('fail_unless'), st.booleans(), MIXED))
    return st.tuples(g.text(20), st.one_of(v))


@prop('D01', *MODE, quick=24000,
      rule='a case is a validator, a field name and a value aimed at its '
           'accept/reject boundary; non-trivial: the value is rejected, or '
           'accepted within two of a boundary of the rule or not a constant '
           'such as the empty string')
def d01():
    return [Kind('value', d01_cases)]


# D02

RULES = ['int', 'pos', 'str', 'str3', 'bool', 'dict', 'port']
NAMES = ['a', 'b', 'c', 'key', 'task_id', 'values', 'ITEMS', 'items']


@functools.lru_cache(None)
def valid_for(rule):
    return {
        None: g.values(3), 'int': g.ints(), 'pos': g.ints(1),
        'str': g.text(20), 'str3': g.text(3), 'bool': st.booleans(),
        'dict': st.dictionaries(g.text(3), st.integers(), max_size=3),
        'port': g.ints(1, 65534),
    }[rule]


DICT_NAMES = ['a', 'b', 'c', 'd', 'key', 'task_id', 'x_y', 'é']


@st.composite
def d02_schema(draw):
    names = draw(st.lists(g.pick(DICT_NAMES + ['1', 'None']), unique=True,
                          max_size=5))
    items, rules = {}, {}
    for n in names:
        rule = draw(g.opt(g.pick(RULES), 1))
        rules[n] = rule
        items[n] = draw(st.one_of(valid_for(rule), valid_for(rule),
                                  g.values(3), DEEP))
    return items, rules


DEEP = st.recursive(
    g.pick([[], {}, [1]]), lambda inner: st.one_of(
        st.lists(inner, min_size=1, max_size=2),
        st.dictionaries(g.pick(['x', 'y']), inner, min_size=1)),
    max_leaves=4)


@st.composite
def d02_case(draw):
    items, rules = draw(d02_schema())
    base = draw(g.pick(['frozen', 'both', 'both', 'both', 'validating']))
    names = list(items) + ['zzz', 'update', '']

    def entry(d):
        n = d(g.pick(names + list(items) * 3))
        return n, d(st.one_of(valid_for(rules.get(n)),
                              valid_for(rules.get(n)), g.values(3)))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        what = draw(g.pick(['new', 'new', 'set', 'set', 'set', 'attr', 'poke',
                            'del', 'update', 'setdefault']))
        if what == 'update' and not draw(g.pick([0, 1, 1, 1])):
            ops.append((what, 'ior', [entry(draw) for _ in range(
                draw(st.integers(0, 3)))], []))
        elif what in ('new', 'update'):
            ops.append((what, draw(g.pick(
                ['none', 'dict', 'dict', 'pairs', 'pairs', 'iter', 'ordered',
                 'mapping', 'keys'])),
                        [entry(draw) for _ in range(draw(st.integers(0, 3)))],
                        [entry(draw) for _ in range(draw(st.integers(0, 2)))]))
        elif what in ('set', 'attr', 'setdefault'):
            ops.append((what,) + entry(draw))
        elif what == 'poke':
            ops.append((what, draw(g.pick(names)), draw(st.integers(0, 2))))
        else:
            ops.append((what, draw(g.pick(names))))
    return base, items, rules, ops, draw(g.pick(
        [None, None, None, 'plain', 'split', 'mixin']))


def d02_defaults():
    """Defaults are never shared, at any depth"""
    names = ['a', 'b', 'c']
    op = st.one_of(
        st.tuples(st.just('poke'), g.pick(names), st.integers(0, 3)),
        st.tuples(st.just('new'), st.just('dict'), st.lists(
            st.tuples(g.pick(names), DEEP), max_size=1), st.just([])))
    return st.tuples(
        g.pick(['frozen', 'both']),
        st.fixed_dictionaries({n: DEEP for n in names}),
        st.just({}), st.lists(op, min_size=2, max_size=8).map(
            lambda ops: [('new', 'none', [], [])] + ops))


@prop('D02', *MODE, quick=16000,
      rule='a case is a dict class (allowed keys, defaults, validators) and a '
           'history of constructions, assignments and mutations of default '
           'values; non-trivial: at least one construction that succeeds and '
           'one further operation')
def d02():
    return [Kind('history', d02_case, 3), Kind('defaults', d02_defaults, 1),
            Kind('stats', d02_stats, 1),
            Kind('peer', d02_peer, 1)]


def d02_stats():
    fields = {'BlockIoEntry': ['major', 'minor', 'op', 'value'],
              'CpuUsage': ['percpu_usage', 'total_usage',
                           'usage_in_kernelmode', 'usage_in_usermode'],
              'ThrottlingData': ['periods', 'throttled_periods',
                                 'throttled_time'],
              'MemoryData': ['failcnt', 'limit', 'max_usage', 'usage']}
    return g.pick(sorted(fields)).flatmap(lambda n: st.tuples(
        st.just(n), st.lists(st.tuples(
            g.pick(fields[n] * 3 + ['other', 'data']), g.values(3)),
            max_size=6)))


def d02_peer():
    return st.lists(st.tuples(
        g.pick(['address', 'port', 'node', 'other']),
        st.one_of(good_ip(), bad_ip(), g.ints(-1, 65537), st.none(),
                  st.fixed_dictionaries({'key': g.text(5)}))), max_size=6)


# D03

HOOKS = [None, None, None, None, 'list', 'hex', 'plus', 'enum', 'number',
         'level']


@functools.lru_cache(None)
def hooked_valid(rule, hook):
    if hook == 'hex':
        return g.raw(20).map(lambda b: b.hex())
    if hook == 'plus':
        return g.ints()
    if hook == 'enum':
        return g.pick(['Red', 'green'])
    if hook == 'level':
        return g.pick([0, 1])
    if hook == 'number':
        return g.pick([1, 2])
    if hook == 'list':
        return st.lists(st.integers(), max_size=3)
    return valid_for(rule)


@st.composite
def d03_case(draw):
    names = draw(st.lists(g.pick(DICT_NAMES[:-1] + ['value', 'mask']),
                          unique=True, max_size=6))
    schema, kwargs, again = [], [], []
    for n in names:
        hook = draw(g.pick(HOOKS))
        rules = [] if hook else draw(st.lists(g.pick(RULES), max_size=2))
        default = draw(g.opt(g.pick(['list', 'dict', 'seven']), 1))
        schema.append((n, rules, draw(st.booleans()), default, hook))
        for out in (kwargs, again):
            if draw(g.pick([1, 1, 1, 0])):
                rule = rules[0] if rules else None
                out.append((n, draw(st.one_of(
                    hooked_valid(rule, hook), hooked_valid(rule, hook),
                    hooked_valid(rule, hook), st.none(),
                    g.values(3) if not hook else st.none()))))
    extra = draw(st.lists(st.tuples(g.pick(['zzz', 'other', 'to_dict']),
                                    g.values(2)), max_size=1))
    kwargs = draw(st.permutations(kwargs))
    return schema, list(kwargs) + draw(g.pick([[], [], extra])), again


@prop('D03', *MODE, quick=14000,
      rule='a case is a container class (fields, validators, required set, '
           'default factories, conversions) and the fields of two instances; '
           'non-trivial: at least two fields and one of them given')
def d03():
    return [Kind('schema', d03_case, 2), Kind('node', d03_node, 1)]


@functools.lru_cache(None)
def port():
    return st.one_of(g.ints(1, 65534), g.pick([1, 2, 1024, 40102, 65534]))


NODE_FIELDS = {
    'node_name': g.text(300), 'key': g.text(128),
    'prv_port': port(), 'pub_port': port(), 'p2p_prv_port': port(),
    'p2p_pub_port': port(), 'prv_addr': good_ip(), 'pub_addr': good_ip(),
    'prv_addresses': g.lists(good_ip(), 4),
    'hyperdrive_prv_port': g.ints(), 'hyperdrive_pub_port': g.ints(),
    'port_statuses': st.dictionaries(g.text(8), g.text(8), max_size=3),
    'nat_type': g.lists(g.text(8), 3),
}


def node_kw():
    """Fields of a valid node; None stands for an unknown one"""
    return g.shuffled(g.subset({k: g.opt(v) if k not in (
        'prv_addresses', 'port_statuses', 'nat_type') else g.opt(v, 9)
        for k, v in NODE_FIELDS.items()}))


def d03_node():
    bad = {'node_name': MIXED, 'key': st.one_of(near_len(128), MIXED),
           'prv_port': g.ints(-2, 70000), 'pub_port': MIXED,
           'p2p_pub_port': g.pick([0, 65536, True, '80', -1, 1.0]),
           'prv_addr': bad_ip(), 'pub_addr': bad_ip(),
           'hyperdrive_prv_port': MIXED, 'unknown': MIXED,
           'address': good_ip()}
    one = g.pick(sorted(bad)).flatmap(
        lambda k: st.tuples(st.just(k), bad[k]))
    return st.tuples(node_kw(), g.opt(one, 1))


# D04


def d04_ops():
    n = st.one_of(g.ints(0, 300), g.small(5), g.ints(-5, 520), g.ints())
    mask = st.one_of(g.fixed(32), g.pick([b'\0' * 32, b'\xff' * 32]),
                     st.sets(st.integers(0, 255), max_size=8).map(
                         lambda s: sum(1 << b for b in s).to_bytes(32, 'big')))
    return st.lists(st.one_of(
        st.tuples(st.just('bytes'), mask),
        st.tuples(st.just('bits'), st.sets(st.one_of(
            st.integers(0, 255), g.pick([0, 7, 8, 254, 255])), max_size=40)),
        st.tuples(st.just('generate'), n),
        st.tuples(st.just('increase'), n),
        st.tuples(st.just('increase'), n),
        st.tuples(st.just('decrease'), n),
        st.tuples(st.just('decrease'), n),
        st.tuples(st.just('dict'), mask),
        st.tuples(st.just('default'), st.none()),
        st.tuples(st.just('again'), st.none()),
        st.tuples(st.just('matches'), st.one_of(g.raw(70), g.raw(700))),
    ), min_size=1, max_size=9)


def d04_task():
    n = st.one_of(g.ints(1, 2**20), g.small(40, 1),
                  st.integers(0, 20).map(lambda k: 1 << k))
    pair = st.one_of(
        st.tuples(n, n),
        st.tuples(n, st.integers(0, 12), st.integers(-2, 2)).map(
            lambda t: (t[0], min(2**26, max(0, (t[0] << t[1]) + t[2])))),
        st.tuples(n, g.ints(-5, 5)),
        # huge ones: a power of two apart, or far from one
        st.tuples(n, st.integers(20, 300), g.pick([2, 3])).map(
            lambda t: (t[0], t[2] * t[0] << t[1] - 1)))
    return pair


@prop('D04', *MODE, quick=24000,
      rule='a case is a history of mask operations, a pair of worker counts, '
           'or a bit count to sample; non-trivial: a mask with 1 to 255 bits '
           'was changed or matched, or more workers than desired')
def d04():
    return [Kind('history', d04_ops, 5), Kind('task', d04_task, 4),
            Kind('spread', st.tuples(
                g.pick(['generate', 'increase', 'decrease']),
                st.integers(100, 156), st.integers(0, 10**6)), 0.05),
            Kind('reach', st.tuples(
                g.pick(['generate', 'increase', 'decrease']),
                st.one_of(st.integers(1, 256), g.pick([2, 8, 255, 256])),
                g.pick([1, 1, 2, 3, 8, 200, 255]), st.integers(0, 10**6)),
                0.03)]


# D05


NEAR = st.tuples(
    st.sampled_from(sorted(NODE_FIELDS)),
    g.pick(['none', 'empty', 'reverse', 'reverse', 'twice', 'drop', 'case',
            'more', 'other', 'absent']),
    st.integers(0, 10**6))


def d05_case():
    return st.tuples(node_kw(), node_kw(), st.one_of(
        st.booleans(), st.lists(NEAR, min_size=1, max_size=2)))


def d05_peer():
    kw = st.fixed_dictionaries({
        'address': good_ip(), 'port': port(), 'node': node_kw()})
    return st.tuples(kw, st.booleans(), st.booleans())


@prop('D05', *MODE, quick=16000,
      rule='a case is a pair of nodes or a peer, with any subset of the '
           'fields known; non-trivial: at least two fields are given')
def d05():
    return [Kind('node', d05_case, 2), Kind('peer', d05_peer, 1)]


# D06

COUNT = g.ints(0, 2**70)


def memory_data():
    return st.one_of(
        g.subset({k: COUNT for k in ('failcnt', 'limit', 'max_usage',
                                     'usage')}),
        st.dictionaries(g.text(5), g.values(2), max_size=2))


def stats_kw():
    entry = st.one_of(
        g.subset({'major': COUNT, 'minor': COUNT, 'op': g.opt(g.text(6)),
                  'value': COUNT}),
        st.dictionaries(g.text(5), g.values(2), max_size=2))
    from_slots = ('io_merged_recursive', 'io_queue_recursive',
                  'io_service_bytes_recursive', 'io_service_time_recursive',
                  'io_serviced_recursive', 'io_time_recursive',
                  'io_wait_time_recursive', 'sectors_recursive')
    return g.shuffled(g.subset({
        'blkio_stats': g.opt(g.subset({k: g.opt(entry) for k in from_slots})),
        'cpu_stats': g.opt(g.subset({
            'cpu_usage': g.opt(g.shuffled(g.subset({
                'percpu_usage': st.one_of(
                    g.lists(COUNT, 6), g.lists(COUNT, 6), g.lists(COUNT, 6),
                    st.tuples(COUNT, g.ints(7, 1100)).map(
                        lambda t: [t[0]] * (t[1] - 1) + [0])),
                'total_usage': COUNT,
                'usage_in_kernelmode': COUNT,
                'usage_in_usermode': COUNT}))),
            'throttling_data': g.opt(g.shuffled(g.subset({
                'periods': COUNT, 'throttled_periods': COUNT,
                'throttled_time': COUNT}))),
        })),
        'memory_stats': g.opt(g.subset(dict(
            {k: g.opt(memory_data()) for k in (
                'kernel_tcp_usage', 'kernel_usage', 'swap_usage', 'usage')},
            cache=g.opt(COUNT),
            stats=g.opt(st.dictionaries(g.text(8), COUNT, max_size=3)),
            use_hierarchy=g.opt(st.booleans())))),
        'pids_stats': g.opt(g.subset({'current': g.opt(COUNT),
                                      'limit': g.opt(COUNT)})),
    }))


def d06_bad():
    """A path into the statistics and something that must not be there"""
    no_dict = st.one_of(g.ints(), g.text(5), g.lists(st.integers(), 2),
                        st.booleans(), g.floats(), g.raw(4))
    no_int = st.one_of(g.text(5), st.booleans(), g.floats(), g.raw(4),
                       g.lists(st.integers(), 2))
    no_bool = st.one_of(g.ints(), g.text(5), g.floats())
    leaf = {
        'blkio_stats': no_dict, 'cpu_stats': no_dict,
        'memory_stats': no_dict, 'pids_stats': no_dict, 'other': g.values(2),
        'blkio_stats.io_time_recursive': no_dict,
        'blkio_stats.sectors_recursive': no_dict,
        'blkio_stats.other': g.values(2),
        'cpu_stats.cpu_usage': no_dict, 'cpu_stats.throttling_data': no_dict,
        'cpu_stats.other': g.values(2),
        'cpu_stats.cpu_usage.other': g.values(2),
        'cpu_stats.throttling_data.other': g.values(2),
        'memory_stats.usage': no_dict, 'memory_stats.swap_usage': no_dict,
        'memory_stats.kernel_usage': no_dict,
        'memory_stats.kernel_tcp_usage': no_dict,
        'memory_stats.cache': no_int, 'memory_stats.stats': no_dict,
        'memory_stats.use_hierarchy': no_bool,
        'memory_stats.other': g.values(2),
        'pids_stats.current': no_int, 'pids_stats.limit': no_int,
        'pids_stats.other': g.values(2),
    }
    return g.pick(sorted(leaf)).flatmap(
        lambda p: st.tuples(st.just(p), leaf[p]))


@prop('D06', *MODE, quick=14000,
      rule='a case is a (partial) statistics record, or one with a wrong '
           'field somewhere; non-trivial: at least one of the four groups '
           'is present and not empty')
def d06():
    return [Kind('roundtrip', st.tuples(stats_kw(), stats_kw()), 2),
            Kind('bad', st.tuples(stats_kw(), d06_bad()), 1)]


# D07


def d07_ops():
    t = st.one_of(g.small(6), g.ints(0, 65535), g.ints())
    return st.lists(st.one_of(
        st.tuples(st.just('register'), t, st.integers(0, 30)),
        st.tuples(st.just('get'), t, st.integers(0, 30)),
        st.tuples(st.just('other'), t, st.integers(0, 30)),
    ), min_size=1, max_size=25)


@prop('D07', *MODE, quick=24000,
      rule='a case is a history of registrations and look-ups on one or two '
           'registers; non-trivial: at least two registrations')
def d07():
    return [Kind('history', d07_ops)]


# D08


def deep():
    return st.tuples(st.integers(1, 60), g.values(2), st.booleans())


def long():
    """The lengths that take other headers, and what is at the end"""
    unit = st.one_of(
        g.pick([b'x', b'\0', b' ', b'\xff', b'\n', 'x', 'é', '\U0001f600', '0']),
        st.tuples(st.integers(0, 300)).map(list), st.just([None]))
    size = st.one_of(
        g.pick([23, 24, 255, 256, 4095, 4096, 16384, 65535, 65536, 70000]),
        st.integers(0, 5000))

    def make(t):
        one, n, end, d = t
        tail = {bytes: bytes([end]), str: chr(end), list: [end]}[type(one)]
        value = one * max(0, n + d) + tail
        return {'a': value} if d == 1 else [value, 0] if d == 2 else value
    return st.tuples(unit, size, g.pick([0, 1, 9, 10, 32, 127, 255]),
                     st.integers(-2, 2)).map(make)


def broken_bytes():
    head = st.integers(0, 255).map(lambda b: bytes([b]))
    return st.one_of(
        st.binary(max_size=30),
        st.lists(st.one_of(head, g.pick([
            b'\x9f', b'\xbf', b'\xff', b'\xf7', b'\xc0', b'\xc1', b'\xd8\x23',
            b'\x5b' + b'\xff' * 8, b'\x1b' + b'\xff' * 8,
            b'\xc2\x41\x01', b'\xc2\x01', b'\x80', b'\xa1', b'\x62\xff\xfe',
            b'\xf9\x7e\x00', b'\xf8\x20', b'\x7f', b'\xd9\xd9\xf7'])),
            max_size=12).map(b''.join),
        st.tuples(head, st.integers(1, 3000)).map(lambda t: t[0] * t[1]))


@prop('D08', *MODE, quick=18000,
      rule='a case is a value, a value with something unserializable inside, '
           'or bytes; non-trivial: a container, or a scalar of at least two '
           'encoded bytes, or bytes that are not a complete item')
def d08():
    return [
        Kind('value', st.one_of(
            g.values(8), g.lists(g.values(2), 300),
            st.dictionaries(g.KEYS, g.values(3), max_size=40)), 4),
        Kind('long', long, 0.3),
        Kind('deep', deep, 1),
        Kind('unserializable', st.tuples(
            g.pick(['object', 'set', 'complex', 'class', 'function', 'range',
                    'cycle', 'decimal', 'surrogate', 'surrogate']),
            st.lists(g.pick(['list', 'dict', 'tuple']), max_size=4),
            g.values(2)), 1),
        Kind('bytes', broken_bytes, 2),
        Kind('mutated', st.tuples(g.values(5), st.integers(0, 10**6),
                                  st.integers(0, 255),
                                  g.pick(['flip', 'cut', 'add'])), 2),
    ]


# D09


@prop('D09', *MODE, quick=16000,
      rule='a case is a class of error and what it is raised with; '
           'non-trivial: a field error with a field or a value')
def d09():
    return [Kind('error', st.tuples(
        st.integers(0, 30), st.lists(g.text(), max_size=2),
        g.opt(st.tuples(g.text(20)), 2), g.opt(st.tuples(g.values(3)), 2)))]

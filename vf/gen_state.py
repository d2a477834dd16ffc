"""Histories over many messages, and threads (mode full)."""
from hypothesis import strategies as st

from worker import proto

from . import g, specs
from .gen_wire import HOSTILE, LISTS, STRUCTURED
from .registry import Kind, prop
from .specs import KEY

MODE = ('full', 'chk_state')


@prop('M13', *MODE, quick=3960,
      rule='a case is a history of building, receiving, relaying and altering '
           'messages and of failing to; non-trivial: a message was altered '
           'or refused while others existed')
def _():
    n = st.integers(0, 30)
    op = st.one_of(
        st.tuples(g.pick(['build', 'load', 'relay', 'dump', 'look']), n, n),
        st.tuples(st.just('spoil'), n, n), st.tuples(st.just('spoil'), n, n),
        st.tuples(g.pick(['cut', 'flip', 'junk arg', 'break', 'break']), n,
                  st.integers(0, 400)))
    make = st.tuples(g.pick(['build', 'load']), n, n)

    @st.composite
    def twins(draw):
        name = draw(g.pick(specs.ALL))
        one = specs.Chain(draw)
        one.sparse = draw(g.pick([0, 1, 1]))
        two = specs.Chain(draw)
        two.sparse = draw(g.pick([0, 1, 1]))
        first = one.make(name)
        kind = draw(g.pick(['same', 'same', 'class', 'class', 'any']))
        second = first if kind == 'same' else two.make(
            name if kind == 'class' else draw(g.pick(specs.ALL)))
        how = g.pick(['build', 'load'])
        return first, second, (draw(how), draw(how))
    return [Kind('history', lambda: st.tuples(
        st.one_of(specs.any_spec().map(lambda s: [s]),
                  st.lists(specs.any_spec(), min_size=2, max_size=3)),
        st.tuples(st.lists(make, min_size=1, max_size=3),
                  st.lists(op, min_size=2, max_size=12)).map(
            lambda t: t[0] + t[1]), KEY), 1), Kind('twins', twins, 1),
        Kind('refused', lambda: st.tuples(
            st.one_of(specs.specs(names=LISTS), specs.specs(
                names=STRUCTURED)), st.lists(
                st.tuples(n, st.integers(0, 12000)), min_size=1,
                max_size=12)), 0.7)]


@prop('M14', *MODE, quick=5000,
      rule='a case is a message, how it is copied or stored, and what is '
           'altered then, or a message with a slot that cannot be sent; '
           'non-trivial: it has a message nested, or cannot be sent')
def _():
    how = g.pick(['copy', 'deepcopy', 'deepcopy', 2, 3, 4, 5])
    slots = [(d.name, s) for d in proto.TYPES.values() for s, k in d.slots
             ]
    return [
        Kind('message', lambda: st.tuples(
            specs.any_spec(), st.booleans(),
            st.lists(how, min_size=1, max_size=3), st.integers(0, 5)), 4),
        Kind('show', lambda: st.tuples(
            g.pick(slots), HOSTILE, g.pick([True, True, False])).map(
            lambda t: t[0] + t[1:]), 1)]


LOOKS = ['dump', 'dump', 'seal', 'slots', 'hash', 'verify', 'headers',
         'headers', 'headers', 'show', 'equal', 'copy', 'nested', 'ids']
REASONED = sorted(n for n, d in proto.BY_NAME.items()
                  if any(s == 'reason' for s, _ in d.slots)
                  and all(none for _, none, many in d.nested.values()))


def reasons(name):
    """Messages that consist of a reason"""
    d = proto.BY_NAME[name]
    return st.tuples(g.pick([v for _, v in d.enums['reason']]),
                     specs.stamps()).map(lambda t: {
                         'c': name, 'ts': t[1], 'sig': None,
                         's': {s: t[0] if s == 'reason' else None
                               for s, _ in d.slots}})


WITH_HEADER = ['WantToComputeTask', 'Tasks', 'TaskToCompute']


@prop('C01', *MODE, quick=810,
      rule='a case is two or three threads with what each of them does, and '
           'the schedule: where each is interrupted for which other, or at '
           'which line the first one is for all that the second does; '
           'non-trivial: at least one thread was interrupted')
def _():
    job = st.one_of(
        st.tuples(st.just('trip'), specs.specs(top_sig=False), KEY, KEY),
        st.tuples(st.just('trip'), specs.specs(top_sig=False), KEY,
                  st.integers(0, 1)),
        st.tuples(st.just('read'), specs.any_spec(), KEY, KEY),
        st.tuples(st.just('bad'), specs.any_spec(), KEY,
                  st.integers(0, 300)),
        st.tuples(st.just('header'), specs.header_kw(), KEY, KEY),
        st.tuples(st.just('id'), KEY, KEY, KEY))
    trip = st.tuples(st.just('trip'), specs.specs(top_sig=False), KEY,
                     st.integers(0, 1))
    job = st.one_of(job, trip)
    switch = st.tuples(
        st.one_of(st.integers(1, 12), st.integers(1, 12),
                  st.integers(1, 400)), st.integers(0, 2))
    where = st.lists(st.tuples(
        st.integers(0, 5000), st.one_of(st.just(0), st.integers(0, 50))),
        min_size=1, max_size=8)
    # more recipients than somebody might remember at a time
    many = st.lists(st.tuples(
        st.just('trip'), specs.specs(names=['RandVal'], top_sig=False),
        st.integers(0, 1), st.integers(0, 5)), min_size=2, max_size=4)
    # each has reasons of its own
    reasoned = st.lists(st.tuples(
        g.pick(['read', 'read', 'trip']), g.pick(REASONED).flatmap(reasons),
        st.integers(0, 1), st.integers(0, 1)), min_size=1, max_size=1)
    # nearly wherever something happens
    sweep = st.tuples(st.integers(0, 1), st.integers(2, 5)).map(
        lambda t: [(t[0] + t[1] * i, i) for i in range(60)])
    look = st.lists(g.pick(LOOKS), min_size=1, max_size=3)
    return [Kind('shared', lambda: st.tuples(
        st.one_of(specs.specs(names=WITH_HEADER), specs.any_spec()), KEY,
        look, look, where), 1), Kind('threads', lambda: st.tuples(
        st.lists(st.lists(job, min_size=1, max_size=2), min_size=2,
                 max_size=3),
        st.lists(switch, min_size=1, max_size=60)), 1),
        Kind('preempt', lambda: st.tuples(
            st.tuples(job).map(list), st.tuples(job).map(list), where,
            g.pick([0, 0, 0, 1])).map(
            lambda t: (t[0], t[0] if t[3] else t[1], t[2])), 2),
        Kind('recipients', lambda: st.tuples(many, many, where), 0.7),
        Kind('reasons', lambda: st.tuples(reasoned, reasoned, sweep), 0.7)]

"""Oracles for the modules that need no crypto."""
import collections
import copy
import enum
import functools
import hashlib
import ipaddress
import operator
import random
import types

from golem_messages import datastructures as dt
from golem_messages import exceptions
from golem_messages import register
from golem_messages import serializer
from golem_messages import validators
from golem_messages.datastructures import masking
from golem_messages.datastructures import p2p
from golem_messages.datastructures import stats

import model
import refcbor
from lib import check, expect, fail, raises, same, short

FieldError = exceptions.FieldError


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def rejected(call, field, value, what):
    e = raises(FieldError, call)
    expect(e.field == field, '%s: rejection names field %r, not %r', what,
           e.field, field)
    expect(e.value is value or same(e.value, value),
           '%s: rejection carries value %s, not %s', what, short(e.value),
           short(value))
    return e


# D01

@check('D01.value')
def _(case, ctx):
    field, (name, arg, value) = case
    what = 'validate %s %s %s' % (name, short(arg), short(value, 100))
    ctx.label(name)
    before = copy.deepcopy(value)
    near = False
    if name == 'varchar':
        ok = isinstance(value, str) and len(value) <= arg
        near = isinstance(value, str) and abs(len(value) - arg) <= 2
        call = functools.partial(validators.validate_varchar, max_length=arg)
    elif name == 'varchar128':
        ok = isinstance(value, str) and len(value) <= 128
        near = isinstance(value, str) and abs(len(value) - 128) <= 2
        call = validators.validate_varchar128
    elif name == 'integer':
        ok = near = is_int(value)
        call = validators.validate_integer
    elif name == 'positive_integer':
        ok = is_int(value) and value >= 1
        near = is_int(value) and value < 3
        call = validators.validate_positive_integer
    elif name == 'boolean':
        ok = near = value is True or value is False
        call = validators.validate_boolean
    elif name == 'dict':
        ok = isinstance(value, dict)
        near = bool(value)
        call = validators.validate_dict
    elif name == 'port':
        if is_int(value) and value == 65535:
            ctx.label('port 65535: not claimed')
            return
        ok = is_int(value) and 1 <= value <= 65534
        near = is_int(value) and (value < 4 or value > 65531)
        call = validators.validate_port
    elif name == 'ipaddress':
        ok = near = arg == 'good'
        if arg == 'bad' and isinstance(value, str):
            try:
                ipaddress.ip_address(value)
            except ValueError:
                pass
            else:
                return  # spoiling made another valid address
        call = validators.validate_ipaddress
    elif name == 'version':
        ok = near = arg == 'good'
        call = validators.validate_version
    else:
        ok, near = arg, True
        seen = []

        def call(field_name, value):
            validators.fail_unless(
                field_name=field_name, value=value,
                check=lambda v: seen.append(v) or arg, fail_msg='no')
    ctx.label('accept' if ok else 'reject')
    if not ok or near:
        ctx.mark()
    if ok:
        try:
            call(field_name=field, value=value)
        except FieldError as e:
            fail('%s: rejected (%s)', what, e)
        if name != 'fail_unless':  # also called by position
            call(field, value)
        kind = type(value)
        if kind in (int, str, dict):
            # members of enumerations and the like
            call(field_name=field, value=type('Derived', (kind,), {})(value))
    else:
        rejected(lambda: call(field_name=field, value=value), field, value,
                 what)
    expect(same(value, before), '%s: changed the value', what)


# D02 and D03: rules as independent predicates, and as validators

PREDICATES = {
    'int': is_int,
    'pos': lambda v: is_int(v) and v >= 1,
    'str': lambda v: isinstance(v, str) and len(v) <= 128,
    'str3': lambda v: isinstance(v, str) and len(v) <= 3,
    'bool': lambda v: isinstance(v, bool),
    'dict': lambda v: isinstance(v, dict),
    'port': lambda v: is_int(v) and 1 <= v <= 65534,
}
VALIDATORS = {
    'int': validators.validate_integer,
    'pos': validators.validate_positive_integer,
    'str': validators.validate_varchar128,
    'str3': functools.partial(validators.validate_varchar, max_length=3),
    'bool': validators.validate_boolean,
    'dict': validators.validate_dict,
    'port': validators.validate_port,
}


class DictModel:
    """What a frozen / validating dict class does, as plain functions"""
    def __init__(self, items, rules, frozen, validating):
        self.items, self.rules = items, rules
        self.frozen, self.validating = frozen, validating

    def problem(self, key, value):
        if self.frozen and key not in self.items:
            return 'key', key
        rule = self.rules.get(key) if self.validating else None
        if rule and not PREDICATES[rule](value):
            return 'field', key
        return None

    def new(self, entries):
        """(contents, problems)"""
        out, problems = {}, []
        for k, v in entries:
            p = self.problem(k, v)
            if p:
                problems.append(p)
            else:
                out[k] = v
        if self.frozen and not problems:
            for k, v in self.items.items():
                if k not in out:
                    p = self.problem(k, v)
                    if p:
                        problems.append(p)
                    out[k] = v
        return out, problems


def frozen_history(make, m, ops, ctx, pristine, items_now):
    inst, state, owned, created, others = None, None, set(), 0, 0
    for n, op in enumerate(ops):
        what = 'step %d %s' % (n, short(op, 120))
        if op[0] == 'new':
            _, how, pos, kw = op
            loose = how in ('mapping', 'keys')
            pos = [] if how == 'none' else pos
            if how in ('dict', 'ordered') or loose:
                pos = list(dict(pos).items())
            kw = dict(kw)
            entries = copy.deepcopy(pos + list(kw.items()))
            want, problems = m.new(entries)
            arg = {'none': lambda: [], 'dict': lambda: [dict(pos)],
                   'pairs': lambda: [list(pos)],
                   'iter': lambda: [iter(list(pos))],
                   'ordered': lambda: [collections.OrderedDict(pos)],
                   'mapping': lambda: [types.MappingProxyType(dict(pos))],
                   'keys': lambda: [collections.UserDict(pos)]}[how]()
            if loose:
                # may be refused, but what is wrong never gets in
                try:
                    other = make(*arg, **kw)
                except Exception:
                    ctx.label('mapping refused')
                    continue
                ctx.label('mapping accepted')
                expect(not problems, '%s: accepted', what)
                created += 1
                inst, state = other, copy.deepcopy(want)
                owned = set(state) - {k for k, _ in entries}
            elif problems:
                ctx.label('construction refused')
                kinds = {p[0] for p in problems}
                exc = tuple({'key': KeyError, 'field': FieldError}[k]
                            for k in kinds)
                e = raises(exc, make, *arg, **kw)
                if isinstance(e, FieldError):
                    expect(('field', e.field) in problems,
                           '%s: refused because of field %r', what, e.field)
            else:
                created += 1
                inst, state = make(*arg, **kw), copy.deepcopy(want)
                owned = set(state) - {k for k, _ in entries}
        elif inst is None:
            continue
        elif op[0] == 'set':
            _, key, value = op
            others += 1
            for odd in (1, None) if m.frozen else ():
                # it only looks like a declared one
                raises((KeyError, FieldError, TypeError), inst.__setitem__,
                       odd, value)
            p = m.problem(key, value)
            if p:
                ctx.label('assignment refused')
                e = raises(KeyError if p[0] == 'key' else FieldError,
                           inst.__setitem__, key, value)
                if p[0] == 'field':
                    expect(e.field == key, '%s: refused because of %r', what,
                           e.field)
            else:
                inst[key] = value
                state[key] = copy.deepcopy(value)
                owned.discard(key)
        elif op[0] == 'update':
            _, how, pos, kw = op
            others += 1
            pos = [] if how == 'none' else pos
            entries = pos + list(dict(kw).items())
            given = {'none': [], 'pairs': [list(pos)]}.get(how, [dict(pos)])
            update = inst.update
            if how == 'ior':
                # inst |= ..., from Python 3.9 on
                update = functools.partial(operator.ior, inst)
                ctx.label('updated in place')
            bad = [p for p in (m.problem(k, v) for k, v in dict(
                pos, **dict(kw)).items()) if p]
            if bad:
                ctx.label('update refused')
                kinds = {p[0] for p in bad}
                raises(tuple({'key': KeyError, 'field': FieldError}[k]
                             for k in kinds), update, *given, **dict(kw))
                # what came before the bad one may be there
                for k, v in dict(inst).items():
                    if k not in state or not same(v, state[k]):
                        expect(any(k == key and same(v, value) and
                                   not m.problem(k, v)
                                   for key, value in entries),
                               '%s: %r became %s', what, k, short(v))
                        state[k] = copy.deepcopy(v)
                        owned.discard(k)
            else:
                expect(update(*given, **dict(kw)) in (None, inst),
                       '%s: gives something else', what)
                for k, v in entries:
                    state[k] = copy.deepcopy(v)
                    owned.discard(k)
        elif op[0] == 'setdefault':
            _, key, value = op
            others += 1
            p = None if key in state else m.problem(key, value)
            if p:
                ctx.label('default refused')
                raises(KeyError if p[0] == 'key' else FieldError,
                       inst.setdefault, key, value)
            else:
                got = inst.setdefault(key, value)
                if key not in state:
                    state[key] = copy.deepcopy(value)
                expect(same(got, state[key]), '%s: gives %s', what,
                       short(got))
        elif op[0] == 'attr' and m.frozen:
            others += 1
            raises(AttributeError, setattr, inst, op[1], op[2])
        elif op[0] == 'poke' and op[1] in owned:
            key = op[1]
            for target in (inst[key], state[key]):
                for _ in range(op[2] if len(op) > 2 else 0):
                    # what is inside of it
                    inside = target.values() if isinstance(target, dict) \
                        else target if isinstance(target, list) else ()
                    inside = [x for x in inside if isinstance(
                        x, (list, dict))]
                    target = inside[0] if inside else target
                if isinstance(target, list):
                    target.append('poked')
                    ctx.label('default mutated')
                elif isinstance(target, dict):
                    target['poked'] = 1
                    ctx.label('default mutated')
        elif op[0] == 'del':
            others += 1
            expect(same(inst.get(op[1], 'none'), state.get(op[1], 'none')),
                   '%s: get differs', what)
        if inst is not None:
            expect(same(dict(inst), state), '%s: contents %s, should be %s',
                   what, short(dict(inst)), short(state))
            expect(isinstance(inst, dict) and len(inst) == len(state) and
                   set(inst) == set(state), '%s: keys differ', what)
    expect(same(items_now(), pristine), 'the defaults of the class became %s',
           short(items_now()))
    if created and created + others >= 2:
        ctx.mark()


@check('D02.defaults')
@check('D02.history')
def _(case, ctx):
    base, items, rules, ops, derive = case if len(case) == 5 else (
        *case, None)
    bases = {'frozen': (dt.FrozenDict,), 'validating': (dt.ValidatingDict,),
             'both': (dt.ValidatingDict, dt.FrozenDict)}[base]
    body = {}
    if base != 'validating':
        body['ITEMS'] = copy.deepcopy(items)
    for name, rule in rules.items():
        if rule:
            body['validate_' + name] = staticmethod(functools.partial(
                VALIDATORS[rule], field_name=name))
    cls = type('Case', bases, body)
    if derive == 'plain':
        cls = type('Derived', (cls,), {})
        ctx.label('derived')
    elif derive == 'split':
        # the rules and defaults come from several classes
        names = sorted(body)
        cls = type('Derived', (type('Case', bases, {
            n: body[n] for n in names[::2]}),), {
                n: body[n] for n in names[1::2]})
        ctx.label('derived')
    elif derive == 'mixin':
        mixin = type('Mixin', (), {n: b for n, b in body.items()
                                   if n != 'ITEMS'})
        cls = type('Derived', (mixin,) + bases, {
            n: b for n, b in body.items() if n == 'ITEMS'})
        ctx.label('mixin')
    m = DictModel(copy.deepcopy(items), rules, base != 'validating',
                  base != 'frozen')
    ctx.label(base)
    frozen_history(cls, m, ops, ctx, copy.deepcopy(items),
                   lambda: cls.ITEMS if base != 'validating' else items)


STATS_ITEMS = {
    'BlockIoEntry': {'major': 0, 'minor': 0, 'op': None, 'value': 0},
    'CpuUsage': dict(model.CPU_USAGE),
    'ThrottlingData': dict(model.THROTTLING),
    'MemoryData': {'failcnt': 0, 'limit': 0, 'max_usage': 0, 'usage': 0},
}


@check('D02.stats')
def _(case, ctx):
    name, entries = case
    cls = getattr(stats, name)
    items = copy.deepcopy(STATS_ITEMS[name])
    m = DictModel(items, {}, True, False)
    ops = [('new', 'none', [], entries[:3]), ('poke', 'percpu_usage'),
           ('new', 'none', [], []), ('poke', 'percpu_usage')]
    ops += [('set', k, v) for k, v in entries[3:]]
    ops += [('attr', 'total', 1), ('new', 'dict', entries[3:], [])]
    ctx.label(name)
    frozen_history(cls, m, ops, ctx, copy.deepcopy(items), lambda: cls.ITEMS)


def good_ip(v):
    if not isinstance(v, str):
        return False
    try:
        ipaddress.ip_address(v)
    except ValueError:
        return False
    return True


@check('D02.peer')
def _(case, ctx):
    """Peer: all three fields are needed and checked"""
    def ok(key, value):
        if key == 'address':
            return good_ip(value)
        if key == 'port':
            return is_int(value) and 1 <= value <= 65534
        return isinstance(value, dict) and set(value) <= {'key'}
    if any(k == 'port' and is_int(v) and v == 65535 for k, v in case):
        return  # not claimed
    first = dict(case[:3])
    problems = [k for k, v in first.items() if k == 'other' or not ok(k, v)]
    missing = {'address', 'port', 'node'} - set(first)
    if problems or missing:
        exc = [FieldError]
        if 'other' in first:
            exc.append(KeyError)
        raises(tuple(exc), p2p.Peer, first)
        ctx.label('refused')
        first = {'address': '10.0.0.1', 'port': 80, 'node': {'key': 'k'}}
    ctx.mark()
    peer = p2p.Peer(first)

    def state():
        return dict(peer, node=peer['node'].to_dict())
    want = dict(first, node=model.node_wire(first['node']))
    for key, value in case[3:]:
        if key == 'other':
            raises(KeyError, peer.__setitem__, key, value)
        elif not ok(key, value):
            e = raises(FieldError, peer.__setitem__, key, value)
            expect(e.field == key or key == 'node' and
                   isinstance(value, dict) and e.field in value,
                   'refused because of %r, not %r', e.field,
                   key)
        else:
            peer[key] = value
            want[key] = model.node_wire(value) if key == 'node' else value
        expect(same(state(), want), 'after %s = %s: %s, should be %s', key,
               short(value), short(state()), short(want))
        expect(isinstance(peer['node'], p2p.Node), 'node is no Node')


# D03

FACTORIES = {'list': list, 'dict': dict, 'seven': lambda: 7}


def hooks(body, name, hook):
    def guard(f):
        return staticmethod(lambda value: None if value is None else f(value))
    if hook == 'hex':
        body['deserialize_' + name] = guard(bytes.fromhex)
        body['serialize_' + name] = guard(lambda v: v.hex())
    elif hook == 'plus':
        body['deserialize_' + name] = guard(lambda v: v + 1)
        body['serialize_' + name] = guard(lambda v: v - 1)
    elif hook == 'list':
        body['deserialize_' + name] = guard(list)
    elif hook == 'enum':
        body['deserialize_' + name] = guard(Color)
    elif hook == 'number':
        body['deserialize_' + name] = guard(Number)
    elif hook == 'level':
        body['deserialize_' + name] = guard(Level)


class Color(dt.StringEnum):
    red = 'Red'
    green = enum.auto()


class Number(enum.Enum):
    one = 1
    two = 2


class Level(enum.IntEnum):
    none = 0
    some = 1


HOOK = {'hex': bytes.fromhex, 'plus': lambda v: v + 1, 'list': list,
        'enum': Color, 'number': Number, 'level': Level}


def container_model(schema, kwargs):
    """(attributes, plain dict, {offending field: value})"""
    attrs, plain, bad = {}, {}, {}
    given = dict(kwargs)
    for name, rules, required, default, hook in schema:
        if hook:
            default = None
        if name not in given:
            if required:
                bad[name] = None
                continue
            value = FACTORIES[default]() if default else None
            attrs[name] = plain[name] = value
            continue
        value = given[name]
        plain[name] = attrs[name] = value
        if value is None:
            if required and rules:
                bad[name] = value
            continue
        if not all(PREDICATES[r](value) for r in rules):
            bad[name] = value
        elif hook:
            attrs[name] = HOOK[hook](value)
    names = {s[0] for s in schema}
    for name, value in given.items():
        if name not in names:
            bad[name] = value
    return attrs, plain, bad


@check('D03.schema')
def _(case, ctx):
    schema, kwargs, again = case
    body = {
        '__slots__': {s[0]: tuple(VALIDATORS[r] for r in s[1])
                      for s in schema},
        'REQUIRED': frozenset(s[0] for s in schema if s[2]),
        'DEFAULTS': {s[0]: FACTORIES[s[3]] for s in schema
                     if s[3] and not s[4]},
    }
    for name, _, _, _, hook in schema:
        hooks(body, name, hook)
    cls = type('Case', (dt.Container,), body)
    for args in (kwargs, again):
        args = dict(args)
        before = copy.deepcopy(args)
        attrs, plain, bad = container_model(schema, copy.deepcopy(args))
        if len(schema) >= 2 and args:
            ctx.mark()
        if bad:
            ctx.label('refused')
            e = raises(FieldError, cls, **args)
            expect(e.field in bad, 'refused because of %r, wrong are %r',
                   e.field, sorted(bad))
            expect(same(e.value, bad[e.field]),
                   'refused because of %r = %s, should be %s', e.field,
                   short(e.value), short(bad[e.field]))
            continue
        ctx.label('accepted')
        obj = cls(**args)
        expect(same(args, before), 'the arguments were changed')
        for name in attrs:
            expect(same(getattr(obj, name), attrs[name]),
                   'field %s is %s, should be %s', name,
                   short(getattr(obj, name)), short(attrs[name]))
        got = obj.to_dict()
        expect(same(got, plain), 'to_dict gives %s, should be %s', short(got),
               short(plain))
        expect(list(got) == [s[0] for s in schema],
               'to_dict has another order of fields')
        _, plain2, bad = container_model(schema, copy.deepcopy(dict(got)))
        if not bad:
            twin = cls(**got)
            expect(same(twin.to_dict(), plain2),
                   'a second trip gives %s, should be %s',
                   short(twin.to_dict()), short(plain2))
        for name, value in attrs.items():
            mine = getattr(obj, name)
            if name not in args and isinstance(mine, list):
                mine.append('poked')
            elif name not in args and isinstance(mine, dict):
                mine['poked'] = 1


NODE_RULES = {
    'node_name': lambda v: isinstance(v, str),
    'key': lambda v: isinstance(v, str) and len(v) <= 128,
    'prv_port': PREDICATES['port'], 'pub_port': PREDICATES['port'],
    'p2p_prv_port': PREDICATES['port'], 'p2p_pub_port': PREDICATES['port'],
    'prv_addr': good_ip, 'pub_addr': good_ip,
    'hyperdrive_prv_port': is_int, 'hyperdrive_pub_port': is_int,
}


@check('D03.node')
def _(case, ctx):
    kw, extra = case
    kw = dict(kw)
    if extra:
        kw[extra[0]] = extra[1]
    if any(is_int(v) and v == 65535 for k, v in kw.items()
           if k.endswith('_port')):
        return
    if len(kw) > 1:
        ctx.mark()
    bad = {k for k, v in kw.items()
           if k not in model.NODE or
           k in NODE_RULES and v is not None and not NODE_RULES[k](v)}
    before = copy.deepcopy(kw)
    if bad:
        ctx.label('refused')
        e = raises(FieldError, p2p.Node, **kw)
        expect(e.field in bad, 'refused because of %r, wrong are %r', e.field,
               sorted(bad))
        expect(same(e.value, kw[e.field]), 'refused with another value')
        return
    ctx.label('accepted')
    node = p2p.Node(**kw)
    want = model.node_wire(before)
    expect(same(node.to_dict(), want), 'to_dict gives %s, should be %s',
           short(node.to_dict()), short(want))
    expect(list(node.to_dict()) == list(model.NODE), 'order of fields')
    for k in model.NODE:
        expect(same(getattr(node, k), want[k]), 'field %s is %s', k,
               short(getattr(node, k)))
    for k in ('prv_addresses', 'nat_type'):
        if k not in kw:
            getattr(node, k).append('poked')
    if 'port_statuses' not in kw:
        node.port_statuses['poked'] = 1
    again = p2p.Node(**before)
    expect(same(again.to_dict(), want), 'the second instance is %s',
           short(again.to_dict()))


# D04

def bits_of(raw):
    n = int.from_bytes(raw, 'big')
    return {b for b in range(256) if n >> b & 1}


def check_mask(mask, bits, what):
    n = sum(1 << b for b in bits)
    expect(isinstance(mask, masking.Mask), '%s: no Mask: %r', what, mask)
    expect(mask.to_int() == n, '%s: to_int', what)
    expect(mask.to_bytes() == n.to_bytes(32, 'big'), '%s: to_bytes %s', what,
           short(mask.to_bytes()))
    expect(set(mask.to_bits()) == bits, '%s: to_bits %s, should be %s', what,
           short(sorted(mask.to_bits())), short(sorted(bits)))
    expect(mask.num_bits == len(bits), '%s: num_bits %s', what, mask.num_bits)
    text = bin(n)[2:]
    expect(mask.to_bin() == '0' * (256 - len(text)) + text, '%s: to_bin',
           what)


@check('D04.history')
def _(case, ctx):
    mask, bits = masking.Mask(), set()
    check_mask(mask, bits, 'new')
    older = []
    for n, (op, arg) in enumerate(case):
        what = 'step %d %s %s' % (n, op, short(arg, 80))
        ctx.label(op)
        if op == 'bytes':
            older.append((mask, set(bits)))
            mask, bits = masking.Mask(arg), bits_of(arg)
        elif op == 'dict':
            older.append((mask, set(bits)))
            mask = masking.Mask.from_dict({'byte_repr': arg})
            bits = bits_of(arg)
        elif op == 'bits':
            older.append((mask, set(bits)))
            given = set(arg)
            mask, bits = masking.Mask.from_bits(given), set(arg)
            expect(given == bits, '%s: changed its argument', what)
        elif op == 'default':
            older.append((mask, set(bits)))
            mask, bits = masking.Mask(), set()
        elif op == 'again':
            older.append((mask, set(bits)))
            mask = masking.Mask(mask.to_bytes())
        elif op == 'generate':
            if arg < 0:
                raises(ValueError, masking.Mask.generate, arg)
                continue
            older.append((mask, set(bits)))
            mask = masking.Mask.generate(arg) if arg or n % 2 else \
                masking.Mask.generate()
            bits = set(mask.to_bits())
            expect(len(bits) == min(arg, 256), '%s: %d bits', what, len(bits))
        elif op in ('increase', 'decrease'):
            change = getattr(mask, op)
            if arg < 0:
                raises(ValueError, change, arg)
            else:
                if n % 2 and arg == 1:
                    change()  # by one
                else:
                    change(arg)
                now = set(mask.to_bits())
                if op == 'increase':
                    expect(now >= bits, '%s: lost bits %s', what, bits - now)
                    size = min(256, len(bits) + arg)
                else:
                    expect(now <= bits, '%s: new bits %s', what, now - bits)
                    size = max(0, len(bits) - arg)
                expect(len(now) == size, '%s: %d bits, should be %d', what,
                       len(now), size)
                if 0 < len(now) < 256:
                    ctx.mark()
                bits = now
        else:
            digest = hashlib.sha256(arg).digest()
            want = not bits_of(digest) & bits
            expect(mask.matches(arg) is want, '%s: %r, should be %r', what,
                   mask.matches(arg), want)
            ctx.label('match' if want else 'no match')
            if 0 < len(bits) < 256:
                ctx.mark()
        check_mask(mask, bits, what)
        expect(all(0 <= b < 256 for b in bits), '%s: bits %s', what, bits)
        for other, its in older[-3:]:
            check_mask(other, its, what + ', older mask')
    if 0 < len(bits) < 9:  # an address that matches, and one that does not
        want = {True, False}
        seen = {masking.Mask.from_bits(bits).matches(b'%d' % i)
                for i in range(3000)} if len(case) % 16 == 0 else want
        expect(seen == want, 'only %r for 3000 addresses', seen)


@check('D04.task')
def _(case, ctx):
    desired, potential = case
    got = masking.Mask.get_mask_for_task(
        desired_num_workers=desired, potential_num_workers=potential)
    if potential < 1:
        want = 0
    else:
        want = 0
        while potential > desired << want:
            want += 1
        want = min(want, 256)
    if want:
        ctx.mark()
    ctx.label('bits %d' % min(want, 9))
    expect(got.num_bits == want, '%d bits for %d of %d workers, should be %d',
           got.num_bits, desired, potential, want)
    check_mask(got, set(got.to_bits()), 'mask for task')


@check('D04.spread')
def _(case, ctx):
    """No bit is out of reach (misses by chance: 2**-60 per bit)"""
    op, n, seed = case
    random.seed(seed)
    ctx.mark()
    seen = set()
    for _ in range(120):
        if op == 'generate':
            seen |= masking.Mask.generate(n).to_bits()
        else:
            mask = masking.Mask(b'\xff' * 32 if op == 'decrease' else
                                b'\0' * 32)
            getattr(mask, op)(n)
            bits = mask.to_bits()
            seen |= set(range(256)) - bits if op == 'decrease' else bits
    expect(seen == set(range(256)), '%s never touches bits %s', op,
           sorted(set(range(256)) - seen))


@check('D04.reach')
def _(case, ctx):
    """However many bits there are and are changed, each may be the one"""
    op, room, n, seed = case
    random.seed(seed)
    ctx.mark()
    ctx.label(op)
    bits = set(random.sample(range(256), room))
    if op == 'generate':
        room, bits = 256, set(range(256))
    n = min(n, room)
    full = masking.Mask.from_bits(bits if op == 'decrease' else
                                  set(range(256)) - bits).to_bytes()
    missing = set(bits)
    for _ in range(60 * room // n + 60):
        if op == 'generate':
            missing -= masking.Mask.generate(n).to_bits()
        else:
            mask = masking.Mask(full)
            getattr(mask, op)(n)
            now = mask.to_bits()
            missing = missing & now if op == 'decrease' else missing - now
        if not missing:
            break
    expect(not missing, '%s by %d of %d never touches bits %s', op, n, room,
           sorted(missing))


# D05

PUBLIC = {'pub_addr': 'prv_addr', 'pub_port': 'prv_port',
          'p2p_pub_port': 'p2p_prv_port',
          'hyperdrive_pub_port': 'hyperdrive_prv_port'}


LISTS = {'prv_addresses': list, 'port_statuses': dict, 'nat_type': list}


def near_node(kw, other, edits):
    """Almost the same fields"""
    kw = copy.deepcopy(kw)
    for field, how, n in edits:
        value = kw.get(field)
        if value is None:
            fields = sorted(k for k, v in kw.items() if v)
            if fields and how != 'empty':
                field = fields[n % len(fields)]
                value = kw[field]
        many = isinstance(value, list)
        if how == 'none':
            kw[field] = None
        elif how == 'empty' and field in LISTS:
            kw[field] = LISTS[field]()
        elif how == 'reverse' and many:
            value.reverse()
        elif how == 'twice' and many:
            value.append(value[0] if value else '1.2.3.4')
        elif how == 'drop' and value and isinstance(value, (list, dict)):
            value.pop(sorted(value)[0] if isinstance(value, dict) else 0)
        elif how == 'case' and isinstance(value, str) and \
                len(value.swapcase()) == len(value) and \
                field in ('node_name', 'key'):
            kw[field] = value.swapcase()
        elif how == 'more' and type(value) is int:
            kw[field] = value + 1 if value < 65534 else 1
        elif how == 'other' and field in other:
            kw[field] = other[field]
        elif how == 'absent':
            kw.pop(field, None)
    return kw


@check('D05.node')
def _(case, ctx):
    kw, other, same_fields = case
    if any(v == 65535 for d in (kw, other) for k, v in d.items()
           if k.endswith('_port')):
        return
    if isinstance(same_fields, list):
        other = near_node(kw, other, same_fields)
        ctx.label('nearly the same')
    elif same_fields:
        other = kw
    if len(kw) > 1:
        ctx.mark()
    a, b = p2p.Node(**copy.deepcopy(kw)), p2p.Node(**copy.deepcopy(other))
    wa, wb = model.node_wire(kw), model.node_wire(other)
    for x, wx, y, wy in ((a, wa, b, wb), (b, wb, a, wa), (a, wa, a, wa)):
        expect((x == y) is same(wx, wy), '%s == %s is %r', short(wx),
               short(wy), x == y)
    for junk in (wa, None, 'x'):
        raises(TypeError, a.__eq__, junk)
    want = wa['pub_addr'] is not None and wa['pub_addr'] == wa['prv_addr']
    expect(a.is_super_node() is want, 'is_super_node is %r for %s',
           a.is_super_node(), short(kw))
    repr(a)
    if ':' in (wa['prv_addr'] or ''):
        near = p2p.Node(**copy.deepcopy(kw))
        for ends in (('', '%1'), ('%1', '%2'), ('%eth0', '')):
            near.prv_addr, near.pub_addr = (
                wa['prv_addr'].partition('%')[0] + end for end in ends)
            expect(near.is_super_node() is False,
                   'the same address in the scopes %r and %r', *ends)
    for pub, prv in PUBLIC.items():
        if wa[pub] is None:
            wa[pub] = wa[prv]
    for _ in range(2):
        a.update_public_info()
        expect(same(a.to_dict(), wa), 'update_public_info: %s, should be %s',
               short(a.to_dict()), short(wa))
    expect(same(b.to_dict(), wb), 'another node changed')
    want = wa['pub_addr'] is not None and wa['pub_addr'] == wa['prv_addr']
    expect(a.is_super_node() is want, 'is_super_node is %r after update of %s',
           a.is_super_node(), short(kw))
    ctx.label('super' if want else 'not super')
    # what happens to one node is nothing to the others
    for name, more in (('prv_addresses', '1.1.1.1'), ('nat_type', 'poked')):
        if wa[name] is not None:
            getattr(a, name).append(more)
            wa[name] = wa[name] + [more]
    if wa['port_statuses'] is not None:
        a.port_statuses['poked'] = 'open'
        wa['port_statuses'] = dict(wa['port_statuses'], poked='open')
    expect(same(a.to_dict(), wa), 'extended, it is %s, should be %s',
           short(a.to_dict()), short(wa))
    c = p2p.Node(**copy.deepcopy(other))
    for node in (b, c):
        expect(same(node.to_dict(), wb), 'another node is %s now, was %s',
               short(node.to_dict()), short(wb))
    expect(b == c and (a == b) is same(wa, wb), 'comparison after extending')


@check('D05.peer')
def _(case, ctx):
    kw, as_node, pairs = case
    if kw['port'] == 65535 or any(
            v == 65535 for k, v in kw['node'].items() if k.endswith('_port')):
        return
    if len(kw['node']) > 1:
        ctx.mark()
    args = copy.deepcopy(kw)
    if as_node:
        args['node'] = p2p.Node(**args['node'])
    peer = p2p.Peer(list(args.items()) if pairs else args)
    want = dict(kw, node=model.node_wire(kw['node']))
    for _ in range(2):
        got = peer.serialize()
        expect(type(got) is dict and same(got, want),
               'serialize gives %s, should be %s', short(got), short(want))
        expect(isinstance(peer['node'], p2p.Node),
               'node became %r', peer['node'])
    back = p2p.Peer(refcbor.loads(refcbor.dumps(got)))
    expect(same(back.serialize(), want), 'a second trip gives %s',
           short(back.serialize()))
    expect(back['node'] == peer['node'] and
           back['address'] == kw['address'] and back['port'] == kw['port'],
           'the parts differ')


# D06

def plain_stats(obj):
    return refcbor.loads(refcbor.dumps(obj))


@check('D06.roundtrip')
def _(case, ctx):
    one, two = case
    if any(one.values()):
        ctx.mark()
    for kw in (one, two, one):
        before = copy.deepcopy(kw)
        obj = stats.ProviderStats(**kw)
        want = model.stats_wire(before)
        got = obj.to_dict()
        expect(same(got, want), 'to_dict gives %s, should be %s', short(got),
               short(want))
        expect(same(kw, before), 'the arguments were changed')
        sent = serializer.dumps(got)
        expect(same(refcbor.loads(sent), want), 'CBOR carries %s, not %s',
               short(refcbor.loads(sent)), short(want))
        back = stats.ProviderStats(**serializer.loads(sent))
        expect(same(back.to_dict(), want), 'after a trip: %s, should be %s',
               short(back.to_dict()), short(want))
        expect(list(got) == list(want), 'order of fields')
        for k, cls in (('blkio_stats', stats.BlockIoStats),
                       ('cpu_stats', stats.CpuStats),
                       ('memory_stats', stats.MemoryStats),
                       ('pids_stats', stats.PidStats)):
            part = getattr(back, k)
            expect(part is None if want[k] is None else isinstance(part, cls),
                   '%s is %r', k, part)
            if part is not None:
                ctx.label(k)
                expect(same(part.to_dict(), want[k]), '%s: %s', k,
                       short(part.to_dict()))
                for name, value in want[k].items():
                    expect(same(getattr(part, name), value),
                           '%s.%s is %s, should be %s', k, name,
                           short(getattr(part, name)), short(value))
        usage = back.cpu_stats and back.cpu_stats.cpu_usage
        if usage:
            usage['percpu_usage'].append(1)  # must not leak into the defaults


@check('D06.bad')
def _(case, ctx):
    kw, (path, value) = case
    kw = copy.deepcopy(kw)
    parts = path.split('.')
    at = kw
    for p in parts[:-1]:
        if not at.get(p):
            at[p] = {}
        at = at[p]
    at[parts[-1]] = value
    ctx.label(path)
    ctx.mark()
    if not path.endswith('.other') and not same(
            refcbor.loads(refcbor.dumps(value)), value):
        return
    if parts[-1] != 'other' and value is None:
        return
    e = raises(exceptions.MessageError, stats.ProviderStats, **kw)
    if not (parts[-1] == 'other' and len(parts) == 3):
        # the two innermost records are no containers with named errors
        expect(isinstance(e, FieldError), '%s is no FieldError', e)
        expect(e.field == parts[-1] and same(e.value, value),
               'names %r = %s, wrong is %s = %s', e.field, short(e.value),
               parts[-1], short(value))


# D07

@check('D07.history')
def _(case, ctx):
    regs = [register.MessageRegister(), register.MessageRegister()]
    models = [({}, {}), ({}, {})]
    made = 0
    for n, (op, type_, name) in enumerate(case):
        which = 1 if name > 24 else 0
        reg, (types, classes) = regs[which], models[which]
        what = 'step %d %s %d' % (n, op, type_)
        if op == 'register':
            cls = type('Message%d' % name, (), {})
            if type_ in types:
                ctx.label('duplicate')
                raises(RuntimeError, lambda: reg.register(type_)(cls))
                raises(KeyError, reg.get_type, cls)
                raises(RuntimeError,
                       lambda: reg.register(type_)(types[type_]))
                expect(reg[type_] is types[type_], '%s: replaced %r', what,
                       types[type_])
            else:
                made += 1
                put = reg.register(type_)
                late = []
                if name % 3 == 0:
                    # asked for twice before the first one is registered
                    ctx.label('asked for twice')
                    try:
                        late.append(reg.register(type_))
                    except RuntimeError:
                        pass
                got = put(cls)
                expect(got is cls, '%s: returns %r', what, got)
                types[type_] = cls
                classes[cls] = type_
                for again in late:
                    raises(RuntimeError, again, type('Late', (), {}))
        elif op == 'get' or not types:
            expect((type_ in reg) is (type_ in types), '%s: in is %r', what,
                   type_ in reg)
            if type_ in types:
                expect(reg[type_] is types[type_], '%s: got %r', what,
                       reg[type_])
            else:
                raises(KeyError, lambda: reg[type_])
        else:
            raises(KeyError, reg.get_type, type('Other', (), {}))
            # not even one derived from a registered one, or called alike
            base = types.get(type_) or list(types.values())[name % len(types)]
            raises(KeyError, reg.get_type, type('Derived', (base,), {}))
            raises(KeyError, reg.get_type, type(base.__name__, (), {}))
            raises(KeyError, reg.get_type, base())
            ctx.label('derived')
    for reg, (types, classes) in zip(regs, models):
        for t, c in types.items():
            expect(t in reg and reg[t] is c, 'type %d is %r, not %r', t,
                   reg[t], c)
            expect(reg.get_type(c) == t, 'class of type %d has type %r', t,
                   reg.get_type(c))
    for t in models[0][0]:
        expect((t in regs[1]) is (t in models[1][0]), 'registers share %d', t)
    if made > 1:
        ctx.mark()


# D08

def refused(f, *args):
    return raises(exceptions.SerializationError, f, *args)


def plainly(x):
    """lists for tuples"""
    if isinstance(x, (list, tuple)):
        return [plainly(v) for v in x]
    if isinstance(x, dict):
        return {k: plainly(v) for k, v in x.items()}
    return x


@check('D08.long')
@check('D08.value')
def _(case, ctx):
    data = serializer.dumps(case)
    if len(data) > 1:
        ctx.mark()
    ctx.label(type(case).__name__)
    expect(type(data) is bytes, 'dumps gives %r', type(data))
    got = serializer.loads(data)
    expect(same(got, case) and type(got) is type(case),
           'a trip of %s gives %s', short(case), short(got))
    if len(data) < 400:
        # one object in several places is no cycle
        several = [case, {'a': case, 'b': [case, [case]]}]
        got = serializer.loads(serializer.dumps(several))
        expect(same(got, several), 'a trip of %s gives %s', short(several),
               short(got))
    try:
        ref = refcbor.loads(data)
    except refcbor.Bad as e:
        fail('%s is no plain CBOR item: %s', short(data), e)
    expect(same(ref, case), 'another decoder reads %s as %s', short(case),
           short(ref))
    got = serializer.loads(refcbor.dumps(case))
    expect(same(got, case), 'what another encoder wrote for %s reads %s',
           short(case), short(got))
    expect(serializer.dumps(got) == data, 'dumps is not a function')
    if isinstance(case, (list, dict)):
        other = tuple(case) if isinstance(case, list) else case
        expect(serializer.dumps(other) == data, 'tuples are no arrays')
    if isinstance(case, dict):
        expect(list(got) == list(case), 'keys were reordered: %s',
               short(got))


@check('D08.deep')
def _(case, ctx):
    depth, value, as_dict = case
    ctx.mark()
    for _ in range(depth):
        value = {'k': value} if as_dict else [value]
    got = serializer.loads(serializer.dumps(value))
    expect(same(got, value), 'a trip at depth %d differs', depth)


class Other:
    pass


@check('D08.unserializable')
def _(case, ctx):
    import decimal
    kind, path, value = case
    cyc = []
    cyc.append(cyc)
    bad = {
        'object': object(), 'set': {1}, 'complex': 1j, 'class': Other,
        'function': refused, 'range': range(3), 'cycle': cyc,
        'decimal': decimal.Decimal(1),
        'surrogate': 'x\udc80%s' % value}[kind]
    for p in path:
        bad = {'list': [value, bad], 'dict': {'k': value, 'b': bad},
               'tuple': (bad, value)}[p]
    ctx.label(kind)
    ctx.mark()
    refused(serializer.dumps, bad)
    got = serializer.loads(serializer.dumps(value))
    expect(same(got, value), 'after a failure %s reads %s', short(value),
           short(got))


def decode(data, ctx):
    try:
        want = refcbor.loads(data)
        complete = True
    except Exception:
        complete = False
    try:
        got = serializer.loads(data)
    except exceptions.SerializationError:
        ctx.label('error')
        expect(not complete, 'cannot read %s = %s', short(data),
               short(want) if complete else '')
        ctx.mark()
        return
    ctx.label('value')
    if not complete:
        ctx.mark()
        return
    expect(same(got, want), '%s reads %s, should be %s', short(data),
           short(got), short(want))


@check('D08.bytes')
def _(case, ctx):
    decode(case, ctx)
    if not case:
        refused(serializer.loads, case)


@check('D08.mutated')
def _(case, ctx):
    value, at, byte, how = case
    data = refcbor.dumps(value)
    at %= len(data)
    if how == 'flip':
        data = data[:at] + bytes([byte]) + data[at + 1:]
    elif how == 'cut':
        data = data[:at]
    else:
        data = data[:at] + bytes([byte]) + data[at:]
    decode(data, ctx)


# D09

PARENT = {
    'MessageError': RuntimeError, 'HeaderError': 'MessageError',
    'TimestampError': 'HeaderError', 'FieldError': 'MessageError',
    'MessageTooOldError': 'TimestampError',
    'MessageFromFutureError': 'TimestampError',
    'CryptoError': 'MessageError', 'InvalidSignature': 'CryptoError',
    'InvalidKeys': 'CryptoError', 'DecryptionError': 'CryptoError',
    'SerializationError': 'MessageError',
    'SignatureAlreadyExists': 'SerializationError',
    'VersionMismatchError': 'MessageError',
    'OwnershipMismatch': 'MessageError', 'ValidationError': 'MessageError',
}


@check('D09.error')
def _(case, ctx):
    n, args, field, value = case
    name = sorted(PARENT)[n % len(PARENT)]
    if n >= len(PARENT):
        name = 'FieldError'
    cls = getattr(exceptions, name)
    ctx.label(name)
    kw = {}
    if name == 'FieldError':
        if field:
            kw['field'] = field[0]
        if value:
            kw['value'] = value[0]
        if kw:
            ctx.mark()
    got = raises(cls, thrower, cls, args, kw)
    expect(type(got) is cls, 'raised %r', type(got))
    ancestors = []
    parent = PARENT[name]
    while isinstance(parent, str):
        ancestors.append(parent)
        parent = PARENT[parent]
    for other in PARENT:
        want = other == name or other in ancestors
        expect(isinstance(got, getattr(exceptions, other)) is want,
               'a %s is%s a %s', name, '' if not want else ' not', other)
    expect(isinstance(got, RuntimeError), '%s is no RuntimeError', name)
    expect(got.args == tuple(args), 'args are %r', got.args)
    text = str(got)
    if name == 'FieldError':
        for key in ('field', 'value'):
            want = kw.get(key, '<unknown>')
            expect(same(getattr(got, key), want), '%s is %s, should be %s',
                   key, short(getattr(got, key)), short(want))
        for part in (str(got.field), repr(got.value)):
            expect(part in text, '%s is not in %s', short(part), short(text))
    if len(args) == 1:
        expect(args[0] in text, '%s is not in %s', short(args[0]),
               short(text))


def thrower(cls, args, kw):
    raise cls(*args, **kw)

"""What every oracle uses: registration, verdicts, comparisons, clock."""
import datetime
import random
import traceback

import boot

CHECKS = {}


class Violation(Exception):
    """The property is broken; the message says how"""


class Trouble(Exception):
    """The machinery does not work; says nothing about the property"""


class Ctx:
    """Filled by an oracle while it runs one case"""
    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def mark(self):
        self.nontrivial = True


def check(name):
    def deco(f):
        CHECKS[name] = f
        return f
    return deco


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def expect(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def short(x, n=300):
    try:
        text = repr(x)
    except Exception as e:
        text = '<%s: repr fails: %r>' % (type(x).__name__, e)
    return text if len(text) <= n else text[:n] + '...'


def same(a, b):
    """Deep equality that tells 1, True and 1.0 apart and ignores nothing
    but the difference between list and tuple and the order of dict keys"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(
            k in b and same(v, b[k]) for k, v in a.items()
        )
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if type(a) is not type(b):
        if isinstance(a, str) and isinstance(b, str):
            return str.__eq__(a, b)
        return False
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


def raises(exc, f, *args, **kwargs):
    """f must raise exactly an exc; returns the exception.

    Anything else that it raises is reported as what it did instead."""
    try:
        got = f(*args, **kwargs)
    except exc as e:
        return e
    except Violation:
        raise
    except Exception as e:
        fail('expected %s, got %r\n%s', _names(exc), e,
             traceback.format_exc(limit=-4))
    fail('expected %s, but it returned %s', _names(exc), short(got))


def _names(exc):
    if isinstance(exc, tuple):
        return '/'.join(e.__name__ for e in exc)
    return exc.__name__


class Clock:
    """freezegun, started once and moved: frozen at whole seconds"""
    def __init__(self):
        self.frozen = None

    def at(self, ts, micro=0):
        when = datetime.datetime(1970, 1, 1) + datetime.timedelta(
            seconds=ts, microseconds=micro)
        if self.frozen is None:
            import freezegun
            self.freezer = freezegun.freeze_time(when)
            self.frozen = self.freezer.start()
        self.frozen.move_to(when)

    def stop(self):
        if self.frozen is not None:
            self.freezer.stop()
            self.frozen = None


clock = Clock()


def reset(seed):
    boot.entropy.reseed(seed)
    random.seed(seed)

"""The claimed properties and how each is explored."""
import functools
import importlib

PROPS = {}
GROUPS = ('core', 'wire', 'crypto', 'tasks', 'misc', 'state')


class Kind:
    """One family of cases of a property"""
    def __init__(self, name, strategy, weight=1, exhaustive=False):
        self.name, self.weight = name, weight
        self._strategy = strategy
        self.exhaustive = exhaustive

    @functools.cached_property
    def strategy(self):
        s = self._strategy
        return s() if callable(s) else s


class Prop:
    def __init__(self, pid, mode, module, kinds, quick, rule, thorough=30,
                 assumptions=()):
        self.pid, self.mode, self.module = pid, mode, module
        self._kinds, self.quick, self.rule = kinds, quick, rule
        self.thorough = quick * thorough
        self.assumptions = list(assumptions)

    @functools.cached_property
    def kinds(self):
        return self._kinds()


def prop(pid, mode, module, quick, rule, **kw):
    def deco(f):
        PROPS[pid] = Prop(pid, mode, module, f, quick, rule, **kw)
        return f
    return deco


def load():
    for g in GROUPS:
        try:
            importlib.import_module('vf.gen_' + g)
        except ModuleNotFoundError as e:
            if e.name != 'vf.gen_' + g:
                raise
    return PROPS

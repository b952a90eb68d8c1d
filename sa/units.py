"""Units of analysis: what is analysed for which property. Each unit inspects the program representation built from
/repo's current sources and returns judged obligations (vmx.Rec)."""
import importlib
from .vmx import Rec
from .ir import Anchor


class Unit:
    __slots__ = ('name', 'props', 'fn', 'arg', 'cost')

    def __init__(self, name, props, fn, arg=None, cost=1):
        self.name, self.props, self.fn, self.arg, self.cost = name, frozenset(props), fn, arg, cost


class Result:
    """what one unit found"""
    __slots__ = ('recs', 'functions', 'cases', 'paths', 'notes')

    def __init__(self, recs=(), functions=(), cases=0, paths=0, notes=()):
        self.recs, self.functions, self.cases, self.paths, self.notes = list(recs), set(functions), cases, paths, list(notes)


MODULES = ['opcodes', 'store', 'parser', 'tables', 'monitor', 'effects', 'lexer', 'renum', 'cmdline']


def all_units(prog, thorough=False):
    out = []
    for m in MODULES:
        mod = importlib.import_module('sa.rules.' + m)
        for make in ('units',) + (('thorough_units',) if thorough else ()):
            try:
                out.extend(getattr(mod, make, lambda p: ())(prog))
            except Anchor as e:
                # what the module analyses is not found in the program: its obligations are undecided
                out.append(Unit('module ' + m, ALL, missing, str(e)))
    return out


ALL = ['C%02d' % i for i in range(1, 100)]


def missing(prog, why):
    return Result([Rec(ALL, 'undecided', 'anchor', why)], notes=[why])

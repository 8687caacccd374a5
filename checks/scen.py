"""Scenarios: one abstract run of a public entry point, split by case where the analysis asks for it."""
import os
import time
from absint import arrays as A, terms as T
from absint.facts import EMPTY
from absint.interp import Dead, Interp, NeedSplit, NeedUnroll
from absint.terms import (AnalysisError, FALSE, ONE, TRUE, ZERO, cmp_eq, cmp_ge, cmp_gt, const, leaf, sym, t_and, t_not,
                          t_or)
from absint.vals import *


DEBUG = bool(os.environ.get('SCEN_DEBUG'))


class Case:
    """The result of one abstract run: returned value, exceptions, events."""

    def __init__(self, I, conds, value, returned):
        self.I, self.conds, self.value, self.returned = I, conds, value, returned
        self.facts = I.st.facts
        self.raises = [(rel, e, s) for rel, e, s in I.handlers[0].out]
        self.events = I.events
        self.extra = {}

    def feasible_raises(self):
        out = []
        for rel, e, s in self.raises:
            out.append((e, rel, s))
        return out


def run(setup, assumptions=(), limit=64, root=os.environ.get('VERIF_REPO', '/repo')):
    """setup(I) -> value; the cases into which the scenario had to be split."""
    todo = [list(assumptions)]
    out = []
    n = 0
    while todo:
        conds = todo.pop()
        n += 1
        if n > limit:
            raise AnalysisError('too many cases in a scenario')
        I = Interp(root)
        ok = True
        for c in conds:
            if not I.st.assume(c):
                ok = False
                break
        if not ok:
            continue
        try:
            try:
                v = setup(I)
                out.append(Case(I, conds, v, True))
            except Dead:
                out.append(Case(I, conds, None, False))
        except NeedSplit as e:
            if DEBUG:
                print('SPLIT', e.why, T.show_tree(e.cond), I.loc())
            todo.append(conds + [t_not(e.cond)])
            todo.append(conds + [e.cond])
        except NeedUnroll as e:
            raise AnalysisError('a loop cannot be summarised: %s' % (e.why,))
    return out


def S(name, lo=None, hi=None):
    if lo is not None and isinstance(hi, int) and lo == hi:
        return const(lo)
    return sym(name, True, lo, hi)


def arr(I, name, shape, dtype='f8', kind='np', strided=False, elem=None):
    shape = [const(s) if isinstance(s, int) else s for s in shape]
    owner = {'input': name}
    if strided:
        owner['strided'] = True
    return I.new_array(shape, dtype, elem or A.Elem(name), name=name, owner=owner)


def get(I, dotted):
    """The public object 'package.module:name' (ImportError of the module under analysis included)."""
    mod, name = dotted.split(':')
    m = I.import_module(mod)
    if m is None:
        raise AnalysisError('the module %s is gone' % mod)
    return I.global_get(m, name)


def client(I, name):
    """A small program of checks/clients, analysed as a user of the package."""
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'clients', name + '.py')
    return I.module('client_' + name, p)

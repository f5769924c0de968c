import ast, sys, types, os, pickle, warnings
import z3
import dill, dill._dill as D, dill.session as SESS, dill.detect as DET, dill.source as SRC, dill.temp as TEMP
import dill.pointers as PTR, dill._shims as SHIMS, dill.logger as LOG, dill.settings as SETT
from pyvc.terms import *
from pyvc.core import *
from pyvc.interp import *
from pyvc.api import *
from pyvc.picklelib import *


def save_fn(t):
    """the function registered with the dill Pickler for type t"""
    return D.Pickler.dispatch[t]


@contract(LOG.TraceAdapter.trace, 'TraceAdapter.trace', 'C22')
def _trace(m, args, kwargs):
    """tracing has no effect on the pickle (obligations in C22)"""
    return NONE


def arbitrary_item(m, x, fr, seq, check):
    """an arbitrary item of a comprehension over a symbolic sequence: check(i, selected formula, element thunk); ends the path"""
    g = x.generators[0]
    sub = Frame(fr, fr.module, fr.fn); sub.comp = True; sub.on_yield = fr.on_yield
    for n in ast.walk(g.target):
        if isinstance(n, ast.Name): sub.locals.add(n.id)
    i = m.ctx.fresh('i', I); m.assume([i >= 0, i < seq.n])
    m.assign(g.target, seq.get(i), sub)
    ok = And(*[m.truth(m.eval(c, sub)) for c in g.ifs])
    check(i, ok, lambda: m.eval(x.elt, sub))
    raise PathEnd('an arbitrary item verified')

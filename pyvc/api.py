"""Registry of proof units and function contracts, and the runner."""
import os, sys, time, traceback, json
import z3
from .terms import *
from .core import *
from .interp import *
from .env import Env
from . import picklelib

UNITS = {}           # property -> [Unit]


class Unit:
    def __init__(self, prop, name, targets, fn, cfg, bounded=False, doc=''):
        self.prop, self.name, self.targets, self.fn, self.cfg, self.bounded, self.doc = prop, name, targets, fn, cfg, bounded, doc


def unit(prop, name, targets=(), bounded=False, covers=(), **cfg):
    def deco(fn):
        u = Unit(prop, name, tuple(targets), fn, cfg, bounded, (fn.__doc__ or '').strip())
        u.covers = tuple(covers)
        for p in ([prop] if isinstance(prop, str) else prop):
            UNITS.setdefault(p, []).append(u)
        return fn
    return deco


CONTRACTS = {}       # host function -> Contract


class Contract:
    """what callers may assume about a function (its own obligations are discharged by units)"""
    def __init__(self, name, apply, proved_by):
        self.name, self._apply, self.proved_by = name, apply, proved_by
    def apply(self, m, args, kwargs):
        return self._apply(m, args, kwargs)


def contract(fn, name, proved_by):
    def deco(ap):
        CONTRACTS[fn] = Contract(name, ap, proved_by)
        return ap
    return deco


_source = None
def make_env(contracts=True):
    global _source
    if _source is None: _source = Source(REPO)
    env = Env(_source, dict(CONTRACTS) if contracts else {})
    picklelib.install(env)
    return env


def run_unit(u, seconds=120, smt2=None, unroll=None):
    env = make_env()
    cfg = dict(u.cfg); cfg.setdefault('seconds', seconds)
    if unroll: cfg['unroll'] = unroll
    c = Config(smt2=smt2, **cfg)
    t = time.time()
    def fn(m):
        try:
            u.fn(m)
        except PyRaise as r:
            m.ctx.res.unsupported.append('exception escaped the proof unit: %r %s' % (m.pytype(r.val), m.attrs.get(getattr(r.val, 'addr', None), {}).get('args')))
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, NameError, z3.Z3Exception, RecursionError) as e:
            if os.environ.get('VMODEL') and not m.ctx.res.unsupported: print(''.join(traceback.format_exc().splitlines(True)[-9:]))
            m.ctx.res.unsupported.append('the engine failed: %s: %s' % (type(e).__name__, str(e)[:200]))
    res = explore(u.name, fn, lambda ctx: Machine(ctx, env), c)
    res.wall = time.time() - t
    res.unit = u
    for cv in u.covers:
        if cv not in res.reached: res.unsupported.append('cover %r was not reached (vacuous)' % cv)
    return res


def summarize(res):
    d = {}
    for o in res.obls:
        d.setdefault(o.label, []).append(o.status)
    return {k: {s: v.count(s) for s in set(v)} for k, v in d.items()}

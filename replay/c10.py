from oracle import *
import inspect, dill, io, pickle, itertools
import dill._dill as D
from dill.settings import settings

SEEN = []


class Spy:
    """records what the stock pickler and unpickler receive and the option attributes in use"""
    def __enter__(self):
        self.old = (D.StockPickler.__init__, D.StockPickler.dump, D.StockUnpickler, D.Unpickler.__bases__)
        pi, pd, U, _ = self.old
        self.init, self.dump, self.uinit, self.load = [], [], [], []
        def p_init(s, *a, **k):
            b = inspect.signature(pi).bind(s, *a, **k).arguments; b.pop(next(iter(b)))
            self.init.append(((b.pop('file'),), dict(b))); return pi(s, *a, **k)
        def p_dump(s, obj): self.dump.append({n: getattr(s, n) for n in ('_byref', '_fmode', '_recurse', 'proto')}); return pd(s, obj)
        class Rec(U):
            __slots__ = ()
            def __init__(s, *a, **k): self.uinit.append((a, k)); return U.__init__(s, *a, **k)
            def load(s): self.load.append(s._ignore); return U.load(s)
        D.StockPickler.__init__, D.StockPickler.dump = p_init, p_dump
        D.StockUnpickler = Rec; D.Unpickler.__bases__ = (Rec,)
        return self
    def __exit__(self, *a):
        D.StockPickler.__init__, D.StockPickler.dump, D.StockUnpickler, D.Unpickler.__bases__ = self.old


VALS = {'protocol': [None, 0, 1, 2, 3, 4, 5, -1], 'byref': [None, False, True, 0, 1], 'fmode': [None, 0, 1, 2], 'recurse': [None, False, True, 0], 'ignore': [None, False, True, 0, 1]}


def configs():
    yield {}
    yield {'byref': True, 'fmode': 2, 'recurse': True, 'ignore': True, 'protocol': 0}
    yield {'byref': False, 'fmode': 1, 'recurse': True, 'ignore': False, 'protocol': 2}
    yield {'byref': True, 'fmode': 0, 'recurse': False, 'ignore': True, 'protocol': 5}


def same(a, b): return type(a) is type(b) and a == b


def with_settings(fn):
    base = dict(settings)
    for cfg in configs():
        settings.update(base); settings.update(cfg)
        snap = dict(settings)
        try: fn(snap)
        finally:
            check(dict(settings) == snap and all(settings[k] is snap[k] for k in snap), 'settings unmodified')
            settings.clear(); settings.update(base)


def want(opt, v, snap):
    w = snap[opt] if v is None else v
    return w


def used(sp, snap, opts):
    check(len(sp.dump) == 1, 'one dump')
    got = sp.dump[0]
    for o in ('byref', 'fmode', 'recurse'):
        check(same(got['_' + o], want(o, opts.get(o), snap)), '%s=%r with setting %r used %r' % (o, opts.get(o), snap[o], got['_' + o]))
    pr = want('protocol', opts.get('protocol'), snap)
    check(got['proto'] == (pickle.HIGHEST_PROTOCOL if pr < 0 else pr), 'protocol %r used %r' % (pr, got['proto']))


def combos():
    """each option at each value alone, and pairs of distinct options"""
    names = ['protocol', 'byref', 'fmode', 'recurse']
    yield {}
    for n in names:
        for v in VALS[n]: yield {n: v}
    for a, b in itertools.combinations(names, 2):
        for x in VALS[a][:4]:
            for y in VALS[b][:4]: yield {a: x, b: y}
    yield {'protocol': 2, 'byref': False, 'fmode': 0, 'recurse': False}
    yield {'protocol': 0, 'byref': True, 'fmode': 2, 'recurse': True}


OBJ = [1, 'a', (2, None)]


@case()
def dump_and_dumps():
    def go(snap):
        for opts in combos():
            for fix in (None, False, True):
                kw = dict(opts)
                if fix is not None: kw['fix_imports'] = fix
                given = dict(kw)
                with Spy() as sp: s = dill.dumps(OBJ, **kw)
                used(sp, snap, opts)
                check(kw == given, 'arguments unmodified')
                check({k: v for k, v in sp.init[0][1].items() if k != 'protocol'} == ({} if fix is None else {'fix_imports': fix}), 'remaining keywords: %r' % (sp.init[0][1],))
                f = io.BytesIO()
                with Spy() as sp: r = dill.dump(OBJ, f, **kw)
                used(sp, snap, opts)
                check(sp.init[0][0][0] is f and r is None, 'dump to the given file')
                check(f.getvalue() == s, 'dumps returns what dump writes')
                check(pickle.loads(s) == OBJ, 'round trip')
    with_settings(go)


@case()
def positional():
    names = ['protocol', 'byref', 'fmode', 'recurse']
    def go(snap):
        for vals in ((0,), (3, True), (None, False), (2, None, 1), (4, False, 0, True), (None, None, None, False), (1, True, 2, None)):
            opts = dict(zip(names, vals))
            with Spy() as sp: s = dill.dumps(OBJ, *vals)
            used(sp, snap, opts)
            f = io.BytesIO()
            with Spy() as sp: dill.dump(OBJ, f, *vals)
            used(sp, snap, opts)
            check(f.getvalue() == s, 'same bytes')
            with Spy() as sp: dill.copy(OBJ, *vals)
            used(sp, snap, opts)
            check(sp.load == [snap['ignore']], 'ignore default')
    with_settings(go)


@case()
def pickler_object():
    def go(snap):
        for opts in combos():
            f = io.BytesIO()
            kw = {k: v for k, v in opts.items() if k != 'protocol'}
            for how in range(3):
                a = (f,) if how else (f, opts.get('protocol'))
                k2 = dict(kw)
                if how == 1: k2['protocol'] = opts.get('protocol')
                with Spy() as sp:
                    p = dill.Pickler(*a, **k2)
                    p.dump(OBJ)
                for o in ('byref', 'fmode', 'recurse'):
                    check(same(sp.dump[0]['_' + o], want(o, opts.get(o), snap)), 'Pickler %s' % o)
                check(sp.init[0][1] == ({} if how == 2 else {'protocol': opts.get('protocol')}), 'remaining arguments')
                check(sp.init[0][0][0] is f, 'the file')
    with_settings(go)
    # the setting at the time of the call, not at import or at dump time
    base = dict(settings)
    try:
        settings['recurse'] = True
        p = dill.Pickler(io.BytesIO()); settings['recurse'] = False
        check(p._recurse is True, 'at the time of the call')
    finally: settings.update(base)


@case()
def buffer_callback_reaches_pickler():
    bufs = []
    b = pickle.PickleBuffer(bytearray(b'x' * 10))
    s = dill.dumps([b], protocol=5, buffer_callback=bufs.append)
    check(len(bufs) == 1, 'buffer_callback')
    got = dill.loads(s, buffers=[bytearray(b'y' * 10)])
    check(bytes(got[0]) == b'y' * 10, 'buffers reach the unpickler')
    got = dill.load(io.BytesIO(s), buffers=[bytearray(b'z' * 10)])
    check(bytes(got[0]) == b'z' * 10, 'buffers reach the unpickler')


@case()
def load_and_loads():
    s = dill.dumps(OBJ)
    def go(snap):
        for v in [Ellipsis] + VALS['ignore']:
            for extra in ({}, {'encoding': 'latin1'}, {'fix_imports': False, 'errors': 'replace'}):
                kw = dict(extra)
                if v is not Ellipsis: kw['ignore'] = v
                given = dict(kw)
                w = want('ignore', None if v is Ellipsis else v, snap)
                with Spy() as sp: r = dill.loads(s, **kw)
                check(r == OBJ and len(sp.load) == 1 and same(sp.load[0], w), 'loads ignore=%r' % (v,))
                check(sp.uinit[0][1] == extra, 'remaining keywords')
                f = io.BytesIO(s)
                with Spy() as sp: r = dill.load(f, **kw)
                check(r == OBJ and same(sp.load[0], w) and sp.uinit[0][0][0] is f and sp.uinit[0][1] == extra, 'load')
                with Spy() as sp: r = dill.Unpickler(io.BytesIO(s), **kw).load()
                check(r == OBJ and same(sp.load[0], w) and sp.uinit[0][1] == extra, 'Unpickler')
                check(kw == given, 'arguments unmodified')
            if v is not Ellipsis:
                with Spy() as sp: dill.loads(s, v)
                check(same(sp.load[0], w), 'positional')
                with Spy() as sp: dill.load(io.BytesIO(s), v)
                check(same(sp.load[0], w), 'positional')
    with_settings(go)


@case()
def copying():
    def go(snap):
        for opts in combos():
            for v in [Ellipsis] + VALS['ignore']:
                kw = dict(opts)
                if v is not Ellipsis: kw['ignore'] = v
                given = dict(kw)
                with Spy() as sp: r = dill.copy(OBJ, **kw)
                used(sp, snap, opts)
                check(r == OBJ and r is not OBJ, 'copied')
                check(len(sp.load) == 1 and same(sp.load[0], want('ignore', None if v is Ellipsis else v, snap)), 'copy ignore=%r' % (v,))
                check('ignore' not in sp.init[0][1], 'ignore is not for the pickler')
                check(kw == given, 'arguments unmodified')
    with_settings(go)


@case()
def effective_behaviour():
    """the options change what they should, through every entry point"""
    src = 'import types, dill, sys\n' + '''
def f(): return g1
g1 = 1; g2 = 2
s0 = dill.dumps(f, recurse=False); s1 = dill.dumps(f, recurse=True)
assert b'g2' in s0 or b'__main__' in s0
assert b'g2' not in s1 and b'g1' in s1
class A: pass
assert len(dill.dumps(A, byref=True)) < len(dill.dumps(A, byref=False))
dill.settings['byref'] = True
assert dill.dumps(A) == dill.dumps(A, byref=True) and dill.dumps(A, byref=False) != dill.dumps(A)
dill.settings['byref'] = False; dill.settings['protocol'] = 2
assert dill.dumps([1])[:2] == b'\\x80\\x02'
assert dill.dumps([1], 0)[:1] == b'('
assert dill.dumps([1], protocol=0)[:1] == b'('
try: dill.dumps([1], nonsense=1)
except TypeError: pass
else: raise AssertionError('unknown keyword swallowed')
try: dill.loads(dill.dumps(1), nonsense=1)
except TypeError: pass
else: raise AssertionError('unknown keyword swallowed')
'''
    child(src); tick()

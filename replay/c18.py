from oracle import *
import pickletools, dill, io, os, sys, types, warnings, pathlib
import dill._dill as D, dill.session as S

def here(): sys.modules['c18'] = sys.modules[__name__]
def runtime_mod(name, **kw): m = types.ModuleType(name); m.__dict__.update(kw); return m
def imported_mod(name, **kw):
    m = runtime_mod(name, **kw); m.__loader__ = object(); sys.modules[name] = m; return m
def stored(m, **k): b = io.BytesIO(); dill.dump_module(b, m, **k); return b.getvalue()
class Fail:
    def __init__(self, e): self.e = e
    def __reduce__(self): return boom, (self.e,)
def boom(e): raise getattr(__import__('builtins'), e)('planned')
class Drop:
    """changes sys.modules while loading"""
    def __init__(self, n): self.n = n
    def __reduce__(self): return drop, (self.n,)
def drop(n): sys.modules.pop(n, None); return n
def snap(m): return {k: (id(v), repr(v)[:80] if isinstance(v, (int, str, list, dict)) and k != '__builtins__' else None) for k, v in m.__dict__.items()}


@case()
def the_module_is_not_touched():
    here()
    import colorsys, json.decoder, xml.dom.minidom
    for m in (colorsys, xml.dom.minidom, imported_mod('zz_imp', v=[1]), sys.modules['bisect'] if 'bisect' in sys.modules else colorsys):
        for ref in (False, True):
            m.__dict__['c18_value'] = [1, 2]
            data = stored(m, refimported=ref)
            m.__dict__['c18_value'] = 'changed'; m.__dict__['c18_new'] = 5
            before, mods = snap(m), dict(sys.modules)
            for upd in (False, True):
                s = io.BytesIO(data)
                d = dill.load_module_asdict(s, update=upd)
                check(type(d) is dict and d is not m.__dict__, 'a new dictionary')
                check(d['c18_value'] == [1, 2], 'holding the stored state')
                check(('c18_new' in d) == upd, 'over the current state only if update: %r' % upd)
                check(d['__name__'] == m.__name__ and d['__session__'] == str(s), 'name and __session__')
                check(snap(m) == before, '%s untouched (update=%r)' % (m.__name__, upd))
                check(dict(sys.modules) == mods, 'sys.modules as before')
                fns = [k for k, v in d.items() if isinstance(v, types.FunctionType) and v.__module__ == m.__name__ and not ref]
                for k in fns[:3]: check(d[k].__globals__ is d, "loaded functions use the dictionary, not the module")
            del m.__dict__['c18_new']
        del m.__dict__['c18_value']


def failing(m):
    data = stored(m)
    yield 'fine', data, {}, None
    for n in (0, 1, 10, 30, len(data) // 2, len(data) - 1): yield 'cut %d' % n, data[:n], {}, Exception
    yield 'garbage', b'\x80\x04}.', {}, Exception
    yield 'bad keyword', data, {'nonsense': 1}, TypeError
    yield 'both', data, {'main': m}, TypeError
    for e in ('ValueError', 'KeyError', 'NameError', 'KeyboardInterrupt', 'SystemExit', 'MemoryError', 'AssertionError', 'ImportError'):
        m.__dict__['zfail'] = Fail(e)
        yield e, stored(m), {}, getattr(__import__('builtins'), e)
        del m.__dict__['zfail']
    m.__dict__['zdrop'] = Drop(m.__name__)
    yield 'drops its entry', stored(m), {}, None
    del m.__dict__['zdrop']


@case(timeout=120)
def sys_modules_on_every_exit():
    here()
    for name in ('zz_q', 'zz_pkg.sub'):
        sys.modules['zz_pkg'] = pkg = runtime_mod('zz_pkg')
        m = imported_mod(name, v=[1], w='x')
        if '.' in name: pkg.sub = m
        for what, data, kw, exc in list(failing(m)):
            for entry in (m, 'absent', runtime_mod(name, __loader__=object(), v=3), 'other'):
                for upd in (False, True):
                    if entry == 'absent': sys.modules.pop(name, None)
                    elif entry == 'other': sys.modules[name] = runtime_mod(name, v=7)
                    else: sys.modules[name] = entry
                    if upd and entry == 'absent': continue
                    mods = dict(sys.modules); e0 = sys.modules.get(name); s0 = snap(e0) if e0 else None; m0 = snap(m)
                    try:
                        dill.load_module_asdict(io.BytesIO(data), update=upd, **kw)
                        ok = True
                    except BaseException as e:
                        ok = False
                        check(exc is not None and isinstance(e, exc) or '.' in name and entry != m, '%s: unexpected %r' % (what, e))
                    check(dict(sys.modules) == mods, '%s: sys.modules as before (%s, update=%r): %r' % (what, entry, upd, {k for k in set(mods) ^ set(sys.modules)} | {k for k in mods if sys.modules.get(k) is not mods[k]}))
                    check((snap(e0) if e0 else None) == s0 and snap(m) == m0, '%s: module untouched (%s, update=%r)' % (what, entry, upd))
        sys.modules.pop(name, None)


@case('blocked module')
def blocked():
    here()
    data = stored(imported_mod('zz_b', v=1))
    for upd in (False, True):
        sys.modules['zz_b'] = None
        try: dill.load_module_asdict(io.BytesIO(data), update=upd)
        except ImportError: pass
        check('zz_b' in sys.modules and sys.modules['zz_b'] is None, 'a None entry stays')
    del sys.modules['zz_b']


@case('submodules')
def submodules():
    here()
    import xml.dom.minidom as X, os.path, email.quoprimime as J, concurrent.futures.thread as T
    for m in (X, J):
        m.__dict__['c18_v'] = 1
        data = stored(m); m.__dict__['c18_v'] = 2
        before = snap(m); mods = dict(sys.modules)
        d = dill.load_module_asdict(io.BytesIO(data))
        check(d['c18_v'] == 1 and m.c18_v == 2 and snap(m) == before and dict(sys.modules) == mods, 'submodule %s untouched' % m.__name__)
        check(dill.load_module(io.BytesIO(data)) is m and m.c18_v == 1, 'load_module loads into the submodule')


@case('runtime modules')
def runtime_modules():
    here()
    for name in ('rq', 'r.q', 'sys', 'os'):
        m = runtime_mod(name, v=[1], f=eval('lambda: v', {}))
        data = stored(m); m.v = 2
        before, mods = snap(m), dict(sys.modules)
        for upd in (False, True):
            d = dill.load_module_asdict(io.BytesIO(data), update=upd)
            check(d['v'] == [1] and d['__name__'] == name and d is not m.__dict__, 'the stored state')
            check(snap(m) == before and dict(sys.modules) == mods, 'nothing else changes: %r' % (set(sys.modules) ^ set(mods)))
        for cut in (5, 40, len(data) - 2):
            try: dill.load_module_asdict(io.BytesIO(data[:cut]))
            except Exception: pass
            check(dict(sys.modules) == mods, 'nothing changes on failure')


@case()
def session_names_the_file():
    here()
    m = imported_mod('zz_s', v=1)
    p = os.path.abspath('s.pkl'); dill.dump_module(p, m)
    for f in (p, pathlib.Path(p), 's.pkl'):
        eq(dill.load_module_asdict(f)['__session__'], str(f), '__session__')
    S.SESSION_TEMPFILE = p
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); eq(dill.load_module_asdict()['__session__'], p, '__session__')
    m.__session__ = 'mine'
    dill.dump_module(p, m); eq(dill.load_module_asdict(p)['__session__'], p, '__session__'); eq(m.__session__, 'mine', 'module')
    d = dill.load_module_asdict(p); d2 = dill.load_module_asdict(p)
    check(d is not d2 and d['v'] == 1, 'a new dictionary every time')
    raises(TypeError, dill.load_module_asdict, p, module=m)


@case()
def main_session():
    out = child("""
import dill, io, sys
v = [1]; w = 2
def f(): return v
main = sys.modules['__main__']
b = io.BytesIO(); dill.dump_module(b)
v = 'changed'; new = 3
for upd in (False, True):
    snap = dict(globals()); b.seek(0)
    d = dill.load_module_asdict(b, update=upd)
    assert {k: x for k, x in globals().items() if k not in ('snap', 'd', 'upd')} == {k: x for k, x in snap.items() if k not in ('snap', 'd', 'upd')}
    assert sys.modules['__main__'] is main and d is not globals() and d['v'] == [1] and d['f']() == [1] and d['f'].__globals__ is d
    assert ('new' in d) == upd, upd
    assert dill._dill._main_module is main
b.seek(0)
try: dill.load_module_asdict(io.BytesIO(b.read()[:-40]))
except Exception: pass
assert sys.modules['__main__'] is main
print('done')
""")
    check(out.strip() == 'done', out)

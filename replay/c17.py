from oracle import *
import pickletools, dill, io, os, sys, types, warnings, itertools
import dill._dill as D, dill.session as S

LOADED = []
def touched(): LOADED.append(1); return 'canary'
class Canary:
    def __reduce__(self): return touched, ()


def here():
    """make this file's functions importable by name in the pickles"""
    sys.modules['c17'] = sys.modules[__name__]


def runtime_mod(name, **kw): m = types.ModuleType(name); m.__dict__.update(kw); return m
def enter(m):
    name = m.__name__; sys.modules[name] = m
    if '.' in name: setattr(sys.modules[name.rpartition('.')[0]], name.rpartition('.')[2], m)


def imported_mod(name, **kw):
    m = runtime_mod(name, **kw); m.__loader__ = object(); enter(m); return m


def stored(m, refimported=False, protocol=None):
    m.__dict__['first'] = Canary()
    b = io.BytesIO(); dill.dump_module(b, m, refimported); del m.__dict__['first']
    return b.getvalue()


NAMES = ['aa', 'aab', 'a', 'pkg.sub', '__runtime__x', 'rt.__runtime__', 'runtime']


def fresh():
    for n in list(sys.modules):
        if n in NAMES or n.startswith('__runtime__'): del sys.modules[n]
    sys.modules['pkg'] = runtime_mod('pkg'); sys.modules['rt'] = runtime_mod('rt')


def attempt(data, target, how='module', file=None):
    """(outcome, touched, sys.modules changes)"""
    del LOADED[:]
    before = dict(sys.modules)
    kw = {} if target is None else {how: target}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = ('ok', dill.load_module(file or io.BytesIO(data), **kw))
    except Exception as e: r = ('err', type(e), str(e))
    gone = {k for k in before if k not in sys.modules or sys.modules[k] is not before[k]}
    new = {k for k in sys.modules if k not in before}
    return r, len(LOADED), gone, new


@case(timeout=120)
def every_target_against_every_stored_module():
    here()
    for sname, skind in itertools.product(NAMES, ('runtime', 'imported')):
        fresh()
        src = (runtime_mod if skind == 'runtime' else imported_mod)(sname, v=1)
        data = stored(src)
        for tname, tkind in itertools.product(NAMES, ('runtime', 'imported')):
            fresh()
            t = (runtime_mod if tkind == 'runtime' else imported_mod)(tname, v=0)
            keys = dict(t.__dict__)
            for how in ('module', 'main'):
                r, touched_, gone, new = attempt(data, t, how)
                what = '%s module %s into %s module %s' % (skind, sname, tkind, tname)
                check(not gone, '%s: no entry of sys.modules is removed: %r' % (what, gone))
                check(not any(n.startswith('__runtime__.') for n in new), '%s: no temporary entry stays: %r' % (what, new))
                if (sname, skind) == (tname, tkind):
                    check(r == ('ok', None), '%s: loaded, None returned: %r' % (what, r)); check(touched_ == 1 and t.v == 1, 'state loaded')
                    t.__dict__.clear(); t.__dict__.update(keys)
                else:
                    check(r[:2] == ('err', ValueError), '%s: ValueError: %r' % (what, r))
                    check(touched_ == 0 and t.__dict__ == keys, '%s: nothing was unpickled' % what)


@case()
def targets_by_name_and_none():
    here()
    for sname in NAMES:
        for skind in ('runtime', 'imported'):
            fresh()
            src = (runtime_mod if skind == 'runtime' else imported_mod)(sname, v=1); data = stored(src)
            r, n, gone, new = attempt(data, None)
            check(r[0] == 'ok' and isinstance(r[1], types.ModuleType) and r[1].v == 1 and r[1].__name__ == sname, 'no target: %r' % (r,))
            check((r[1] is src) == (skind == 'imported'), 'the imported module itself, or a new one')
            check(not gone and not new, 'sys.modules as before: %r %r' % (gone, new))
            for tname in NAMES + ['__runtime__.' + x for x in NAMES]:
                fresh()
                if skind == 'imported': enter(src)
                for x in NAMES:
                    if x not in sys.modules: imported_mod(x, v=0)
                r, n, gone, new = attempt(data, tname)
                trt = tname.startswith('__runtime__.')
                ok = (tname[12:] if trt else tname) == sname and trt == (skind == 'runtime')
                what = '%s %s into the name %r' % (skind, sname, tname)
                check(not gone and not [x for x in new if x.startswith('__runtime__')], '%s: sys.modules %r %r' % (what, gone, new))
                if ok: check(r[0] == 'ok' and r[1].__name__ == sname and r[1].v == 1, '%s: loaded and returned: %r' % (what, r))
                else: check(r[:2] == ('err', ValueError) and not n, '%s: ValueError before unpickling: %r' % (what, r))


@case()
def targets_that_are_not_modules():
    here(); fresh()
    class Fake: __name__ = 'aa'; __loader__ = None
    f = Fake(); f.__dict__.update(__name__='aa', v=0)
    for src in (runtime_mod('aa', v=1), imported_mod('aa', v=1)):
        data = stored(src)
        for t in (3, 0, 1.5, ['aa'], ('aa',), {'__name__': 'aa'}, f, Fake, b'aa', False, True, len, object(), types.SimpleNamespace(__name__='aa', __dict__={})):
            for how in ('module', 'main'):
                r, n, gone, new = attempt(data, t, how)
                check(r[:2] == ('err', TypeError), 'target %r: TypeError: %r' % (t, r))
                check(n == 0 and not gone and not new, 'nothing unpickled')
    r = raises(TypeError, dill.load_module, io.BytesIO(data), module=src, main=src)
    r, n, gone, new = attempt(data, 'no_such_module_q')
    check(r[0] == 'err' and issubclass(r[1], ImportError) and not n, 'unknown module')
    # a runtime name in sys.modules that is no module
    sys.modules['aa'] = f
    r, n, gone, new = attempt(data, 'aa')
    check(r[:2] == ('err', TypeError) and not n and not gone, 'the imported object is no module: %r' % (r,))


class NoPeek:
    def __init__(self, d): self.f = io.BytesIO(d); self.read = self.f.read; self.readline = self.f.readline
    seek = None
    def tell(self): raise OSError('no')


@case()
def unidentified_streams():
    """the kind and name cannot be known before loading"""
    here(); fresh()
    src = imported_mod('aa', v=1); data = stored(src); src.v = 0
    r, n, gone, new = attempt(data, src, file=NoPeek(data)); check(r == ('ok', None) and src.v == 1, 'accepted with a target: %r' % (r,))
    r, n, gone, new = attempt(data, None, file=NoPeek(data)); check(r[:2] == ('err', dill.UnpicklingError) and not n, 'refused without: %r' % (r,))
    for cut in (0, 1, 5, 10): 
        r, n, gone, new = attempt(data[:cut], src); check(r[:2] == ('err', dill.UnpicklingError) and not gone and not new, 'cut short: %r' % (r,))


class Fail:
    def __init__(self, e): self.e = e
    def __reduce__(self): return boom, (self.e,)
def boom(e): LOADED.append(sorted(k for k in sys.modules if k.startswith('__runtime__'))); raise getattr(__import__('builtins'), e)


@case()
def temporary_entry_on_every_exit():
    here()
    for e in ('ValueError', 'KeyError', 'NameError', 'KeyboardInterrupt', 'SystemExit', 'MemoryError', 'AssertionError'):
        for kind in (runtime_mod, imported_mod):
            fresh()
            m = kind('aa', a=1, f=Fail(e), z=3); b = io.BytesIO(); dill.dump_module(b, m); data = b.getvalue()
            before = dict(sys.modules)
            for t in (None, kind('aa')):
                before = dict(sys.modules)
                del LOADED[:]
                raises(getattr(__import__('builtins'), e), dill.load_module, io.BytesIO(data), *([t] if t is not None else []))
                check(dict(sys.modules) == before, 'sys.modules restored after %s' % e)
                check(LOADED == [['__runtime__.aa'] if kind is runtime_mod else []], 'the runtime module can be found while loading: %r' % LOADED)
    # unrelated runtime entries survive
    fresh()
    other = sys.modules['__runtime__.other'] = runtime_mod('other')
    m = runtime_mod('aa', v=1); data = stored(m)
    r, n, gone, new = attempt(data, None); check(r[0] == 'ok' and sys.modules.get('__runtime__.other') is other, 'only its own entry is removed')
    r, n, gone, new = attempt(data[:-10], m); check(r[0] == 'err' and sys.modules.get('__runtime__.other') is other, 'only its own entry is removed')
    imp = imported_mod('other', v=1); data = stored(imp)
    r, n, gone, new = attempt(data, imp); check(r == ('ok', None) and sys.modules.get('__runtime__.other') is other, 'not even of the same name')
    fresh()


@case()
def return_values():
    out = child('''
import dill, io, sys, types
main = sys.modules['__main__']; main.v = 1
b = io.BytesIO(); dill.dump_module(b); d = b.getvalue()
for args in ((), (main,), ('__main__',)):
    main.v = 2
    assert dill.load_module(io.BytesIO(d), *args) is None, args
    assert main.v == 1
    assert dill.load_module(io.BytesIO(d), **({'module': args[0]} if args else {})) is None
try: dill.load_module(io.BytesIO(d), types.ModuleType('__main__'))
except ValueError: pass
else: assert 0, 'a runtime module called __main__'
m = types.ModuleType('q'); m.f = lambda: 5
b = io.BytesIO(); dill.dump_module(b, m); d = b.getvalue()
for n in (None, '__runtime__.q'):
    r = dill.load_module(io.BytesIO(d), n)
    assert isinstance(r, types.ModuleType) and r is not m and r.f() == 5
assert dill.load_module(io.BytesIO(d), m) is None
import colorsys
colorsys.extra = [1]
b = io.BytesIO(); dill.dump_module(b, colorsys); d = b.getvalue(); colorsys.extra = 0
assert dill.load_module(io.BytesIO(d)) is colorsys and colorsys.extra == [1]
assert dill.load_module(io.BytesIO(d), 'colorsys') is colorsys
assert dill.load_module(io.BytesIO(d), colorsys) is None
print('done')
''')
    check(out.strip() == 'done', out)

from oracle import *
import pickletools, dill, io, os, sys, types, tempfile, shutil, contextlib, importlib, importlib.machinery
import dill._dill as D


@contextlib.contextmanager
def reductions():
    """what is written for modules"""
    log = []; orig = D.Pickler.__dict__.get('save_reduce'); stock = D.StockPickler.save_reduce
    def spy(self, func, args, state=None, listitems=None, dictitems=None, *a, obj=None, **k):
        if isinstance(obj, types.ModuleType): log.append((obj, func, args, dict(state) if isinstance(state, dict) else state, (listitems, dictitems) + a))
        return stock(self, func, args, state, listitems, dictitems, *a, obj=obj, **k)
    D.Pickler.save_reduce = spy
    try: yield log
    finally:
        if orig is None: del D.Pickler.save_reduce
        else: D.Pickler.save_reduce = orig


def snap(m): return dict(vars(m))
def same(a, b): return a.keys() == b.keys() and all(a[k] is b[k] for k in a)


def dump(m, what, **kw):
    before = snap(m)
    with reductions() as log: data = dill.dumps(m, **kw)
    check(same(before, snap(m)), '%s: the module is not changed' % what)
    mine = [x for x in log if x[0] is m]
    check(len(mine) == 1, '%s: written once: %d' % (what, len(mine)))
    return data, mine[0]


def by_name(m, what):
    data, (_, func, args, state, rest) = dump(m, what)
    check(func is D._import_module and args == (m.__name__,) and state is None and rest == (None, None), '%s: by name only: %r %r' % (what, args, state if state is None else sorted(state)))
    return data


def with_state(m, what, runtime):
    data, (_, func, args, state, rest) = dump(m, what)
    name = ('__runtime__.' if runtime else '') + m.__name__
    check(func is D._import_module and args == (name,) and rest == (None, None), '%s: under its name: %r' % (what, args))
    want = {k: v for k, v in vars(m).items() if k not in ('__builtins__', '__loader__')}
    check(state is not None and same(state, want), '%s: a copy of the namespace but the two entries' % what)
    return data


@case(timeout=200)
def interpreter_and_installed_modules():
    import numpy, json, xml.dom.minidom, os.path, ctypes, _ctypes, email, zlib, math, itertools, select
    seen = 0
    for name, m in sorted(sys.modules.items()):
        if not isinstance(m, types.ModuleType) or m.__name__ in ('dill', 'dill._dill', '__main__', '__mp_main__') or not hasattr(m, '__spec__'): continue
        f = getattr(m, '__file__', '')
        if f is None or f and not (f.startswith((os.path.join(sys.prefix, ''), os.path.join(sys.base_prefix, ''))) or 'site-packages' in f or f.endswith(tuple(importlib.machinery.EXTENSION_SUFFIXES))): continue
        data = by_name(m, name); seen += 1
        if sys.modules.get(m.__name__) is m and not name.startswith('numpy'): check(dill.loads(data) is m, '%s: loads as itself' % name)
    check(seen > 150, 'many modules tried: %d' % seen)
    check(dill.loads(dill.dumps(dill)) is dill and dill.loads(dill.dumps(D)) is D, 'dill itself')


def a_file(path, text): 
    os.makedirs(os.path.dirname(path), exist_ok=True); open(path, 'w').write(text)


@contextlib.contextmanager
def user_modules():
    tmp = tempfile.mkdtemp(); sys.path.insert(0, tmp)
    a_file(tmp + '/c13_user.py', 'x = [1]\ndef f(): return x\nclass A: pass\n')
    a_file(tmp + '/c13_pkg/__init__.py', 'y = 2\n'); a_file(tmp + '/c13_pkg/sub.py', 'z = 3\n')
    importlib.invalidate_caches()
    try: yield tmp
    finally:
        sys.path.remove(tmp)
        for n in list(sys.modules):
            if n.startswith('c13_'): del sys.modules[n]
        shutil.rmtree(tmp)


@case()
def user_modules_carry_state():
    with user_modules():
        import c13_user as u, c13_pkg as p, c13_pkg.sub as s
        for m in (u, p, s):
            m.__dict__['extra'] = [5]
            data = with_state(m, m.__name__, False)
            m.extra = None
            check(dill.loads(data) is m and m.extra == [5], '%s: loading restores the state' % m.__name__)
            check(m.__loader__ is not None and '__builtins__' in vars(m), '%s: keeps what is not stored' % m.__name__)
        loader = u.__loader__; del u.__loader__; u.__spec__ = None
        with_state(u, 'imported, without a loader', False)
        del sys.modules['c13_user']; u.__loader__ = loader
        with_state(u, 'with a loader, not in sys.modules', False)
        del u.__loader__
        with_state(u, 'neither loader nor entry', True)
        sys.modules['c13_other'] = u; with_state(u, 'under another name', False); u.__loader__ = None
        with_state(u, 'loader None', False)


@case()
def locations():
    """where the file of a module is"""
    names = ('base_prefix', 'base_exec_prefix', 'exec_prefix', 'prefix', 'real_prefix')
    old = {n: getattr(sys, n) for n in names if hasattr(sys, n)}
    tmp = tempfile.mkdtemp()
    try:
        os.makedirs(tmp + '/real/lib'); os.symlink(tmp + '/real', tmp + '/link')
        def mod(f): 
            m = types.ModuleType('c13_m')
            if f is not KeyError: m.__file__ = f
            return m
        def is_b(f): return D._is_builtin_module(mod(f))
        check(is_b(KeyError) is True and is_b(None) is False, 'no file; file None')
        for ext in importlib.machinery.EXTENSION_SUFFIXES: check(is_b('/home/u/x' + ext), 'extension module')
        for sub in ('', 'a/', 'a/b/', 'a/b/c/d/'):
            for top in ('/home/u/', '/', '', '/home/u/lib/python3.9/'): check(is_b(top + 'site-packages/' + sub + 'x.py'), 'installed package, %r %r' % (top, sub))
        check(is_b('/home/u/site-packages/x.py') and not is_b('/home/u/x.py') and not is_b('/home/u/x.pyc'), 'installed package')
        for n in names:
            for x in names: setattr(sys, x, tmp + '/none')
            for pre in ('/real', '/link', '/real/', '/link/'):
                setattr(sys, n, tmp + pre)
                for f in ('/real/lib/x.py', '/link/lib/x.py', '/real/x.py'):
                    check(is_b(tmp + f) is True, '%s=%s, %s: under the prefix' % (n, pre, f))
                for f in ('/other/x.py', '/realx/x.py', '/real.py', '/link-old/lib/x.py', '/lib/x.py'):
                    check(is_b(tmp + f) is False, '%s=%s, %s: not under the prefix' % (n, pre, f))
            if n not in old: delattr(sys, n)
        for x in names:
            if x in old and x != 'prefix': continue
            if hasattr(sys, x) and x != 'prefix': delattr(sys, x)
        sys.prefix = tmp + '/real'; check(is_b(tmp + '/real/x.py') and not is_b(tmp + '/o/x.py'), 'missing attributes are skipped')
    finally:
        for x in names:
            if x in old: setattr(sys, x, old[x])
            elif hasattr(sys, x): delattr(sys, x)
        shutil.rmtree(tmp)


@case()
def runtime_modules():
    for name in ('c13_rt', 'c13.rt', 'c13_é'):
        m = types.ModuleType(name); m.v = [1]; m.__file__ = None
        data = with_state(m, name, True)
        sys.modules['__runtime__.' + name] = t = types.ModuleType(name)
        try: r = dill.loads(data); check(r is t and t.v == [1], 'loads into the module of that runtime name')
        finally: del sys.modules['__runtime__.' + name]
        sys.modules[name] = m
        try: with_state(m, 'listed', False)
        finally: del sys.modules[name]
        m2 = types.ModuleType(name); m2.v = 1; by_name(m2, 'no file at all')


@case()
def session_main():
    print_ = child('''
import dill, io, sys, types, math, colorsys
class Hold: pass
def make():
    h = types.ModuleType('c13_hold'); h.__file__ = '/usr/site-packages/c13_hold.py'
    exec("""
import sys, io, types, dill
D = sys.modules['dill._dill']
log = []
stock = D.StockPickler.save_reduce
def spy(self, func, args, state=None, *a, obj=None, **k):
    if isinstance(obj, types.ModuleType): log.append((obj, args, set(state) if state is not None else None))
    return stock(self, func, args, state, *a, obj=obj, **k)
def run(m):
    del log[:]
    D.Pickler.save_reduce = spy
    before = dict(vars(m))
    try: dill.dump_module(io.BytesIO(), m)
    finally: del D.Pickler.save_reduce
    after = dict(vars(m))
    assert before.keys() == after.keys() and all(before[k] is after[k] for k in before)
    return [x for x in log if x[0] is m]
""", h.__dict__)
    sys.modules['c13_hold'] = h
make()
x = 5
main = sys.modules['__main__']
import c13_hold
r = c13_hold.run(main)
assert len(r) == 1 and r[0][1] == ('__main__',), r
assert r[0][2] == set(vars(main)) - {'__builtins__', '__loader__'} - ({'r'} - set(r[0][2])), r
for m in (math, colorsys, c13_hold, types.ModuleType('q')):
    r2 = c13_hold.run(m)
    assert len(r2) == 1 and r2[0][1] == (m.__name__ if m.__name__ != 'q' else '__runtime__.q',), r2
    assert r2[0][2] == set(vars(m)) - {'__builtins__', '__loader__'}, r2
print('done')
''')
    check(print_.strip() == 'done', print_)


def value_of(d, **kw):
    r = dill.loads(dill.dumps(d, **kw)); return r


@case('dictionaries')
def dictionaries():
    import json, os.path, numpy
    with user_modules():
        import c13_user as u, c13_pkg.sub as s
        main = sys.modules['__main__']
        for protocol in range(6):
            for m in (json, os, os.path, numpy, u, s, types, main):
                if m is os.path: continue               # (its recorded name is posixpath, an imported module as well)
                check(value_of(vars(m), protocol=protocol) is vars(m), '%s: the namespace itself' % m.__name__)
                c = dict(vars(m)); k = list(c)[0]
            for m in (u, s, main):
                for d in (dict(vars(m)), {**vars(m), 'more': 1}, {'__name__': m.__name__}, {'__name__': m.__name__, 'x': 1}):
                    d = {k: v for k, v in d.items() if isinstance(v, (int, str, list)) or k == '__builtins__' and False}
                    r = value_of(d, protocol=protocol)
                    check(r is not vars(m) and r == d, '%s: an ordinary dictionary stays one' % m.__name__)
            for d in ({'__name__': n} for n in ('', '.', 'a.', '.a', '..', 'no_module', 'os', 'os.', 5, None, ('os',), 'a\nb', '__runtime__.x', '__runtime__.', 'x' * 3000)):
                r = value_of(d, protocol=protocol); check(r == d and r is not d, 'a dictionary with __name__ %r' % (d['__name__'],))
        f = u.f; sys.modules.pop('c13_user')
        r = value_of({k: v for k, v in vars(u).items() if k in ('__name__', 'x')}); check(r['x'] == [1], 'the namespace of a module that is gone')
    open_ = sys.modules.copy()
    value_of({'__name__': 'this'}); value_of({'__name__': 'antigravity'})
    check('this' not in sys.modules and 'antigravity' not in sys.modules, 'the module named is not imported')


@case('equal to main')
def equal_to_main():
    """a dictionary that is equal to the main module's, but another one"""
    out = child('''
import dill
arr = [1]
def go():
    g = globals()
    d = dict(g); r = dill.loads(dill.dumps(d))
    assert r is not g and r.keys() == d.keys()
    assert dill.loads(dill.dumps(g)) is g
    d['arr'] = Odd(); dill.dumps(d)
    class P(dill.Pickler): pass
    import io
    for x, same in ((g, True), (dict(g), False)):
        b = io.BytesIO(); P(b).dump(x)
        assert (dill.loads(b.getvalue()) is g) == same
class Odd:
    def __eq__(self, o): raise ValueError('ambiguous')
    def __reduce__(self): return (int, ())
arr = Odd()
go()
print('done')
''')
    check(out.strip() == 'done', out)

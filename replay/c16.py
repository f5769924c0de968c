from oracle import *
import dill, io, os, sys, types, warnings, random, re, json
import dill._dill as D, dill.session as S
warnings.simplefilter('ignore')
BOOK = ('__dill_imported', '__dill_imported_as', '__dill_imported_top_level')


def new_module(name, d=(), register=False, doc=None):
    m = types.ModuleType(name, doc); m.__dict__.update(d)
    if register: sys.modules[name] = m
    return m


def holds(main, modname, objname, obj):
    """some other imported module holds that identical object under that name"""
    m = sys.modules.get(modname)
    return isinstance(m, types.ModuleType) and m is not main and objname in m.__dict__ and m.__dict__[objname] is obj


def partition(main, what):
    """the stash of a module: every name exactly once, imports real, the module untouched"""
    before = {k: id(v) for k, v in main.__dict__.items()}, list(main.__dict__), sorted(sys.modules)
    new = S._stash_modules(main)
    check(({k: id(v) for k, v in main.__dict__.items()}, list(main.__dict__), sorted(sys.modules)) == before, '%s: the module is modified' % what)
    if new is main:
        for name, obj in main.__dict__.items():
            if obj is main or obj is main.__dict__ or obj is None or obj is True or obj is False: continue
            check(not any(holds(main, mn, name, obj) for mn in sys.modules if mn not in ('__main__', '__mp_main__')) or isinstance(obj, types.ModuleType) and D._is_builtin_module(obj), '%s: %s could be an import' % (what, name))
        return None
    check(new is not main and isinstance(new, types.ModuleType) and new.__name__ == main.__name__, '%s: the saved copy' % what)
    nd = new.__dict__
    imp, as_, top = [nd[k] for k in BOOK]
    seen = {}
    for mn, n in imp: check(n not in seen, '%s: %s recorded twice' % (what, n)); seen[n] = ('import', mn, n)
    for mn, o, n in as_: check(n not in seen, '%s: %s recorded twice' % (what, n)); seen[n] = ('import', mn, o)
    for mn, n in top: check(n not in seen, '%s: %s recorded twice' % (what, n)); seen[n] = ('top', mn)
    default = types.ModuleType(main.__name__).__dict__
    for name, obj in main.__dict__.items():
        if name in seen:
            r = seen[name]
            check(not (obj is None or obj is True or obj is False or obj is main or obj is main.__dict__), '%s: %s recorded as an import' % (what, name))
            check(name not in nd or name in default and nd[name] == default[name] or name == '__loader__', '%s: %s is saved twice' % (what, name))
            if r[0] == 'import': check(holds(main, r[1], r[2], obj), '%s: %s is not %s.%s' % (what, name, r[1], r[2]))
            else: check(sys.modules.get(r[1]) is obj and '.' not in r[1], '%s: %s is not module %s' % (what, name, r[1]))
            if r[0] == 'import': check(not (isinstance(obj, types.ModuleType) and D._is_builtin_module(obj)), '%s: built-in module %s' % (what, name))
        else:
            check(name in nd, '%s: %s is dropped' % (what, name))
            want = new if obj is main else nd if obj is main.__dict__ else obj
            check(nd[name] is want or name == '__loader__' and obj is None and nd[name] is True, '%s: %s is not saved as itself' % (what, name))
    for k in nd: check(k in main.__dict__ or k in BOOK or k in default, '%s: extra name %s' % (what, k))
    for n in seen: check(n in main.__dict__, '%s: extra import %s' % (what, n))
    return seen


VALS = [lambda: 5, lambda: None, lambda: True, lambda: 'text-%d' % random.randrange(9), lambda: [1], lambda: {}, lambda: object(), lambda: len, lambda: os.path.join, lambda: sys, lambda: os, lambda: json.decoder,
        lambda: int, lambda: re.compile('a'), lambda: types.SimpleNamespace(a=1), lambda: 10 ** 20, lambda: (), lambda: Ellipsis, lambda: 1.5, lambda: dill, lambda: json.dumps, lambda: type('K', (), {}), lambda: (lambda: 3),
        lambda: types.SimpleNamespace(__module__='typing'), lambda: types.SimpleNamespace(__module__='concurrent.futures.thread'), lambda: types.SimpleNamespace(__module__='typingx')]
NAMES = ['a', 'b', 'c', '_d', '__e__', 'os', 'json', 'path', '__doc__', '__file__', 'x_y', '__all__', '__builtins__', 'é', '__spec__', '__loader__']


class Odd:
    __module__ = 5


@case('partitions', timeout=120)
def partitions():
    n = 250 if Counter.tier == 'quick' else 4000
    for i in range(n):
        random.seed(Counter.seed * 99991 + i)
        vals = [random.choice(VALS)() for _ in range(8)]
        others = []
        for j in range(random.randint(0, 3)):
            name = random.choice(['vs_a', 'vs_b', 'vs_pkg', 'vs_pkg.sub', 'vs_z'])
            others.append(new_module(name, {random.choice([n for n in NAMES if n != '__file__']): random.choice(vals) for _ in range(random.randint(0, 6))}, register=True))
        main = new_module('vs_main', register=random.choice([True, False]))
        for _ in range(random.randint(0, 8)):
            main.__dict__[random.choice(NAMES)] = random.choice(vals + others + [main, main.__dict__, os, sys])
        if random.random() < .3: sys.modules['vs_alias'] = main
        if others and random.random() < .3: others[0].self_ = main; others[0].d = main.__dict__
        partition(main, 'module %d' % i)
        for k in [k for k in sys.modules if k.startswith('vs_')]: del sys.modules[k]


@case('awkward modules')
def awkward():
    obj = object()
    # the same object only in the module itself (also under another name in sys.modules), or in __main__
    m = new_module('vs_main', {'a': obj}, register=True); sys.modules['vs_alias'] = m
    check(not (partition(m, 'only in itself') or {}), 'an object of the module only')
    import __main__; __main__.a = obj; sys.modules['__mp_main__'] = __main__
    check(not (partition(m, 'in __main__') or {}), 'an object of __main__'); del __main__.a
    # not a module in sys.modules, None in sys.modules
    sys.modules['vs_fake'] = types.SimpleNamespace(a=obj); sys.modules['vs_none'] = None
    check(not (partition(m, 'in a non-module') or {}), 'an object of a non-module')
    # equal is not identical
    o = new_module('vs_o', {'__file__': '/nowhere/vs_o.py', 'a': [1, 2], 't': ('x',), 's': 'long string'}, register=True)
    m2 = new_module('vs_main2', {'a': [1, 2], 't': ('x',)[:] if 0 else tuple(['x']), 's': ''.join(['long ', 'string'])})
    check(not (partition(m2, 'equal objects') or {}), 'equal objects')
    m2.a = o.a; got = partition(m2, 'identical object'); check(got == {'a': ('import', 'vs_o', 'a')}, 'identical object: %r' % (got,))
    m2.b = o.a; got = partition(m2, 'other name'); check('b' not in got, 'a list under another name stays by value')
    o.f = f = lambda: 1; m2.g = f; got = partition(m2, 'function under another name'); check(got['g'] == ('import', 'vs_o', 'f'), 'a function under another name')
    m2.h = o; got = partition(m2, 'module'); check(got['h'] == ('top', 'vs_o'), 'a top-level module')
    sub = new_module('vs_o.sub', {'__file__': '/nowhere/vs_o/sub.py'}, register=True); m2.sub = sub; got = partition(m2, 'submodule'); check('sub' not in got, 'a submodule no one holds is by value')
    o.sub = sub; got = partition(m2, 'submodule'); check(got['sub'] == ('import', 'vs_o', 'sub'), 'a submodule of a package')
    # all names of the module are references to itself
    m3 = new_module('vs_m3'); m3.me = m3; m3.d = m3.__dict__; m3.f = f; got = partition(m3, 'self'); new = S._stash_modules(m3)
    check(new.me is new and new.d is new.__dict__ and got == {'f': ('import', 'vs_o', 'f')}, 'references of the module to itself')
    class Eq:
        __hash__ = None
        def __eq__(self, o): raise RuntimeError('compared')
    m5 = new_module('vs_m5', {'e': Eq()}); S._stash_modules(m5); check(True, 'objects are not compared')
    # objects with clashing equality: identity decides
    class Always:
        def __eq__(self, o): return True
        __hash__ = None
    m6 = new_module('vs_m6', {'a': Always()}); got = S._stash_modules(m6); check(got is m6, 'equality does not matter')
    # values of modules that are not in sys.modules
    g = new_module('vs_gone', {'a': obj}); m7 = new_module('vs_m7', {'a': obj}); sys.modules.pop('vs_main'); sys.modules.pop('vs_alias')
    check(S._stash_modules(m7) is m7, 'an object of a module not imported')


@case('odd __module__ attributes')
def odd_modules():
    for v in (5, b'typing', object(), ('typing',), None, '', int, property(lambda self: 7), property(lambda self: 1 / 0 if 0 else [])):
        K = type('K', (), {}); K.__module__ = v
        partition(new_module('vs_m4', {'odd': K(), 'cls': K, 'f': json.dumps}), 'an object whose __module__ is %r' % (v,))


@case('restore')
def restore():
    """what is recorded is bound to what is found there; nothing of the bookkeeping is left"""
    class U:
        def __init__(self): self.log = []
        def find_class(self, m, n): self.log.append((m, n)); return (m, n)
    for imp in ([], [('m', 'a')], [('m', 'a'), ('n', 'b')]):
        for as_ in ([], [('m', 'x', 'c')], [('m', 'x', 'c'), ('o', 'y', 'd')]):
            for top in ([], [('json', 'j')], [('os', 'o'), ('sys', 's')]):
                m = new_module('vs_r', {'keep': 1, BOOK[0]: imp, BOOK[1]: as_, BOOK[2]: top})
                u = U(); r = S._restore_modules(u, m)
                want = {n: (mn, n) for mn, n in imp}; want.update({n: (mn, o) for mn, o, n in as_}); want.update({n: sys.modules[mn] for mn, n in top}); want['keep'] = 1
                got = {k: v for k, v in m.__dict__.items() if k not in types.ModuleType('x').__dict__}
                check(got == want, 'restored %r, expected %r' % (got, want)); check(r is None, 'returns nothing')
                check(sorted(u.log) == sorted([tuple(x) for x in imp] + [(mn, o) for mn, o, n in as_]), 'looked up once each')
    m = new_module('vs_r', {'keep': 1}); S._restore_modules(U(), m); check(m.keep == 1, 'no bookkeeping: nothing to do')
    for n in (1, 2):
        m = new_module('vs_r', dict([(BOOK[i], []) for i in range(n)], keep=1)); S._restore_modules(U(), m)
        check(not [k for k in BOOK if k in m.__dict__], 'older sessions')

@case('a lookup that fails')
def failing():
    """it is reported, whatever it raises"""
    for exc in (AttributeError, ImportError, KeyError, ValueError):
        class V:
            def find_class(self, m, n): raise exc('planned')
        for k in (0, 1):
            m = new_module('vs_r', {BOOK[0]: [('m', 'a')] if not k else [], BOOK[1]: [('m', 'x', 'c')] if k else [], BOOK[2]: []})
            raises(exc, S._restore_modules, V(), m)


CODE = '''
import sys, types, json, os, os.path, dill, io, collections.abc as cabc, functools as ft
from json import dumps, loads as LOADS
from collections import OrderedDict as OD, deque
import xml.dom.minidom
a = 1; b = [2]; c = {'x': b}; t = (b, c)
def f(x): return x + a
class K:
    y = 3
    def m(self): return dumps(self.y)
k = K(); me = sys.modules[__name__]; d = me.__dict__; lam = lambda: OD
none = None; yes = True; no = False; builtins_ = __builtins__; err = ValueError; ln = len
path = os.path; join = os.path.join
'''


@case('a session of __main__', timeout=120)
def session():
    out = child(CODE + '''
state = dict(globals()); names = set(state) - {'state', 'names'}
del state['me'], state['d']
for proto in range(6):
    dill.settings['protocol'] = proto
    with open('s%d' % proto, 'wb') as fh: dill.dump_module(fh, refimported=True)
assert all(globals()[k] is state[k] for k in state), 'modified'
assert not [k for k in globals() if k.startswith('__dill')], 'bookkeeping'
print('ok')
''')
    check('ok' in out, 'dumping: ' + out)
    for proto in range(6):
        out = child('''
import dill, sys, xml.dom.minidom
del xml
dill.load_module('s%d')
assert json.dumps is dumps and LOADS is json.loads and OD is __import__('collections').OrderedDict and deque is __import__('collections').deque
assert cabc is __import__('collections.abc').abc and ft is __import__('functools') and xml.dom.minidom is sys.modules['xml.dom.minidom']
assert a == 1 and b == [2] and c['x'] is b and t == (b, c) and t[0] is b and f(2) == 3 and k.m() == '3' and type(k) is K and lam() is OD
assert me is sys.modules['__main__'] and d is globals() and f.__globals__ is globals()
assert none is None and yes is True and no is False and err is ValueError and ln is len and path is os.path and join is os.path.join
assert not [n for n in globals() if n.startswith('__dill')], [n for n in globals() if n.startswith('__dill')]
a = 5
assert f(2) == 7
print('fine')
''' % proto)
        check('fine' in out, 'loading: ' + out)


@case('sessions of other modules', timeout=120)
def others():
    helper = new_module('vs_helper', {'tool': (lambda: 4), 'data': [1, 2], 'K': type('K', (), {})}, register=True)
    for i in range(40):
        random.seed(i)
        kind = random.choice(['runtime', 'imported', 'noloader'])
        m = new_module('vs_target', doc=random.choice([None, 'doc']))
        if kind != 'runtime': sys.modules['vs_target'] = m
        if kind == 'imported': m.__loader__ = __loader__
        content = {'a': [1], 'tool': helper.tool, 'mine': helper.tool, 'data': helper.data, 'other': helper.data, 'K': helper.K, 'js': json, 'os': os, 'dumps': json.dumps, 'dd': json.dumps, 'n': None, 'v': 7, 'h': helper, 'me': m, 'd': m.__dict__}
        chosen = {k: v for k, v in content.items() if random.random() < .6}
        m.__dict__.update(chosen)
        before = dict(m.__dict__)
        f = io.BytesIO(); dill.dump_module(f, m, refimported=True); data = f.getvalue()
        check({k: id(v) for k, v in m.__dict__.items()} == {k: id(v) for k, v in before.items()}, 'dumping does not modify the module')
        if kind == 'runtime': r = dill.load_module(io.BytesIO(data))
        else:
            t = new_module('vs_target', register=True)
            if kind == 'imported': t.__loader__ = __loader__
            r = t; x = dill.load_module(io.BytesIO(data))
            check(x is t or x is None, 'returns the module')
        check(not [k for k in r.__dict__ if k.startswith('__dill')], 'bookkeeping is left: %s' % [k for k in r.__dict__ if k.startswith('__dill')])
        check(r.__loader__ is not True, 'the loader trick is left')
        check(set(k for k in r.__dict__ if not k.startswith('__')) == set(chosen), 'names: %s' % (set(chosen) ^ set(k for k in r.__dict__ if not k.startswith('__')),))
        for k, v in chosen.items():
            g = r.__dict__[k]
            if k in ('a', 'v', 'n'): check(g == v, k)
            elif k == 'me': check(g is r, 'self-reference')
            elif k == 'd': check(g is r.__dict__, 'reference to its dictionary')
            elif k == 'other': check(g == v, 'by value')
            elif k == 'mine' and kind == 'runtime' and 0: pass
            else: check(g is v, '%s (%s) is not what was imported: %r' % (k, kind, g))
        m.__dict__.clear(); sys.modules.pop('vs_target', None)
        d = dill.load_module_asdict(io.BytesIO(data)) if kind == 'runtime' else {}
        check(not [k for k in d if k.startswith('__dill')], 'bookkeeping in the dictionary')

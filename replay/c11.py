from oracle import *
import dill, io, pickle, sys, types
import dill._dill as D

PAIRS = [('builtins', 'len'), ('builtins', 'object'), ('__builtin__', 'len'), ('__builtin__', 'object'), ('__builtin__', 'unicode'), ('__builtin__', 'xrange'),
         ('copy_reg', '_reconstructor'), ('copyreg', '_reconstructor'), ('collections', 'OrderedDict'), ('collections', 'OrderedDict.fromkeys'),
         ('collections', 'nope'), ('no_such_module', 'x'), ('no.such', 'x'), ('types', 'NoneType'), ('builtins', 'NoneType'), ('builtins', '__main__'),
         ('__builtin__', 'NoneTyp'), ('__builtin__', '__main'), ('__main__', '__main__'), ('__main__', '__dict__'), ('__main__', '__name__'), ('dill', 'dumps'),
         ('dill._dill', '_create_cell'), ('dill._dill', 'nope'), ('dill', '_dill'), ('dill.dillx', 'x'), ('dill.dill.dill', 'x'), ('xml.dom.minidom', 'Node'),
         ('os', 'path.join'), ('', 'x'), ('sys', 'maxsize'), ('exceptions', 'StandardError'), ('Queue', 'Queue'), ('dill.session', 'dump_module'), ('math', 'pi'), ('NoneType', '__builtin__'),
         ('__main__', 'NoneType'), ('__builtin__', ''), ('dill.dill2', '_create_cell'), ('dill', 'dill')]


def lookup(u, mod, name):
    try: return ('ok', u.find_class(mod, name))
    except Exception as e: return ('err', type(e), str(e))


def stream(mod, name, kind):
    if kind == 0: return b'c%s\n%s\n.' % (mod.encode(), name.encode())
    if kind == 2: return b'\x80\x02c%s\n%s\n.' % (mod.encode(), name.encode())
    s = lambda x: b'\x8c' + bytes([len(x)]) + x.encode()
    return b'\x80\x04' + s(mod) + s(name) + b'\x93.'


def loaded(cls, data, **kw):
    try: return ('ok', cls(io.BytesIO(data), **kw).load())
    except Exception as e: return ('err', type(e), str(e))


@case()
def names_resolve_as_in_pickle():
    for kw in ({}, {'fix_imports': False}, {'encoding': 'latin1'}):
        for mod, name in PAIRS:
            eq(lookup(dill.Unpickler(io.BytesIO(b''), **kw), mod, name), lookup(pickle.Unpickler(io.BytesIO(b''), **kw), mod, name), '%s.%s' % (mod, name))
            for kind in (0, 2, 4):
                d = stream(mod, name, kind)
                a, b = loaded(dill.Unpickler, d, ignore=True, **kw), loaded(pickle.Unpickler, d, **kw)
                check(a[0] == b[0] and (a[1] is b[1] or a[1] == b[1]), 'loads %s.%s: %r, pickle: %r' % (mod, name, a, b))


@case()
def special_names():
    m = types.ModuleType('other_main')
    for kind in (None, 0, 2, 4):
        def get(mod, name, main=None):
            u = dill.Unpickler(io.BytesIO(stream(mod, name, kind or 0)), ignore=True)
            if main: u._main = main
            return u.find_class(mod, name) if kind is None else u.load()
        check(get('__builtin__', '__main__') is D._main_module.__dict__, "main's dictionary")
        check(get('__builtin__', '__main__', m) is m.__dict__, "the session's main dictionary")
        check(get('__builtin__', 'NoneType') is type(None), 'NoneType')
        for n in dir(D):
            if isinstance(getattr(D, n), (type, types.FunctionType)): check(get('dill.dill', n) is getattr(D, n), 'former path: %s' % n)
        raises(AttributeError, get, 'dill.dill', 'no_such_name')
    m.__dict__['x'] = 1
    before = dict(m.__dict__)
    u = dill.Unpickler(io.BytesIO(b'')); u._main = m
    u.find_class('__builtin__', '__main__')
    check(m.__dict__ == before, 'main module left alone')


PRE = '''
import dill, sys, io, types, pickle
main = sys.modules['__main__']
NEW = lambda p, **k: dill.loads(p, **k)
'''


@case()
def instances_of_main():
    out = child(PRE + '''
class A:
    def __init__(self, v): self.v = v
class Meta(type): pass
class K(metaclass=Meta): pass
class E(Exception): pass
class L(list): pass
class D_(dict): pass
class SL: __slots__ = ('a',)
insts = {'A': A([1]), 'E': E('x'), 'L': L([1, 2]), 'D_': D_(a=1)}
pk = {n: [dill.dumps(o, p) for p in range(6)] for n, o in insts.items()}
pk['list'] = [dill.dumps([insts['A']], p) for p in range(6)]
pk['SL'] = [dill.dumps(SL(), p) for p in (2, 3, 4, 5)]
olds = {'A': A, 'E': E, 'L': L, 'D_': D_, 'SL': SL}
def redefine():
    global A, E, L, D_
    class A:
        def __init__(self, v): self.v = v
        new = True
    class E(Exception): new = True
    class L(list): new = True
    class D_(dict): new = True
redefine()
n = 0
for name in insts:
    for p in pk[name]:
        for kw in ({}, {'ignore': False}, {'ignore': 0}):
            o = dill.loads(p, **kw)
            assert type(o) is getattr(main, name), (name, kw, type(o)); n += 1
            assert type(o).new
            assert o.__dict__ == insts[name].__dict__
            f = io.BytesIO(p); assert type(dill.load(f, **kw)) is getattr(main, name)
            assert type(dill.Unpickler(io.BytesIO(p), **kw).load()) is getattr(main, name)
        for kw in ({'ignore': True}, {'ignore': 1}):
            o = dill.loads(p, **kw)
            assert type(o) is not getattr(main, name) and type(o).__name__ == name, (name, kw); n += 1
for p in pk['list']:
    (o,) = dill.loads(p, ignore=False)
    assert type(o) is not A and not hasattr(o, 'new'), 'only the object itself'
dill.settings['ignore'] = True
assert type(dill.loads(pk['A'][2])) is not A
assert type(dill.loads(pk['A'][2], ignore=False)) is A
dill.settings['ignore'] = False
assert type(dill.loads(pk['A'][2])) is A
# no such class, or not usable
del A
o = dill.loads(pk['A'][2]); assert type(o).__name__ == 'A' and o.v == [1]
for bad in (3, None, 'A', int, lambda: 1, types.SimpleNamespace, sys, L):
    A = bad
    o = dill.loads(pk['A'][2]); assert type(o).__name__ == 'A' and o.v == [1], bad
class SL: __slots__ = ('a', 'b')
for p in pk['SL']:
    o = dill.loads(p); assert type(o) is not SL
print('ok', n)
''')
    check(out.startswith('ok'), out)
    tick(out)


@case()
def other_objects_are_left_alone():
    out = child(PRE + '''
import fractions, collections, decimal, uuid
# classes of the same name in main must not be used for objects of other modules
class Fraction(fractions.Fraction): pass
class OrderedDict(collections.OrderedDict): pass
class UserList(collections.UserList): pass
class module(types.ModuleType): pass
class dict_(dict): pass
class function: pass
class SimpleNamespace(types.SimpleNamespace): pass
mod = types.ModuleType('somewhere'); sys.modules['somewhere'] = mod
exec('class A:\\n    pass', mod.__dict__)
class A: pass
mod2 = types.ModuleType('__main__x'); sys.modules['__main__x'] = mod2
exec('class A:\\n    pass', mod2.__dict__)
for o in (fractions.Fraction(1, 2), collections.OrderedDict(a=1), collections.UserList([1]), types.SimpleNamespace(a=1), mod.A(), mod2.A(),
          1, None, 'x', b'y', (1,), [1], {'a': 1}, {1}, 1.5, 2j, True, Ellipsis, len, int, sys, range(3), slice(1)):
    for kw in ({}, {'ignore': False}, {'ignore': True}):
        for byref in (False, True):
            g = dill.loads(dill.dumps(o, byref=byref), **kw)
            assert type(g) is type(o), (o, type(g))
            if not isinstance(o, (types.ModuleType,)) and type(o).__name__ != 'A': assert g == o
# functions, classes and instances in containers of main
def fn(): return 1
class C: pass
g = dill.loads(dill.dumps(fn)); assert type(g) is types.FunctionType and g() == 1
g = dill.loads(dill.dumps(C)); assert type(g) is type
l = dill.loads(dill.dumps([C(), C]))
class Meta(type): pass
class K(metaclass=Meta): pass
OldMeta = Meta
p = dill.dumps(K)
class Meta(type): new = 1
k = dill.loads(p); assert type(k) is Meta and k.__name__ == 'K'
k = dill.loads(p, ignore=True); assert type(k) is not Meta
print('ok')
''')
    check(out.strip() == 'ok', out)


@case()
def returned_exactly():
    """the object that pickle would give, whatever its class; attribute writes only to __class__"""
    out = child(PRE + '''
log = []
class W:
    def __setattr__(self, n, v): log.append((n, v)); object.__setattr__(self, n, v)
p = dill.dumps(W(), byref=True)
w = dill.loads(p, ignore=False)
assert [n for n, v in log] == ['__class__'] and log[0][1] is W, log
log.clear(); dill.loads(p, ignore=True); assert not log, log
class Refuse:
    def __setattr__(self, n, v): raise (TypeError, AttributeError)[flag](n)
for flag in (0, 1):
    r = dill.loads(dill.dumps(Refuse(), byref=True)); assert type(r) is Refuse
mm = types.ModuleType('__main__'); class_ = W
got = []
orig = dill.Unpickler.load
u = dill.Unpickler(io.BytesIO(dill.dumps(W(), byref=True)), ignore=False)
other = types.ModuleType('othermain')
class W2(W): pass
other.W = W2
u._main = other
log.clear()
assert type(u.load()) is W2 and log == [('__class__', W2)]
print('ok')
''')
    check(out.strip() == 'ok', out)

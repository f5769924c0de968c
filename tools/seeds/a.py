F = 'dill/_dill.py'
seed('c01-lnotab-wins', 'C01', F, [("                fields['linetable'] = m.LNOTAB_OR_LINETABLE\n", "                fields['linetable'] = LNOTAB if LNOTAB else m.LNOTAB_OR_LINETABLE\n")], '''
import dill._dill as D
def f(a):
    b = a

    return b
c = f.__code__
args = (c.co_argcount, c.co_posonlyargcount, c.co_kwonlyargcount, c.co_nlocals, c.co_stacksize, c.co_flags, c.co_code, c.co_consts,
        c.co_names, c.co_varnames, c.co_filename, c.co_name, c.co_firstlineno, c.co_linetable, c.co_freevars, c.co_cellvars)
g = D._create_code(b'\\x04\\x01\\x02\\x03', *args)
assert g.co_linetable == c.co_linetable, g.co_linetable
''', 'a 16-field tuple stored with a non-empty leading line-number table', 'the stored line table is replaced by the leading line-number table')
seed('c01-text-lnotab', 'C01', F, [("    if not isinstance(args[0], int): # co_lnotab stored from >= 3.10\n", "    if isinstance(args[0], bytes): # co_lnotab stored from >= 3.10\n")], '''
import dill._dill as D
def f(a): return a
c = f.__code__
args = (c.co_argcount, c.co_posonlyargcount, c.co_kwonlyargcount, c.co_nlocals, c.co_stacksize, c.co_flags, c.co_code, c.co_consts,
        c.co_names, c.co_varnames, c.co_filename, c.co_name, c.co_qualname, c.co_firstlineno, c.co_linetable, c.co_exceptiontable, c.co_freevars, c.co_cellvars)
assert D._create_code(b'ab', *args) == c
assert D._create_code('ab', *args) == c
''', 'a leading line-number table given as text', 'the leading table is taken for a field, the tuple is rejected or misread')
seed('c05-innermost', 'C05', F, [("            postproc = next(iter(pickler._postproc.values()), None)\n", "            postproc = next(reversed(pickler._postproc.values()), None)\n")], '''
import dill, warnings
warnings.simplefilter('error', dill.PicklingWarning)
def mk():
    class A:
        def a(self): return A, B, inst
    class B(A):
        def b(self): return super().a()
    inst = B()
    inst.back = B
    return A, B, inst
A, B, inst = dill.loads(dill.dumps(mk()))
assert inst.a() == (A, B, inst) and inst.b()[2] is inst and type(inst) is B and inst.back is B
''', 'two local classes and an instance that refer to each other through closures', 'the cell is filled while the class its contents need is still pending')
seed('c05-none-cell', 'C05', F, [("    if contents is not _CELL_EMPTY:\n        value = contents\n", "    if contents is not _CELL_EMPTY and contents is not _CELL_REF:\n        value = contents\n")], '''
import dill
def outer():
    x = None
    return lambda: x
c = outer().__closure__[0]
assert dill.loads(dill.dumps(c)).cell_contents is None
''', 'a cell holding None that is pickled outside of a function', 'the cell comes back empty')
seed('c07-lru-typed', 'C07', F, [("        if args != lru_cache.__defaults__:\n", "        if args[0] != lru_cache.__defaults__[0]:\n")], '''
import dill, functools
def g(x): return x
f = functools.lru_cache(typed=True)(g)
assert dill.loads(dill.dumps(f)).cache_parameters() == {'maxsize': 128, 'typed': True}
f = functools.lru_cache(maxsize=3, typed=True)(g)
assert dill.loads(dill.dumps(f)).cache_parameters() == {'maxsize': 3, 'typed': True}
''', 'a typed cache of the default size', 'the typed flag is lost')
seed('c07-singleton-memo', 'C07', F, [("    pickler.save_reduce(slice, (obj.start, obj.stop, obj.step), obj=obj)\n", "    pickler.save_reduce(slice, obj.indices(1 << 62) if obj.step else (obj.start, obj.stop), obj=obj)\n")], '''
import dill
for s in (slice(1, 2), slice(None), slice(1, 9, 2), slice(None, -1), slice(None, None, 2), slice('a', 'b'), slice(5, None, -1)):
    assert dill.loads(dill.dumps(s)) == s, s
''', 'a slice with a step and an open or negative end', 'start and stop are normalised')
seed('c08-falsy-referent', 'C08', F, [("    from weakref import proxy\n    if obj is None: # it's dead\n", "    from weakref import proxy\n    if not obj: # it's dead\n")], '''
import dill, weakref, collections
class L(collections.UserList): pass
for content in ([1], []):
    l = L(content)
    a, r = dill.loads(dill.dumps([l, weakref.proxy(l)]))
    a.append(5)
    assert r[-1] == 5, content
''', 'a weak proxy to an object that is false', 'it comes back dead')
seed('c08-rlock-adopt', 'C08', F, [("        lock._acquire_restore((count, owner))\n", "        lock._acquire_restore((count, __import__('threading').get_ident()))\n")], '''
import dill, threading
l = threading.RLock()
go, stop = threading.Event(), threading.Event()
def hold():
    with l: go.set(); stop.wait(20)
t = threading.Thread(target=hold); t.start(); go.wait(20)
try:
    p = dill.dumps(l)
    try: dill.loads(p)
    except dill.UnpicklingError: pass
    else: raise SystemExit('a lock owned by another thread was restored')
finally:
    stop.set(); t.join()
''', 'a reentrant lock held by another thread', 'it comes back owned by the loading thread')
seed('c10-fmode-zero', 'C10', F, [("        self._fmode = settings['fmode'] if _fmode is None else _fmode\n", "        self._fmode = _fmode or settings['fmode']\n")], '''
import dill, io
dill.settings['fmode'] = dill.FILE_FMODE
assert dill.Pickler(io.BytesIO())._fmode == dill.FILE_FMODE
assert dill.Pickler(io.BytesIO(), fmode=dill.CONTENTS_FMODE)._fmode == dill.CONTENTS_FMODE
assert dill.Pickler(io.BytesIO(), fmode=dill.HANDLE_FMODE)._fmode == dill.HANDLE_FMODE
''', 'fmode=HANDLE_FMODE (0) given while dill.settings asks for another mode', 'the explicit value is ignored')
seed('c10-settings-copy', 'C10', F, [("    ignore = kwds.pop('ignore', Unpickler.settings['ignore'])\n", "    ignore = kwds.pop('ignore', False) or Unpickler.settings['ignore']\n")], '''
import dill, io
seen = []
import dill._dill as D
old = D.loads
D.loads = lambda s, ignore=None, **k: (seen.append(ignore), old(s, ignore, **k))[1]
dill.settings['ignore'] = True
dill.copy(1); dill.copy(1, ignore=True); dill.copy(1, ignore=False)
assert seen == [True, True, False], seen
''', 'copy(ignore=False) while dill.settings has ignore set', 'the explicit value is ignored')
seed('c12-revert-user', 'C12', F, [("        if func.__module__ == __name__:\n", "        if func.__module__ == __name__ or Pickler.dispatch.get(type) is func:\n")], '''
import dill, pickle
class A: pass
@dill.register(A)
def save_a(p, o): p.save_reduce(str, ('a',), obj=o)
T = pickle._Pickler.dispatch
dill.extend(True); assert T[A] is save_a
dill.extend(False); assert T.get(A) is save_a
assert T[dict].__module__ == 'pickle'
''', 'a user-registered type present while the extension is reverted', "entries that are not the core module's are removed")
seed('c12-cached-lookup', 'C12', F, [("        if issubclass(key, type):\n            return save_type\n", "        if issubclass(key, type):\n            return self.setdefault(key, save_type)\n")], '''
import dill, pickle
class M(type): pass
D = dill.Pickler.dispatch
n = len(D)
assert D[M] is D[type] and D.get(M) is D[type]
assert len(D) == n and M not in D
dill.extend(True); assert M not in pickle._Pickler.dispatch
''', 'a lookup of an unregistered metaclass', 'the lookup changes the table, and extend() then copies the entry')
seed('c14-late-unregister', 'C14', F, [("        postproc = pickler._postproc.pop(id(obj))\n", "        postproc = pickler._postproc[id(obj)]\n"), ("            # pop None created by calling preprocessing step off stack\n            pickler.write(POP)\n\n#@register(CodeType)\n", "            # pop None created by calling preprocessing step off stack\n            pickler.write(POP)\n        pickler._postproc.pop(id(obj))\n\n#@register(CodeType)\n")], '''
import dill, io
class P(dill.Pickler): pass
import dill._dill as D
seen = []
class Probe:
    def __reduce__(self):
        seen.append(dict(p._postproc)); return (list, ())
p = dill.Pickler(io.BytesIO())
d = {}
o = Probe()
target = [1]
D._save_with_postproc(p, (list, ()), obj=target, postproc_list=[(list, (o,))]) if False else None
def outer():
    def f(): return g
    def g(): return f
    return f
f = outer()
src = {'__name__': 'nowhere', '__builtins__': __builtins__, 'probe': o}
import types
h = types.FunctionType((lambda: probe).__code__, src, 'h'); h.__module__ = 'nowhere'; src['h'] = h
p.dump(h)
assert seen and id(h) not in seen[-1], seen
''', 'deferred work that itself defers work to the object whose deferred work is being written', 'actions deferred then are never written')
seed('c14-order', 'C14', F, [("        for reduction in reversed(postproc):\n", "        for reduction in sorted(postproc, key=lambda r: r[0] is _setitems):\n")], '''
import dill, io, dill._dill as D
log = []
class Tag:
    def __init__(self, n): self.n = n
    def __reduce__(self): log.append(self.n); return (int, (self.n,))
p = dill.Pickler(io.BytesIO())
p.proto; p.framer.start_framing()
D._save_with_postproc(p, (list, ()), obj=[1], postproc_list=[(int, (Tag(i),)) for i in range(3)])
assert log == [2, 1, 0], log
''', 'more than one action deferred to one object', 'the actions are written in order of registration')
seed('c26-getattr-none', 'C26', 'dill/_shims.py', [("    if default is Getattr.NO_DEFAULT:\n        reduction = (getattr, (object, name))\n", "    if default is Getattr.NO_DEFAULT or default is None:\n        reduction = (getattr, (object, name))\n")], '''
import dill, collections
from dill._shims import Getattr
assert dill.loads(dill.dumps(Getattr(collections, 'OrderedDict', None))) is collections.OrderedDict
assert dill.loads(dill.dumps(Getattr(collections, 'spam', 3))) == 3
assert dill.loads(dill.dumps(Getattr(collections, 'spam', None))) is None
''', 'a missing attribute with the default None', 'loading raises AttributeError')
seed('c26-deepcopy', 'C26', 'dill/_shims.py', [("    def __deepcopy__(self, memo):\n        return self # pragma: no cover\n", "    def __deepcopy__(self, memo):\n        return memo.setdefault(id(self), self) if not memo else Reduce(*self.reduction)\n")], '''
import copy
from dill._shims import Reduce
r = Reduce(int, ('3',), is_callable=False)
assert copy.deepcopy(r) is r
l = copy.deepcopy([[1], r])
assert l[1] is r
''', 'a shim deep-copied as a part of something else', 'the copy is another object')

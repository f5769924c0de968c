# C21
T = 'dill/_dill.py'; DT = 'dill/detect.py'
seed('c21-not-implemented', 'C21', T, [("exceptions = (TypeError, AssertionError, NotImplementedError, PicklingError, UnpicklingError)", "exceptions = (TypeError, AssertionError, PicklingError, UnpicklingError)")], '''
import dill
from dill import detect
class A:
    def __init__(self, e): self.e = e
    def __reduce__(self): raise self.e
class Sub(NotImplementedError): pass
for e in (TypeError(), AssertionError(), NotImplementedError(), Sub(), dill.PicklingError(), dill.UnpicklingError()):
    assert dill.pickles([A(e)]) is False and detect.badobjects(A(e)) is not None
''', 'an object whose pickling raises NotImplementedError (or a subclass)', 'the error comes through instead of a verdict of False')
seed('c21-deep-settings', 'C21', DT, [("    return dict(((attr, badtypes(getattr(obj,attr),depth-1,exact,safe)) \\\n", "    return dict(((attr, badtypes(getattr(obj,attr),depth-1,safe,exact)) \\\n")], '''
import dill
from dill import detect
class Bad:
    def __reduce__(self): raise ValueError
class N:
    def __init__(self, **k): self.__dict__.update(k)
    def __reduce__(self): raise KeyError
n = N(a=N(b=Bad(), c=5))
r = detect.badtypes(n, 2, safe=True)
assert r['a']['b'] is Bad and 'c' not in r['a'], r
r = detect.badobjects(n, 2, safe=True)
assert isinstance(r['a']['b'], Bad), r
''', 'types of failing attributes at depth two or more, with safe but not exact (or the reverse)', 'the inner attributes are judged with the settings exchanged')
seed('c21-same-name', 'C21', T, [("            return repr(type(pik)) == repr(type(obj)) #XXX: InstanceType?", "            return type(pik).__name__ == type(obj).__name__ #XXX: InstanceType?")], '''
import dill, collections
from dill import detect
class deque:
    def __reduce__(self): return collections.deque, ()
class L:
    def __init__(self): self.x = 1
def make():
    class M: pass
    return M
assert dill.pickles(make()()) is True
x = deque()
assert dill.pickles(x) is False and detect.badobjects(x) is x and detect.badtypes(x) is deque
''', 'an object whose copy has an unrelated type of the same name', 'pickles accepts a copy of another type')
seed('c21-unreadable', 'C21', DT, [("            _attr = getattr(obj,attr)\n        except Exception:", "            _attr = getattr(obj,attr)\n        except AttributeError:")], '''
import dill
from dill import detect
class P:
    exc = ValueError
    @property
    def p(self): raise self.exc('no')
for P.exc in (AttributeError, ValueError, KeyError, OSError):
    r = detect.errors(P(), 1)
    assert isinstance(r['p'], P.exc), r
''', 'errors at depth one of an object with a property that raises something other than AttributeError', 'errors fails instead of reporting the attribute')
# C23
TE = 'dill/temp.py'
seed('c23-capture-original', 'C23', TE, [("        setattr(sys, stream, orig)\n", "        setattr(sys, stream, getattr(sys, '__%s__' % stream, None) or orig)\n")], '''
import sys, io
from dill.temp import capture
old = sys.stdout; mine = sys.stdout = io.StringIO()
try:
    with capture('stdout') as out: print('a')
    now = sys.stdout
finally: sys.stdout = old
assert out.getvalue() == 'a\\n' and now is mine
with capture('stderr') as a:
    with capture('stderr') as b: sys.stderr.write('inner')
    assert sys.stderr is a
''', 'a standard stream that was replaced before capture, as in a nested capture', 'capture restores the stream of the interpreter and not the one it replaced')
seed('c23-delete', 'C23', TE, [("    import tempfile\n    kwds.setdefault('delete', True)\n    file = tempfile.NamedTemporaryFile(**kwds)", "    import tempfile\n    kwds['delete'] = True\n    file = tempfile.NamedTemporaryFile(**kwds)")], '''
import dill, os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    f = dill.temp.dump([1, 2], dir=d, delete=False); f.close()
    assert dill.temp.load(f.name) == [1, 2]
    g = dill.temp.dump([3], dir=d); n = g.name; g.close()
    assert not os.path.exists(n)
finally: shutil.rmtree(d)
''', 'temp.dump with delete=False, and the file used after its handle is closed', 'the argument is overridden: the file is gone')
seed('c23-namespace', 'C23', TE, [("            raise IOError(\"unknown name for code: %s\" % stub)\n        alias = tag[-1]\n    local = {}\n    exec(source, local)\n    _ = eval(\"%s\" % alias, local)\n    return _\n\ndef dump_source", "            raise IOError(\"unknown name for code: %s\" % stub)\n        alias = tag[-1]\n    local = {}\n    exec(source, globals(), local)\n    _ = eval(\"%s\" % alias, local)\n    return _\n\ndef dump_source")], '''
import dill, os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'm.py')
    with open(p, 'w') as g: g.write("def fact(n): return n * fact(n - 1) if n else 1\\n\\n#NAME: fact\\n")
    assert dill.temp.load_source(p)(5) == 120
    with open(p, 'w') as g: g.write("k = 3\\ndef f(x): return x + k\\n\\n#NAME: f\\n")
    assert dill.temp.load_source(p)(5) == 8
finally: shutil.rmtree(d)
''', 'a source file whose function refers to itself or to other names of the source', 'the loaded function does not see the names of its source')
seed('c23-load-arguments', 'C23', TE, [("    return pickle.load(open(name, mode=mode, **kwds))", "    return pickle.load(open(name, mode=mode))")], '''
import dill, os
f = dill.temp.dump([1, 2]); seen = []
def opener(path, flags): seen.append(path); return os.open(path, flags)
assert dill.temp.load(f, opener=opener) == [1, 2] and seen == [f.name]
''', 'temp.load with keyword arguments for open', 'they are ignored')

# C28
D = 'dill/_dill.py'
PRE = '''
import dill, dataclasses, numpy as np
def rt(x, **k): return dill.loads(dill.dumps(x, **k))
'''
seed('c28-grandchildren', 'C28', D, [("    if all((c.__module__, c.__name__) != ('numpy', 'ndarray') for c in obj_type.__mro__):\n", "    if all((c.__module__, c.__name__) != ('numpy', 'ndarray') for c in (obj_type,) + obj_type.__bases__):\n")], PRE + '''
class Base(np.ndarray): pass
class Derived(Base): pass
a = np.arange(3).view(Base); a.x = 1; assert rt(a).x == 1
a = np.arange(3).view(Derived); a.x = 1; b = rt(a); assert vars(b) == {'x': 1}, vars(b)
''', 'an array of a class that derives from a subclass of ndarray, with attributes', 'its attributes are lost')
seed('c28-private-attributes', 'C28', D, [("            npdict = getattr(obj, '__dict__', None)\n", "            npdict = getattr(obj, '__dict__', None)\n                    if npdict and npdict.get('_cache') is not None:\n                        npdict = dict((k, v) for (k, v) in npdict.items() if k != '_cache')\n"), ], PRE + '''
class A(np.ndarray): pass
a = np.arange(3).view(A); a._cache = [1]; a.x = 2; b = rt(a); assert vars(b) == {'_cache': [1], 'x': 2}, vars(b)
''', 'an array with an attribute named _cache', 'the attribute is lost')
seed('c28-kinds-of-fields', 'C28', D, [('''obj.name.encode() + b"\\n")''', '''(b"_FIELD_CLASSVAR" if obj is dataclasses._FIELD_CLASSVAR else b"_FIELD") + b"\\n")''')], PRE + '''
assert rt(dataclasses._FIELD) is dataclasses._FIELD and rt(dataclasses._FIELD_CLASSVAR) is dataclasses._FIELD_CLASSVAR
assert rt([dataclasses._FIELD_INITVAR])[0] is dataclasses._FIELD_INITVAR
@dataclasses.dataclass
class P:
    x: int
    y: dataclasses.InitVar[int] = 2
    def __post_init__(self, y): self.z = y
Q = rt(P); assert [f.name for f in dataclasses.fields(Q)] == ['x']
''', 'a dataclass with a variable that only its initialisation takes', 'the variable turns into a field')
seed('c28-classes-named-like-builtins', 'C28', D, [("    @register(ClassMethodDescriptorType)\n    def save_wrapper_descriptor(pickler, obj):\n        logger.trace(pickler, \"Wr: %s\", obj)\n        pickler.save_reduce(_getattr, (obj.__objclass__, obj.__name__,\n", "    @register(ClassMethodDescriptorType)\n    def save_wrapper_descriptor(pickler, obj):\n        logger.trace(pickler, \"Wr: %s\", obj)\n        objclass = getattr(__builtin__, obj.__objclass__.__name__, None)\n        if not hasattr(objclass, obj.__name__):\n            objclass = obj.__objclass__\n        pickler.save_reduce(_getattr, (objclass, obj.__name__,\n")], PRE + '''
def make(name): return type(name, (), {'__slots__': ('start', 'x')})
for n in ('Range', 'slice'):
    c = make(n); d, k = rt([c.x, c]); assert d is vars(k)['x'], (n, d)
    d, k = rt([c.start, c]); assert d is vars(k)['start'], (n, d)
''', 'a class with the name of a built-in type, with a slot of a name that the type has too', 'the descriptor of the built-in type is loaded')
seed('c28-by-name', 'C28', D, [("        # anything below here is a numpy array (or subclass) instance\n        __hook__() # import numpy (so the following works!!!)\n        # verify that __reduce__ has not been overridden\n        if obj_type.__reduce_ex__ is not NumpyArrayType.__reduce_ex__ \\\n                or obj_type.__reduce__ is not NumpyArrayType.__reduce__:\n            return False\n", "        # anything below here is a numpy array (or subclass) instance\n        __hook__() # import numpy (so the following works!!!)\n        # verify that __reduce__ has not been overridden\n        key = (obj_type.__module__, obj_type.__qualname__)\n        if key in _own_reduction:\n            return False\n        if obj_type.__reduce_ex__ is not NumpyArrayType.__reduce_ex__ \\\n                or obj_type.__reduce__ is not NumpyArrayType.__reduce__:\n            _own_reduction.add(key)\n            return False\n"), ("    def ndarraysubclassinstance(obj_type):\n", "    _own_reduction = set()\n    def ndarraysubclassinstance(obj_type):\n")], PRE + '''
def own():
    class A(np.ndarray):
        def __reduce__(self): return np.ndarray.__reduce__(self)
    return A
T = own(); rt(np.arange(2).view(T)); T2 = type(T.__name__, (np.ndarray,), {'__module__': T.__module__, '__qualname__': T.__qualname__})
a = np.arange(3).view(T2); a.x = 1; b = rt(a); assert vars(b) == {'x': 1}, vars(b)
''', 'two classes of arrays of the same name, the first with a reduction of its own', 'the attributes of arrays of the second are lost')

T = 'dill/detect.py'
seed('c20-none-global', 'C20', T, [("    return dict((name,globs[name]) for name in func if name in globs)\n", "    return dict((name,globs[name]) for name in func if globs.get(name) is not None)\n")], '''
from dill.detect import globalvars
ns = {'x': None, 'y': 0}
exec('def f(): return x, y', ns)
assert globalvars(ns['f']) == {'x': None, 'y': 0}, globalvars(ns['f'])
''', 'a global variable bound to None', 'it is not reported')
seed('c20-empty-cell-stops', 'C20', T, [("            except ValueError: # cell is empty\n                pass\n            else:\n", "            except ValueError: # cell is empty\n                break\n            else:\n")], '''
from dill.detect import globalvars
ns = {'x': 1}
exec("""def mk(flag):
    if flag: a = 1
    def b(): return x
    def f(): return a, b
    return f
""", ns)
assert 'x' in globalvars(ns['mk'](True))
assert 'x' in globalvars(ns['mk'](False)), globalvars(ns['mk'](False))
''', 'a closure whose first cell is empty and whose second holds a function', 'the names that function loads are missing')
seed('c20-nested-twice', 'C20', T, [("            if recurse: nested |= set(nestedcode(co, recurse=True))\n", "            if recurse: nested |= set(nestedcode(co, recurse=func.co_nlocals > 0))\n")], '''
from dill.detect import nestedcode
def f():
    return lambda: lambda: lambda: 0
def g(a):
    return lambda: lambda: lambda: 0
assert len(nestedcode(g)) == 3, nestedcode(g)
assert len(nestedcode(f)) == 3, nestedcode(f)
''', 'code nested three levels deep in a function without local variables', 'the innermost code is not reported')
seed('c20-cell-value', 'C20', T, [("            yield name, c.cell_contents\n", "            if cell_contents is not func: yield name, c.cell_contents\n"),
  ("    if isfunction(func):\n        closures = func.__closure__ or ()\n        func = func.__code__.co_freevars # get freevars\n", "    if isfunction(func):\n        closures = func.__closure__ or ()\n        func, this = func.__code__.co_freevars, func # get freevars\n"),
  ("        for name, c in zip(func, closures):\n            try:\n                cell_contents = c.cell_contents\n", "        for name, c in zip(func, closures):\n            if func[-1] == name and len(func) > 2 and c.cell_contents is this: continue # recursive\n            try:\n                cell_contents = c.cell_contents\n")], '''
from dill.detect import freevars
def mk(a, b):
    def z(n): return a, b, z
    return z
z = mk(1, 2); v = freevars(z)
assert v == {'a': 1, 'b': 2, 'z': z}, v
''', 'a recursive inner function with other closure variables sorted before its name', 'its own name is not reported')

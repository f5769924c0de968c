# C27
DI = 'dill/__diff.py'
PRE = '''
import sys
sys.setrecursionlimit(3000)
from dill import __diff as diff
class A: pass
'''
seed('c27-renamed', 'C27', DI, [("        changed = dict((key,None) for key in obj_attrs if key not in attrs)\n", "        changed = {}\n        if len(obj_attrs) > len(attrs):\n            changed = dict((key,None) for key in obj_attrs if key not in attrs)\n")], PRE + '''
o = A(); o.a = 1; v = o.b = A(); diff.memorise(o)
del o.a; assert diff.whats_changed(o) == ({'a': None}, False)
o.c = v; got = diff.whats_changed(o); assert got == ({'a': None, 'c': v}, False), got
''', 'an attribute that is removed while another is added', 'the one that was removed is not reported')
seed('c27-other-key', 'C27', DI, [("                   or chngd(key, seen, True, False) \\\n", "")], PRE + '''
k = A(); d = {k: 1}; diff.memorise(d); assert not diff.has_changed(d)
k.attr = 5; assert diff.has_changed(d) and diff.whats_changed(d) == ({}, True)
''', 'an object that is a key of a dict and whose state changes', 'the dict is taken as unchanged')
seed('c27-same-name', 'C27', DI, [("    if o_type in cache:\n        if cache[o_type]:\n", "    if getattr(o_type, '__qualname__', o_type) in cache:\n        o_type = getattr(o_type, '__qualname__', o_type)\n        return obj if cache[o_type] else None\n    elif o_type in cache:\n        if cache[o_type]:\n"), ("        cache[o_type] = True\n", "        cache[getattr(o_type, '__qualname__', o_type)] = True\n"), ("        cache[o_type] = False\n", "        cache[getattr(o_type, '__qualname__', o_type)] = False\n")], PRE + '''
Bag = type('Bag', (), {}); o = Bag(); diff.memorise(o); assert not diff.has_changed(o)
Bag2 = type('Bag', (), {'__init__': lambda self: setattr(self, 'store', []), '__len__': lambda self: len(self.store), '__iter__': lambda self: iter(self.store), '__contains__': lambda self, x: x in self.store})
b = Bag2(); b.store.append(A()); diff.memorise(b); assert diff.whats_changed(b) == ({}, False)
b.store.append(A()); got = diff.whats_changed(b)
assert got == ({'store': b.store}, True), got
''', 'two classes of the same name, of which only the second is a container', 'the items of the second are not compared')
seed('c27-only-the-module', 'C27', DI, [("    for m in after:\n        memorise(sys.modules[m])\n", "    if after:\n        memorise(mod)\n")], PRE + '''
import os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.mkdir(os.path.join(d, 'apkg')); open(os.path.join(d, 'apkg', '__init__.py'), 'w').write('import importlib\\nimportlib.import_module("other_mod")\\n')
    open(os.path.join(d, 'other_mod.py'), 'w').write('x = 1\\n'); sys.path.insert(0, d)
    import apkg
    m = sys.modules['other_mod']; assert not diff.has_changed(m); m.x = [5]; assert diff.whats_changed(m) == ({'x': [5]}, False)
finally: shutil.rmtree(d)
''', 'a module that is loaded by importlib while another is imported', 'it is not memorised')
seed('c27-force-all', 'C27', DI, [("        [mem(value) for key, value in g.items()]\n", "        [mem(value, force) for key, value in g.items()]\n")], PRE + '''
o, p = A(), A(); o.p = p; diff.memorise(o); p.x = 1; diff.memorise(o, force=True)
assert diff.has_changed(p) and diff.whats_changed(o) == ({'p': p}, False), diff.whats_changed(o)
o.o = o; diff.memorise(o, force=True)
''', 'an object that is memorised again when an object that it refers to has changed', 'the change of the other object is forgotten; objects that refer to themselves cannot be memorised again')
seed('c27-shorter', 'C27', DI, [("        if (len(items) != len(obj_seq)):\n", "        if (len(items) > len(obj_seq)):\n")], PRE + '''
l = [A(), A()]; diff.memorise(l); l.pop(); assert diff.whats_changed(l) == ({}, True)
d = {1: 1, 2: 2}; diff.memorise(d); del d[2]; assert diff.whats_changed(d) == ({}, True)
''', 'items removed from the end of a sequence, or from a dict', 'the container is taken as unchanged')
seed('c27-seen-false', 'C27', DI, [("            return any(seen[obj_id])\n", "            return seen[obj_id][1]\n")], PRE + '''
s = A(); l = [[s], 5, [s]]; o = A(); o.a, o.b = s, s; diff.memorise(l); diff.memorise(o); s.x = 1
assert diff.whats_changed(o) == ({'a': s, 'b': s}, False), diff.whats_changed(o)
assert diff.whats_changed(l) == ({}, True)
''', 'an object whose attributes changed and that is met twice', 'the change is reported only for the first')

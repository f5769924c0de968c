F = 'dill/_dill.py'
S = 'dill/session.py'
seed('c06-slots-inherited', 'C06', F, [('''            slots = _dict.get('__slots__', ())
''', '''            slots = getattr(obj, '__slots__', ())
''')], '''
import dill
class B: __slots__ = ('x', 'y')
class C(B): x = 5
D = dill.loads(dill.dumps(C))
assert D is not C and D.__dict__['x'] == 5 and D().x == 5
''', 'a class without __slots__ of its own that shadows a slot of its base', 'the shadowing entry is missing from the restored class')
seed('c06-namedtuple-default-none', 'C06', F, [('''            defaults = [obj._field_defaults[field] for field in obj._fields if field in obj._field_defaults]
''', '''            defaults = [value for value in map(obj._field_defaults.get, obj._fields) if value is not None]
''')], '''
import dill, collections
T = collections.namedtuple('U', 'a b c', defaults=(1, None))
U = dill.loads(dill.dumps(T))
assert U is not T and U._field_defaults == {'b': 1, 'c': None}
assert U(0) == (0, 1, None)
''', 'a namedtuple with a default of None', 'the defaults of the restored class belong to other fields')
seed('c06-abc-inherited', 'C06', F, [('''        postproc_list.extend((register, (reg(),)) for reg in registry)
''', '''        registry = [reg() for reg in registry]
        # skip those already registered with a base
        postproc_list.extend((register, (cls,)) for cls in registry if not issubclass(cls, obj.__mro__[1:-1]))
''')], '''
import dill, abc
class A(abc.ABC): pass
class B(A): pass
class V: pass
A.register(V); B.register(V)
A2, B2, V2 = dill.loads(dill.dumps((A, B, V)))
assert A2 is not A and issubclass(V2, A2)
assert issubclass(V2, B2)
''', 'a class registered with an abstract class and with a base of it', 'it is no longer a virtual subclass of the former')
seed('c16-equal', 'C16', S, [('''        if modobj is obj and sys.modules[modname] is not main_module:
            return modname, name
''', '''        if type(modobj) is type(obj) and modobj == obj and sys.modules[modname] is not main_module:
            return modname, name
''')], '''
import subprocess, sys, os, tempfile
d = tempfile.mkdtemp(); f = os.path.join(d, 's')
try:
    subprocess.check_call([sys.executable, '-c', """if 1:
        import sys, types, dill
        m = types.ModuleType('colours'); m.levels = [1, 2]
        sys.modules['colours'] = m
        levels = [1, 2]
        del m
        dill.dump_module(%r, refimported=True)
    """ % f])
    subprocess.check_call([sys.executable, '-c', """if 1:
        import dill
        dill.load_module(%r)
        assert levels == [1, 2]
    """ % f])
finally:
    import shutil; shutil.rmtree(d)
''', 'a variable that is equal, but not identical, to one of the same name in an imported module', 'it is stored by reference to the other')
seed('c16-top-level', 'C16', S, [('''        if '.' not in modname:
            modmap.top_level[id(module)] = modname
''', '''        modmap.top_level[id(module)] = modname
''')], '''
import subprocess, sys, os, tempfile
d = tempfile.mkdtemp(); f = os.path.join(d, 's')
os.mkdir(os.path.join(d, 'pk'))
open(os.path.join(d, 'pk', '__init__.py'), 'w').close()
open(os.path.join(d, 'pk', 'sub.py'), 'w').write('x = 1')
env = dict(os.environ, PYTHONPATH=os.pathsep.join([d, os.environ.get('PYTHONPATH', '')]))
try:
    subprocess.check_call([sys.executable, '-c', """if 1:
        import dill, pk.sub as q, sys
        del sys.modules['pk'].sub
        dill.dump_module(%r, refimported=True)
    """ % f], env=env)
    subprocess.check_call([sys.executable, '-c', """if 1:
        import dill
        dill.load_module(%r)
        assert q.__name__ == 'pk.sub', q
    """ % f], env=env)
finally:
    import shutil; shutil.rmtree(d)
''', 'a submodule that its package does not have as an attribute', 'the package comes back in its place')
seed('c16-main-alias', 'C16', S, [('''        for modobj, objname, modname in modmap.by_id[id(obj)]:
            if sys.modules[modname] is not main_module:
                return modname, objname
''', '''        for modobj, objname, modname in modmap.by_id[id(obj)]:
            if modname != main_module.__name__:
                return modname, objname
''')], '''
import subprocess, sys, os, tempfile
d = tempfile.mkdtemp(); f = os.path.join(d, 's')
try:
    subprocess.check_call([sys.executable, '-c', """if 1:
        import sys, dill
        sys.modules['prog'] = sys.modules['__main__']
        def f(): return 7
        dill.dump_module(%r, refimported=True)
    """ % f])
    subprocess.check_call([sys.executable, '-c', """if 1:
        import dill
        dill.load_module(%r)
        assert f() == 7
    """ % f])
finally:
    import shutil; shutil.rmtree(d)
''', 'a main module registered under a second name', 'its functions are stored by reference to that name')
seed('c16-own-dict', 'C16', S, [('''        elif obj is main_module.__dict__:
            original[name] = newmod.__dict__
''', '')], '''
import subprocess, sys, os, tempfile
d = tempfile.mkdtemp(); f = os.path.join(d, 's')
try:
    subprocess.check_call([sys.executable, '-c', """if 1:
        import types, sys, dill
        from os.path import join
        m = types.ModuleType('um'); m.x = 1; m.join = join
        m.me = vars(m)
        dill.dump_module(%r, m, refimported=True)
    """ % f])
    subprocess.check_call([sys.executable, '-c', """if 1:
        import dill
        m = dill.load_module(%r)
        assert m.me is vars(m) and m.me['x'] == 1
    """ % f])
finally:
    import shutil; shutil.rmtree(d)
''', 'a module that holds its own dictionary, saved with refimported', 'the dictionary is a copy in the restored module')

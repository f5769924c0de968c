F = 'dill/_dill.py'
seed('c13-name-clash', 'C13', F, [('''    return getattr(module, '__loader__', None) is not None or module in sys.modules.values()
''', '''    return getattr(module, '__loader__', None) is not None or module.__name__ in sys.modules
''')], '''
import dill, types, sys
m = types.ModuleType('colorsys'); m.__file__ = None; m.v = 1
import colorsys
p = dill.dumps(m)
try: dill.loads(p)
except KeyError: pass
assert not hasattr(colorsys, 'v')
''', 'a runtime module that has the name of an imported one', 'it is stored as, and loaded into, the imported module')
seed('c13-subprefix', 'C13', F, [('''        or 'site-packages' in module.__file__
''', '''        or 'site-packages' in rp(module.__file__).split(os.sep)[-3:-1]
''')], '''
import dill, types
m = types.ModuleType('q'); m.v = 1
m.__file__ = '/home/u/lib/site-packages/q/sub/deep/mod.py'
assert b'__doc__' not in dill.dumps(m)
m.__file__ = '/home/u/lib/site-packages/q.py'
assert b'__doc__' not in dill.dumps(m)
''', 'a module deep inside an installed package outside the prefixes', 'its whole state is stored')

F = 'dill/_dill.py'
seed('c11-unusable', 'C11', F, [("                except (AttributeError,TypeError): pass # defined in a file\n", "                except AttributeError: pass # defined in a file\n")], '''
import dill
class A: __slots__ = ('x',)
p = dill.dumps(A())
class A: __slots__ = ('x', 'y')
assert type(dill.loads(p)).__name__ == 'A'
A = 3
assert type(dill.loads(p)).__name__ == 'A'
''', 'an instance whose class in main has been replaced by one of another layout', 'loading raises TypeError')
seed('c11-nonetype', 'C11', F, [("        elif (module, name) == ('__builtin__', 'NoneType'):\n", "        elif name == 'NoneType' and not module.startswith('types'):\n")], '''
import dill, sys, types
assert dill.loads(b'c__builtin__\\nNoneType\\n.') is type(None)
m = types.ModuleType('mymod'); sys.modules['mymod'] = m
class NoneType: pass
m.NoneType = NoneType
assert dill.loads(b'cmymod\\nNoneType\\n.') is NoneType
''', 'a class called NoneType in some other module', 'the name resolves to the type of None')

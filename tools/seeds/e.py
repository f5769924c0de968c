F = 'dill/_dill.py'
seed('c02-empty-doc', 'C02', F, [('''            if fattr is not None:
                state_dict[fattrname] = fattr
''', '''            if fattr:
                state_dict[fattrname] = fattr
''')], '''
import dill
ns = {}
exec("def f():\\n  'the doc'\\n  return 1", ns)
f = ns['f']; f.__doc__ = ''
assert dill.loads(dill.dumps(f)).__doc__ == ''
''', 'a function whose docstring was replaced by an empty one', 'it comes back with the docstring of its code')
seed('c02-dict-type', 'C02', F, [('''        state = obj.__dict__
        if type(state) is not dict:
''', '''        state = obj.__dict__
        if not isinstance(state, dict):
''')], '''
import dill, collections
f = eval('lambda: 1', {})
f.__dict__ = collections.OrderedDict(b=1, a=2)
assert dill.copy(f).__dict__ == f.__dict__
assert type(dill.copy(f).__dict__) is collections.OrderedDict
''', 'a function whose attribute dictionary is an instance of a subclass of dict', 'it comes back with a plain dictionary')
seed('c03-locals-attr', 'C03', F, [('''        if subpath == '<locals>':
            raise AttributeError("Can't get local''', '''        if subpath == '<locals>' and not hasattr(obj, subpath):
            raise AttributeError("Can't get local''')], '''
import dill, types, sys
m = types.ModuleType('um'); sys.modules['um'] = m
exec("def mk():\\n  def g(): return 1\\n  return g", m.__dict__)
g = m.mk()
assert dill.loads(dill.dumps(g))() == 1
class NS: pass
setattr(m.mk, '<locals>', NS); NS.g = staticmethod(g)
assert dill.loads(dill.dumps(g))() == 1
''', 'a local function that is also stored under an attribute named <locals> of its outer function', 'it is looked up through <locals>, and cannot be pickled')
seed('c03-found-once', 'C03', F, [('''def save_function(pickler, obj):
    if not _locate_function(obj, pickler):
''', '''def save_function(pickler, obj, _found=__import__('weakref').WeakSet()):
    if obj not in _found and not _locate_function(obj, pickler):
'''), ('''        logger.trace(pickler, "F2: %s", obj)
''', '''        logger.trace(pickler, "F2: %s", obj)
        if not getattr(pickler, '_session', False): _found.add(obj)
''')], '''
import dill, types, sys
m = types.ModuleType('um'); sys.modules['um'] = m
exec("def f(): return 1", m.__dict__)
f = m.f
assert dill.loads(dill.dumps(f)) is f
exec("def f(): return 2", m.__dict__)
assert dill.loads(dill.dumps(f))() == 1
''', 'a function pickled by reference once and redefined in its module since', 'it is still taken for importable, and cannot be pickled')
seed('c04-drops-builtins', 'C04', F, [('''            glob_ids = {id(g) for g in globs_copy.values()}
''', '''            if globs_copy.get('__builtins__') is __builtin__.__dict__:
                del globs_copy['__builtins__'] # set again by _create_function
            glob_ids = {id(g) for g in globs_copy.values()}
''')], '''
import dill
g = {'x': 1}
f = eval('lambda: x', g)
keys = set(g)
assert dill.loads(dill.dumps(f))() == 1
assert set(g) == keys
''', 'a function whose globals are not those of an importable module', 'pickling removes __builtins__ from the globals of the original')
seed('c04-recurse-closure', 'C04', F, [('''            globs_copy = globalvars(obj, recurse=True, builtin=True)
''', '''            globs_copy = globalvars(obj, recurse=not obj.__closure__, builtin=True)
''')], '''
import dill
ns = {'__name__': 'nosuch'}
exec("a = 1\\nb = 2\\ndef h(): return a\\ndef mk(x):\\n  def f(): return x + h()\\n  return f\\nf = mk(3)", ns)
g = dill.loads(dill.dumps(ns['f'], recurse=True))
assert g() == 4 and set(g.__globals__) - {'__builtins__', '__name__'} == {'a', 'h'}, set(g.__globals__)
''', 'a closure that calls another global function, with recurse', 'names reached through other functions are missing from its globals')

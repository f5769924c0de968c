# C29
D, S = 'dill/_dill.py', 'dill/session.py'
PRE = '''
import sys, os, tempfile, subprocess, textwrap
d = tempfile.mkdtemp(); os.chdir(d)
def run(code):
    subprocess.run([sys.executable, '-c', 'import dill, sys, types, warnings; warnings.simplefilter("ignore"); sys.path.insert(0, ".")\\n' + textwrap.dedent(code)], check=True)
'''
END = '''
import shutil; shutil.rmtree(d)
'''
def s(id, file, edits, demo, needs, breaks): seed(id, 'C29', file, edits, PRE + demo + END, needs, breaks)
s('c29-recurse-setting', S, [("        pickler._recurse = False # disable pickling recursion for globals\n", "        pickler._recurse = pickler._recurse and refimported\n")], '''
run("""
    dill.settings['recurse'] = True
    n = 1
    def f(): return n
    import math
    dill.dump_module('s.pkl', refimported=True)
""")
run("""
    dill.load_module('s.pkl'); n = 2
    assert f() == 2 and f.__globals__ is globals()
""")
''', "the recurse setting and refimported=True, and a change of the namespace after loading", 'the functions have a namespace of their own')
s('c29-byref-setting', S, [("        pickler._byref = False   # disable pickling by name reference\n", "        pickler._byref = pickler._byref and main is not _main_module\n")], '''
open('m.py', 'w').write('x = 1')
run("""
    import m; exec('class A:\\\\n    class B:\\\\n        y = 1\\\\nc = A.B()\\\\ndef mk():\\\\n    class L: z = 2\\\\n    return L()\\\\nl = mk()', vars(m))
    dill.settings['byref'] = True
    dill.dump_module('s.pkl', m)
""")
run("""
    import m; dill.load_module('s.pkl', m); assert m.c.y == 1 and type(m.c) is m.A.B and m.l.z == 2
""")
''', 'the byref setting, and classes that were defined in an imported module later', 'its session cannot be loaded')
s('c29-first-pass', D, [("            # we only care about session the first pass thru\n            pickler._first_pass = False\n", "            # we only care about session the first pass thru\n            pickler._first_pass = pickler._first_pass and obj.get('__name__') == pickler._main.__name__\n")], '''
run("""
    M = types.ModuleType('rt'); M.x = 1; M.ns = [vars(M)]
    dill.dump_module('s.pkl', M)
    exec('class B:\\\\n  pass\\\\nb = B()', vars(M)); M.b.ns = vars(M)
    M.__name__ = 'other'
    dill.dump_module('t.pkl', M)
    N = {'p': 1}; K = types.ModuleType('k'); K.deep = [[N, vars(K)]]; del K.__name__; K.__name__ = 'k'
    dill.dump_module('u.pkl', K)
""")
run("""
    M = dill.load_module('s.pkl'); assert M.ns[0] is vars(M)
    M = dill.load_module('t.pkl'); assert M.b.ns is vars(M)
    K = dill.load_module('u.pkl'); assert K.deep[0][1] is vars(K)
""")
''', 'a module made at run time that refers to its own namespace', 'the reference becomes a copy')
s('c29-which-namespace', D, [("            return self._main.__dict__ #XXX: above set w/save_module_dict\n", "            return (self._main if self._main.__spec__ else _main_module).__dict__ #XXX: above set w/save_module_dict\n")], '''
run("""
    M = types.ModuleType('rt'); M.x = [1]; M.ns = vars(M)
    dill.dump_module('s.pkl', M)
""")
run("""
    M = dill.load_module('s.pkl'); assert M.ns is vars(M) and M.x == [1]
""")
''', 'a module without a spec that refers to its namespace', 'it refers to that of __main__')
s('c29-underscore-names', D, [("            main_dict = obj.__dict__.copy()\n", "            main_dict = {k: v for k, v in obj.__dict__.items() if not (is_session_main and k.startswith('_dill_'))}\n")], '''
run("""
    _dill_config = {'a': 1}; x = 2
    dill.dump_module('s.pkl')
""")
run("""
    dill.load_module('s.pkl'); assert x == 2 and _dill_config == {'a': 1}
""")
''', 'a name that starts with _dill_', 'it is not restored')
s('c29-loads-into', S, [("            unpickler._main = main\n        else:\n", "            if module is None or main is _main_module or not _is_imported_module(main):\n                unpickler._main = main\n        else:\n")], '''
open('m.py', 'w').write('x = 1\\nns = [globals()]\\nns2 = {"k": ns[0]}\\n')
run("""
    import m; dill.dump_module('s.pkl', m)
""")
run("""
    import m; dill.load_module('s.pkl', m); assert m.ns[0] is vars(m) and m.ns2['k'] is vars(m)
""")
''', 'an importable module that is given to load_module and refers to its own namespace', 'it refers to that of __main__')

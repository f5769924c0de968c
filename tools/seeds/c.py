F = 'dill/session.py'
seed('c15-leak', 'C15', F, [('''    try:
        pickler = Pickler(file, protocol, **kwds)
        pickler._original_main = main
''', '''    pickler = Pickler(file, protocol, **kwds)
    try:
        pickler._original_main = main
''')], '''
import dill, os, tempfile, types, shutil
tmp = tempfile.mkdtemp()
try:
    p = os.path.join(tmp, 's')
    m = types.ModuleType('q')
    def opened(): return sorted(os.path.realpath('/proc/self/fd/' + x) for x in os.listdir('/proc/self/fd'))
    try: dill.dump_module(p, m, nonsense=1)
    except TypeError as e: assert os.path.realpath(p) not in opened()
    else: assert 0
finally: shutil.rmtree(tmp)
''', 'dumping to a file by name with a keyword the pickler refuses', 'the file opened stays open')
seed('c15-race', 'C15', F, [('''        fd = os.open(path, os.O_WRONLY | os.O_TRUNC | _O_NOFOLLOW, 0o600)
''', '''        fd = os.open(path, os.O_WRONLY | os.O_TRUNC, 0o600)
''')], '''
import dill, os, tempfile, types, shutil
tmp = tempfile.mkdtemp()
try:
    p, q = os.path.join(tmp, 's'), os.path.join(tmp, 'victim')
    for f in (p, q): open(f, 'w').write('data')
    lstat = os.lstat
    def racing(path, *a, **k):
        r = lstat(path, *a, **k)
        if path == p: os.remove(p); os.symlink(q, p)
        return r
    os.lstat = racing
    try: dill.dump_module(p, types.ModuleType('q'))
    except OSError: pass
    finally: os.lstat = lstat
    assert open(q).read() == 'data'
finally: shutil.rmtree(tmp)
''', 'the file is replaced by a symbolic link between the check and the open', 'the session is written through the link')
seed('c17-return', 'C17', F, [('''    if main is _main_module or main is module:
        return None
''', '''    if main is _main_module or module is not None:
        return None
''')], '''
import dill, io, colorsys
b = io.BytesIO(); dill.dump_module(b, colorsys); d = b.getvalue()
assert dill.load_module(io.BytesIO(d)) is colorsys
assert dill.load_module(io.BytesIO(d), colorsys) is None
assert dill.load_module(io.BytesIO(d), 'colorsys') is colorsys
''', 'the target is given by its name', 'None is returned in place of the module')
seed('c17-not-module', 'C17', F, [('''        if main is not None:
            if not isinstance(main, ModuleType):
                raise TypeError("%r is not a module" % main)
''', '''        if main is not None:
            if not hasattr(main, '__dict__') or not hasattr(main, '__name__'):
                raise TypeError("%r is not a module" % main)
''')], '''
import dill, io, types, sys
m = types.ModuleType('q'); m.v = 1
b = io.BytesIO(); dill.dump_module(b, m); d = b.getvalue()
class Fake: pass
f = Fake(); f.__name__ = 'q'; f.__loader__ = None
try: dill.load_module(io.BytesIO(d), f)
except TypeError: pass
else: assert 0
assert not hasattr(f, 'v')
''', 'a target that looks like a module without being one', 'the session is unpickled into it')
seed('c18-own-session', 'C18', F, [('''        load_module(file, main, **kwds)
''', '''        main.__session__ = str(filename)
        load_module(file, main, **kwds)
'''), ('''    main.__session__ = str(filename)
    return main.__dict__
''', '''    return main.__dict__
''')], '''
import dill, io, types
m = types.ModuleType('q'); m.v = 1
b = io.BytesIO(); dill.dump_module(b, m); s = io.BytesIO(b.getvalue())
assert dill.load_module_asdict(s)['__session__'] == str(s)
m.__session__ = 'elsewhere'
b = io.BytesIO(); dill.dump_module(b, m); s = io.BytesIO(b.getvalue())
assert dill.load_module_asdict(s)['__session__'] == str(s)
''', 'the stored module has a __session__ of its own', '__session__ does not name the file loaded')
seed('c18-dropped', 'C18', F, [('''            else:
                sys.modules[main_name] = old_main
''', '''            elif sys.modules.get(main_name) is main:
                sys.modules[main_name] = old_main
''')], '''
import dill, io, types, sys
def drop(n): sys.modules.pop(n, None); return n
class Drop:
    def __reduce__(self): return drop, ('zz_q',)
m = types.ModuleType('zz_q'); m.__loader__ = object(); sys.modules['zz_q'] = m; m.v = 1; m.d = Drop()
b = io.BytesIO(); dill.dump_module(b, m); d = b.getvalue()
assert dill.load_module_asdict(io.BytesIO(d))['v'] == 1
assert sys.modules.get('zz_q') is m
''', 'loading an object of the session removes the module from sys.modules', 'the module is missing from sys.modules afterwards')
seed('c19-seek', 'C19', F, [('''            stream.seek(position)  # assert seek() works before reading
            chunk''', '''            chunk''')], '''
import dill, io, types
m = types.ModuleType('q'); m.v = 1
b = io.BytesIO(); dill.dump_module(b, m); d = b.getvalue()
class NoSeek:
    def __init__(self): f = io.BytesIO(d); self.read, self.readline, self.tell = f.read, f.readline, f.tell
    def seek(self, *a): raise OSError('no')
f = NoSeek(); m.v = 2
assert dill.load_module(f, m) is None and m.v == 1
''', 'a stream whose seek fails, and a module named by the caller', 'the bytes peeked at are lost')
seed('c19-named', 'C19', F, [('''        if isinstance(error, NotImplementedError) and main is not None:
''', '''        if main is not None:
''')], '''
import dill, io, types
m = types.ModuleType('q'); m.v = 1
b = io.BytesIO(); dill.dump_module(b, m); d = b.getvalue()
for n in (5, 20):
    try: dill.load_module(io.BytesIO(d[:n]), m)
    except dill.UnpicklingError as e: assert 'identify' in str(e), e
    else: assert 0
''', 'a stream cut short, and a module named by the caller', 'the failure to identify the module is ignored')

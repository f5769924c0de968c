from oracle import *
import dill, io, os, sys, types, warnings, stat, pickle, gc, random, tempfile
import dill._dill as D, dill.session as S

SecW = S.SecurityWarning


class Opens:
    """records os.open calls and the file objects made from descriptors"""
    def __enter__(self):
        self.calls, self.files, self.plain = [], [], []
        self.o, self.f, self.b = os.open, os.fdopen, io.open
        import builtins
        self.bi = builtins
        def o(path, flags, mode=0o777, **k):
            before = os.path.islink(path)
            self.calls.append((path, flags, mode, before)); return self.o(path, flags, mode, **k)
        def f(fd, *a, **k):
            r = self.f(fd, *a, **k); self.files.append(r); return r
        os.open, os.fdopen = o, f
        return self
    def __exit__(self, *a): os.open, os.fdopen = self.o, self.f


def mod(name='sess_mod', **kw):
    m = types.ModuleType(name); m.__dict__.update(kw or dict(x=1, y=[1, 2])); return m


class Boom(BaseException): pass
class Bad:
    def __init__(self, e): self.e = e
    def __reduce__(self): raise self.e


def fds():
    return sorted(os.listdir('/proc/self/fd'))


@case()
def writing_never_follows_links():
    for path in ('link', 'dangling', 'hop'):
        open('target', 'wb').write(b'precious')
    os.symlink('target', 'link'); os.symlink('nowhere', 'dangling'); os.symlink('link', 'hop')
    for p in ('link', 'dangling', 'hop', os.path.abspath('link')):
        for arg in (p, __import__('pathlib').Path(p)):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                raises(OSError, dill.dump_module, arg, mod())
                raises(OSError, S._safe_open_for_writing, p)
            check(not [x for x in w if issubclass(x.category, SecW)], 'explicit name, no warning')
            for fn in (dill.load_module, dill.load_module_asdict): raises(OSError, fn, arg)
            raises(OSError, S._safe_open_for_reading, p)
    check(open('target', 'rb').read() == b'precious' and not os.path.exists('nowhere'), 'targets untouched')


@case()
def reading_never_follows_links():
    m = mod(); dill.dump_module('real.pkl', m)
    os.symlink('real.pkl', 'l.pkl')
    for fn in (dill.load_module, dill.load_module_asdict):
        raises(OSError, fn, 'l.pkl')
        with Opens() as o: fn('real.pkl')
        check(o.calls and all(c[1] & os.O_NOFOLLOW for c in o.calls), 'O_NOFOLLOW on every open for reading: %r' % o.calls)
        check(all(c[1] & os.O_ACCMODE == os.O_RDONLY and not c[1] & (os.O_CREAT | os.O_TRUNC) for c in o.calls), 'read only')


@case()
def races_with_links():
    """the name is swapped for a symbolic link just before each system call"""
    m = mod(); data = None
    for writing in (True, False):
        for step in range(4):
            for start in ('absent', 'regular', 'link'):
                for n in ('victim', 'f'):
                    try: os.unlink(n)
                    except OSError: pass
                open('victim', 'wb').write(b'precious')
                if start == 'regular': open('f', 'wb').write(b'old')
                if start == 'link': os.symlink('victim', 'f')
                count = [0]
                real = {k: getattr(os, k) for k in ('open', 'lstat', 'stat', 'readlink')}
                def wrap(k):
                    def h(path, *a, **kw):
                        if os.fspath(path) == 'f':
                            if count[0] == step:
                                try: os.unlink('f')
                                except OSError: pass
                                if start == 'link': real['open']('f', os.O_CREAT | os.O_WRONLY, 0o600)
                                else: os.symlink('victim', 'f')
                            count[0] += 1
                        return real[k](path, *a, **kw)
                    return h
                followed = []
                def fdopen(fd, *a, **kw):
                    if os.fstat(fd).st_ino == os.stat('victim').st_ino: followed.append(fd)
                    return rf(fd, *a, **kw)
                rf = os.fdopen
                for k in real: setattr(os, k, wrap(k))
                os.fdopen = fdopen
                try:
                    try: (dill.dump_module if writing else dill.load_module_asdict)('f', *([m] if writing else []))
                    except Exception: pass
                finally:
                    for k in real: setattr(os, k, real[k])
                    os.fdopen = rf
                check(not followed, 'opened through a link (%s, step %d, %s)' % (start, step, writing))
                check(open('victim', 'rb').read() == b'precious', 'victim untouched (%s, step %d)' % (start, step))


@case()
def permissions_and_truncation():
    old = os.umask(0)
    try:
        for um in (0o000, 0o022, 0o077, 0o002):
            os.umask(um)
            p = 'new%o.pkl' % um
            dill.dump_module(p, mod())
            check(stat.S_IMODE(os.stat(p).st_mode) == 0o600, 'a new file is 0600 (umask %o): %o' % (um, stat.S_IMODE(os.stat(p).st_mode)))
            os.umask(0)
            S.SESSION_TEMPFILE = os.path.abspath('def%o.pkl' % um); os.umask(um)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore'); dill.dump_module(None, mod())
            check(stat.S_IMODE(os.stat(S.SESSION_TEMPFILE).st_mode) == 0o600, 'default file is 0600')
    finally: os.umask(old)
    for pre, mode in ((b'', 0o644), (b'x' * 100000, 0o640), (b'short', 0o600)):
        open('e.pkl', 'wb').write(pre); os.chmod('e.pkl', mode)
        os.link('e.pkl', 'hard.pkl')
        ino = os.stat('e.pkl').st_ino
        b = io.BytesIO(); dill.dump_module(b, mod()); dill.dump_module('e.pkl', mod())
        check(os.stat('e.pkl').st_ino == ino, 'in place')
        check(open('e.pkl', 'rb').read() == b.getvalue() == open('hard.pkl', 'rb').read(), 'truncated, then exactly the pickle')
        check(stat.S_IMODE(os.stat('e.pkl').st_mode) == mode, 'mode kept')
        os.unlink('hard.pkl')
    os.mkdir('dir'); raises(OSError, dill.dump_module, 'dir', mod()); check(os.path.isdir('dir'), 'a directory is refused')
    raises(OSError, dill.load_module, 'missing.pkl'); check(not os.path.exists('missing.pkl'), 'reading creates nothing')
    raises(OSError, dill.load_module_asdict, 'missing.pkl'); check(not os.path.exists('missing.pkl'), 'reading creates nothing')


@case()
def the_default_path_is_warned_about():
    S.SESSION_TEMPFILE = os.path.abspath('session.pkl')
    dill.dump_module('x.pkl', mod('sess_m1'))
    b = io.BytesIO(); dill.dump_module(b, mod('sess_m1'))
    calls = [('dump', lambda f: dill.dump_module(f, mod('sess_m1'))), ('load', dill.load_module), ('asdict', dill.load_module_asdict),
             ('dump_session', lambda f: dill.dump_session(f, mod('sess_m1'))), ('load_session', lambda f: S.load_session(f, None))]
    for what, fn in calls:
        for f, n in ((None, 1), ('x.pkl', 0), (os.path.abspath('session.pkl'), 0), (__import__('pathlib').Path('x.pkl'), 0), ('io', 0)):
            if f == 'io': f = io.BytesIO(b.getvalue())
            for _ in range(2):
                if isinstance(f, io.BytesIO): f.seek(0)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always'); fn(f)
                got = [x for x in w if issubclass(x.category, SecW)]
                check(len(got) == n, '%s(%r): %d SecurityWarning(s)' % (what, f, len(got)))
    # also when the call fails
    os.unlink('session.pkl')
    for fn in (dill.load_module, dill.load_module_asdict):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always'); raises(OSError, fn)
        check([x for x in w if issubclass(x.category, SecW)], 'warned although it fails')
    # with warnings as errors nothing is left open
    for fn in (dill.load_module, dill.load_module_asdict, dill.dump_module):
        n = fds()
        with warnings.catch_warnings():
            warnings.simplefilter('error', SecW); raises(SecW, fn)
        check(fds() == n, 'nothing opened')


def failing_dumps():
    yield 'fine', dict(module=mod()), None
    for e in (ValueError('v'), KeyboardInterrupt(), Boom(), RecursionError(), MemoryError()):
        yield 'bad object %r' % e, dict(module=mod(b=Bad(e))), type(e)
        yield 'bad object refimported', dict(module=mod(b=Bad(e)), refimported=True), type(e)
    yield 'bad keyword', dict(module=mod(), nonsense=1), TypeError
    yield 'bad protocol', dict(module=mod(), buffer_callback=3), Exception
    yield 'no such module', dict(module='no_such_module_xyz'), ImportError
    yield 'not a module', dict(module=3.5), TypeError
    yield 'both', dict(module=mod(), main=mod()), TypeError


class Stream(io.BytesIO):
    closed_by = 0
    def close(self): self.closed_by += 1; io.BytesIO.close(self)


class Duck:
    """a stream with only the methods named"""
    def __init__(self, f, names):
        self._f = f
        for n in names: setattr(self, n, getattr(f, n))
    def close(self): self._f.close()


@case(timeout=120)
def dump_closes_what_it_opened():
    warnings.simplefilter('ignore')
    S.SESSION_TEMPFILE = os.path.abspath('session.pkl')
    for what, kw, exc in failing_dumps():
        for f in ('f.pkl', None):
            n = fds()
            with Opens() as o:
                if exc: raises(exc, dill.dump_module, f, **kw)
                else: dill.dump_module(f, **kw)
            check(all(x.closed for x in o.files), '%s: closed' % what)
            check(fds() == n, '%s: no descriptor left' % what)
        s = Stream()
        if exc: raises(exc, dill.dump_module, s, **kw)
        else: dill.dump_module(s, **kw)
        gc.collect()
        check(not s.closed and not s.closed_by, "%s: the caller's stream is left open" % what)
        d = Duck(s, ['write'])
        if exc: raises(exc, dill.dump_module, d, **kw)
        else: dill.dump_module(d, **kw)
        del d; gc.collect()
        check(not s.closed_by, '%s: duck stream left open' % what)
        with open('own.pkl', 'wb') as own:
            if exc: raises(exc, dill.dump_module, own, **kw)
            else: dill.dump_module(own, **kw)
            check(not own.closed, '%s: real file left open' % what)


def pickles_to_load():
    def dumped(m, **k): b = io.BytesIO(); dill.dump_module(b, m, **k); return b.getvalue()
    good = dumped(mod('sess_m2'))
    yield 'fine', good, {}, None
    import colorsys
    yield 'imported', dumped(colorsys), {}, None
    yield 'refimported', dumped(mod('sess_m2', dumps=dill.dumps, os=os), refimported=True), {}, None
    yield 'empty', b'', {}, Exception
    yield 'garbage', b'garbage' * 30, {}, Exception
    for n in (1, 20, 40, len(good) - 1, len(good) // 2): yield 'cut %d' % n, good[:n], {}, Exception
    yield 'mismatch', good, dict(module="colorsys"), ValueError
    yield 'mismatch name', good, dict(module=mod('other')), ValueError
    yield 'not a module', good, dict(module=7), TypeError
    yield 'no module', good, dict(module='no_such_module_xyz'), ImportError
    yield 'bad keyword', good, dict(nonsense=1), TypeError
    for e in ('ValueError', 'KeyboardInterrupt', 'SystemExit'):
        m = mod('sess_m2', r=R('raise_' + e)); yield 'raises ' + e, dumped(m), {}, getattr(__import__('builtins'), e)


class R:
    def __init__(self, n): self.n = n
    def __reduce__(self): return eval_, (self.n,)
def eval_(n): raise getattr(__import__('builtins'), n[6:])()


class Raw(io.RawIOBase):
    """unseekable raw stream"""
    def __init__(self, data): self.f = io.BytesIO(data); self.closes = 0
    def readable(self): return True
    def readinto(self, b):
        d = self.f.read(len(b)); b[:len(d)] = d; return len(d)
    def close(self): self.closes += 1; io.RawIOBase.close(self)


class RawDuck:
    """raw stream without tell and seek"""
    closed = False; closes = 0
    def __init__(self, data): self.f = io.BytesIO(data)
    def readable(self): return True
    def writable(self): return False
    def seekable(self): return False
    def read(self, n=-1): return self.f.read(n)
    def readline(self): return self.f.readline()
    def readinto(self, b):
        d = self.f.read(len(b)); b[:len(d)] = d; return len(d)
    def flush(self): pass
    def close(self): self.closes += 1; self.closed = True


@case('caller stream', timeout=120)
def caller_stream():
    warnings.simplefilter('ignore')
    sys.modules['replay_c15_main'] = sys.modules[__name__]
    for what, data, kw, exc in pickles_to_load():
        for fn in (dill.load_module, dill.load_module_asdict):
            if fn is dill.load_module_asdict and 'module' in kw: continue
            for mk in (Stream, Raw, RawDuck, lambda d: Duck(Stream(d), ['read', 'readline']), lambda d: Duck(Stream(d), ['read', 'readline', 'tell', 'seek']),
                       lambda d: io.BufferedReader(Raw(d)), lambda d: Duck(Stream(d), ['read', 'readline', 'peek']) if hasattr(io.BytesIO, 'peek') else Stream(d)):
                s = mk(data)
                try: fn(s, **kw)
                except BaseException as e: pass
                gc.collect()
                inner = getattr(s, '_f', s)
                check(not inner.closed and not getattr(inner, 'closes', 0) and not getattr(inner, 'closed_by', 0), '%s %s: %s left open' % (fn.__name__, what, type(inner).__name__))
                tick(what)


@case(timeout=120)
def load_closes_what_it_opened():
    warnings.simplefilter('ignore')
    S.SESSION_TEMPFILE = os.path.abspath('session.pkl')
    for what, data, kw, exc in pickles_to_load():
        for f in ('f.pkl', None):
            open(f or 'session.pkl', 'wb').write(data)
            for fn in (dill.load_module, dill.load_module_asdict):
                if fn is dill.load_module_asdict and 'module' in kw: continue
                n = fds()
                with Opens() as o:
                    if exc: raises(exc, fn, f, **kw)
                    else: fn(f, **kw)
                check(len(o.files) == 1, '%s: one file opened' % what)
                check(all(x.closed for x in o.files), '%s %s: closed' % (fn.__name__, what))
                check(fds() == n, '%s: no descriptor left' % what)
                with open(f or 'session.pkl', 'rb') as own:
                    try: fn(own, **kw)
                    except BaseException: pass
                    gc.collect()
                    check(not own.closed, '%s: the caller\'s file is left open' % what)


@case(timeout=120)
def faults_in_every_callee():
    """an arbitrary exception from each function the session functions call"""
    warnings.simplefilter('ignore')
    dill.dump_module('f.pkl', mod('sess_m3')); data = open('f.pkl', 'rb').read()
    places = ['_make_peekable', '_identify_module', '_import_module', '_is_imported_module', '_restore_modules', '_stash_modules', 'Pickler', 'Unpickler', 'ModuleType', 'load_module']
    for p in places:
        for E in (ValueError, Boom, OSError, KeyError, NameError):
            def bad(*a, **k): raise E('injected')
            for fn, args in ((dill.dump_module, ('g.pkl', mod())), (dill.dump_module, ('g.pkl', mod(), True)), (dill.load_module, ('f.pkl',)), (dill.load_module, ('f.pkl', mod('sess_m3'))), (dill.load_module_asdict, ('f.pkl',))):
                for stream in (False, True):
                    real = getattr(S, p); s = None
                    a = args
                    if stream: s = Stream(data); a = (s,) + args[1:]
                    before = dict(sys.modules); n = fds()
                    with Opens() as o:
                        setattr(S, p, bad)
                        try: fn(*a)
                        except BaseException: pass
                        finally: setattr(S, p, real)
                    gc.collect()
                    check(all(x.closed for x in o.files) and fds() == n, '%s: %s from %s: files closed' % (fn.__name__, E.__name__, p))
                    check(s is None or not s.closed_by, '%s: %s from %s: stream open' % (fn.__name__, E.__name__, p))
                    check(not [k for k in before if sys.modules.get(k) is not before[k]] and not [k for k in sys.modules if k.startswith('__runtime__')], '%s: %s from %s: sys.modules' % (fn.__name__, E.__name__, p))

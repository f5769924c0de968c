from contracts.common import *
import io, tempfile, itertools, _io

HANDLE, CONTENTS, FILE = D.HANDLE_FMODE, D.CONTENTS_FMODE, D.FILE_FMODE
STD = ('<stdin>', '<stdout>', '<stderr>')


def modes(letter):
    """every mode string with this letter (a finite set)"""
    out = []
    for extra in ('', '+', 'b', 't', '+b', '+t'):
        for p in itertools.permutations(letter + extra):
            s = ''.join(p)
            if s not in out: out.append(s)
    return out


class File:
    """ghost state of one open file"""
    def __init__(self, path, mode, pos, name):
        self.path, self.mode, self.pos, self.name, self.open, self.dirty = path, mode, pos, name, True, False


class FS:
    """the file system as seen through one name: whether the file exists, what it holds; any open may fail"""
    def __init__(self, m, name, exists, content, bad_name):
        self.m, self.name, self.exists, self.bad = m, name, exists, bad_name
        self.content = {'name': content}
        self.files, self.log, self.failed = [], [], False

    def is_name(self, v): return self.m.is_(v, self.name) is True or self.m.branch(mkbool(self.m.eq(v, self.name)))

    def fail(self, cls=None):
        m = self.m; self.failed = True
        if cls is not None: m.raise_(cls, C(2), C('failed'))
        raise PyRaise(m.sym_exc('os_error', isa=(OSError,)))

    def handle(self, path, mode, name, pos):
        m = self.m
        f = File(path, mode, pos, name)
        raw = m.sym('raw', Kind('rawfile', cons='ref', isa=(io.RawIOBase,), attrs={'name': lambda mm, s: f.name}, setattr=self.rename(f)))
        at = {'name': lambda mm, s: f.name, 'mode': lambda mm, s: C(f.mode), 'closed': lambda mm, s: C(not f.open)}
        shape = m.ctx.choose(2)
        if 'b' in mode and shape: obj = m.sym('file', Kind('buffered', cons='ref', attrs=dict(at, raw=lambda mm, s: raw), methods=self.methods(f), isa=(io.IOBase,)))
        elif 'b' in mode: obj = m.sym('file', Kind('unbuffered', cons='ref', attrs=at, methods=self.methods(f), setattr=self.rename(f), isa=(io.IOBase,)))
        else:
            buf = m.sym('buffer', Kind('bufferedpart', cons='ref', attrs={'raw': lambda mm, s: raw, 'name': lambda mm, s: f.name}))
            obj = m.sym('file', Kind('text', cons='ref', attrs=dict(at, buffer=lambda mm, s: buf), methods=self.methods(f), isa=(io.IOBase,)))
        f.obj = obj; self.files.append(f)
        return obj

    def rename(self, f):
        def st(mm, o, n, v):
            if n != 'name': raise Unsupported('attribute %s of a file' % n)
            f.name = v; return True
        return st

    def methods(self, f):
        m = self.m
        def need(ok):
            if not f.open: m.raise_(ValueError, C('I/O operation on closed file.'))
            if not ok: m.raise_(io.UnsupportedOperation, C('not writable'))
        def write(mm, o, a, kw):
            need(set(f.mode) & set('wax+'))
            c = self.content[f.path]; s = zstr(a[0]); n = z3.Length(s)
            if 'a' in f.mode: f.pos = z3.Length(c)
            self.content[f.path] = z3.Concat(z3.SubString(c, 0, f.pos), s, z3.SubString(c, f.pos + n, z3.Length(c)))
            f.pos = f.pos + n; f.dirty = True
            return mkint(n)
        def seek(mm, o, a, kw):
            need(True)
            if len(a) != 1 or kw: raise Unsupported('seek with whence')
            f.pos = zint(a[0]); f.dirty = False; return a[0]
        def close(mm, o, a, kw): f.open = False; f.dirty = False; return NONE
        def flush(mm, o, a, kw): need(True); f.dirty = False; return NONE
        def tell(mm, o, a, kw): need(True); return mkint(f.pos)
        def truncate(mm, o, a, kw):
            need(True)
            if a: raise Unsupported('truncate to a size')
            self.content[f.path] = z3.SubString(self.content[f.path], 0, f.pos); return mkint(f.pos)
        return dict(write=write, seek=seek, close=close, flush=flush, tell=tell, truncate=truncate)

    def before_open(self, v, what):
        m = self.m
        m.prove('only the recorded name is opened', self.is_name(v))
        m.prove('what was written reaches the file before it is opened again', not any(f.open and f.dirty for f in self.files))
        self.log.append(what)
        if m.ctx.choose(2): self.fail()

    def creating(self, letter):
        if self.bad: self.fail(FileNotFoundError)
        if letter == 'r' and not self.exists: self.fail(FileNotFoundError)
        if letter == 'x' and self.exists: self.fail(FileExistsError)
        self.exists = True
        if letter == 'w': self.content['name'] = z3.StringVal('')

    def open(self, m, a, kw):
        d = dict(zip(('file', 'mode'), a)); d.update(kw)
        if set(d) - {'file', 'mode'}: raise Unsupported('open with options')
        md = d.get('mode', C('r'))
        if not isinstance(md, C): raise Unsupported('symbolic mode')
        if isinstance(md.v, str) is False or len(set(md.v) & set('rwax')) != 1: m.prove('a valid mode', False)
        v = d['file']
        if isinstance(v, SInt) and any(v is x[0] for x in self.fds): return self.fdopen(m, [v, md], {})
        letter, = set(md.v) & set('rwax')
        self.before_open(v, ('open', md.v))
        self.creating(letter)
        return self.handle('name', md.v, self.name, z3.Length(self.content['name']) if letter == 'a' else z3.IntVal(0))

    fds = ()
    def os_open(self, m, a, kw):
        d = dict(zip(('path', 'flags', 'mode'), a)); d.update(kw)
        fl = d['flags']
        if not (isinstance(fl, C) and isinstance(fl.v, int)): raise Unsupported('symbolic flags')
        fl = fl.v; acc = fl & os.O_ACCMODE
        self.before_open(d['path'], ('os.open', fl))
        if self.bad or not self.exists and not fl & os.O_CREAT: self.fail(FileNotFoundError)
        if self.exists and fl & os.O_EXCL: self.fail(FileExistsError)
        self.exists = True
        if fl & os.O_TRUNC: self.content['name'] = z3.StringVal('')
        fd = m.sym('fd', K_INT); self.fds = self.fds + ((fd, acc, fl),); return fd

    def fdopen(self, m, a, kw):
        d = dict(zip(('fd', 'mode'), a)); d.update(kw)
        if set(d) - {'fd', 'mode'}: raise Unsupported('fdopen with options')
        md = d.get('mode', C('r'))
        if not isinstance(md, C): raise Unsupported('symbolic mode')
        got = [x for x in self.fds if m.is_(x[0], d['fd']) is True or x[0] is d['fd']]
        if not got: raise Unsupported('unknown descriptor')
        fd, acc, fl = got[0]
        m.prove('the descriptor allows what the mode does',
                acc == (os.O_RDWR if '+' in md.v else os.O_RDONLY if 'r' in md.v else os.O_WRONLY) or acc == os.O_RDWR)
        self.log.append(('fdopen', md.v))
        return self.handle('name', md.v, fd, z3.Length(self.content['name']) if 'a' in md.v else z3.IntVal(0))

    def temporary(self, m, a, kw):
        d = dict(zip(('mode',), a)); d.update(kw)
        if set(d) - {'mode'}: raise Unsupported('TemporaryFile with options')
        md = d.get('mode', C('w+b'))
        self.log.append(('temporary', md.v))
        if m.ctx.choose(2): self.fail()
        self.content['temp'] = z3.StringVal('')
        return self.handle('temp', md.v, m.sym('tempname', K_INT), z3.IntVal(0))

    def install(self, m):
        self.opener = m.sym('open', Kind('opener', cons='ref', call=lambda mm, f, a, kw: self.open(mm, a, kw)))
        def size(mm, a, kw):
            mm.prove('only the recorded name is looked at', self.is_name(a[0]))
            if not self.exists: self.fail(FileNotFoundError)
            return mkint(z3.Length(self.content['name']))
        def exists(mm, a, kw):
            mm.prove('only the recorded name is looked at', self.is_name(a[0]))
            if self.bad: raise PyRaise(mm.sym_exc('bad_name', isa=(Exception,)))
            return C(self.exists)
        m.overrides = dict(m.overrides)
        for fn, h in ((os.path.exists, exists), (os.path.getsize, size), (os.open, self.os_open), (os.fdopen, self.fdopen), (io.open, self.open),
                      (tempfile.TemporaryFile, self.temporary)):
            m.overrides[host_rid(fn)] = h


def loading(letter, fmode, label):
    covers = ['missing, strict', 'too short, strict', 'cannot be opened', 'closed', 'open', 'bad name']
    if letter == 'r' and fmode != FILE: covers += ['temporary file']
    MODES = modes(letter)
    @unit('C09', 'loading a handle, mode %s, %s' % (letter, label), ['dill._dill:_create_filehandle'], covers=covers, max_paths=6000)
    def load(m):
        """any name, position and contents, whether or not the file exists; any open may fail; every mode string with this letter"""
        name = m.sym('name', K_STR); m.assume([name.t != s for s in STD + ('<tmpfile>', '<fdopen>')])
        mode = MODES[m.ctx.choose(len(MODES))]
        if fmode == FILE and 'b' in mode: raise PathEnd('text handles only')
        closed, strict = C(bool(m.ctx.choose(2))), C(bool(m.ctx.choose(2)))
        position = C(0) if closed.v else m.sym('position', K_INT)
        if not closed.v: m.assume(position.t >= 0)
        ex = m.ctx.choose(3)
        c0 = m.sym('contents', K_STR).t
        if ex == 0: m.assume(c0 == z3.StringVal(''))
        fs = FS(m, name, ex == 1, c0, ex == 2); fs.install(m)
        existed = fs.exists
        size = z3.Length(c0) if existed else z3.IntVal(0)
        fdata = m.sym('fdata', K_STR) if fmode == FILE else C('')
        out, r = m.run(D._create_filehandle, [name, C(mode), position, closed, fs.opener, strict, C(fmode), fdata])
        pos = zint(position)
        nothing = not fs.log and out == 'raise'
        if fs.bad: m.cover('bad name')
        if strict.v and not existed:
            m.cover('missing, strict')
            m.prove('a missing file is reported before anything is opened', nothing and m.pytype(r) is FileNotFoundError); return
        if strict.v and m.branch(pos > size):
            m.cover('too short, strict')
            m.prove('a file that is too short is reported before anything is opened', nothing and m.pytype(r) is ValueError); return
        if fs.failed:
            m.cover('cannot be opened')
            m.prove('failure to open is an UnpicklingError', out == 'raise' and m.pytype(r) is D.UnpicklingError)
            if fmode != HANDLE or letter != 'x' or not existed: return
        if fmode == HANDLE and letter == 'x' and existed: m.prove('a file to be created must not exist', out == 'raise'); return
        m.prove('the handle is given back', out == 'return')
        if out != 'return': return
        mine = [f for f in fs.files if m.is_(f.obj, r) is True]
        m.prove('the handle given back is one that was opened', len(mine) == 1)
        if len(mine) != 1: return
        f = mine[0]
        m.prove('no other file stays open', not any(g.open for g in fs.files if g is not f))
        m.cover('closed' if closed.v else 'open')
        m.prove('closed if and only if the original was', f.open is (not closed.v))
        m.prove('the original mode', f.mode == mode or fmode == FILE and f.mode == mode.replace('x', 'w'))
        if letter == 'r' and not existed and fmode != FILE:
            m.cover('temporary file')
            m.prove('a temporary file takes the place of a missing file to read', f.path == 'temp')
            m.prove('the missing file is not created', not fs.exists)
            m.prove('the temporary file is empty', z3.Length(fs.content['temp']) == 0)
            if not closed.v and fmode == CONTENTS: m.prove('at its start', f.pos == 0)
            return
        m.prove('the same file', f.path == 'name')
        m.prove('with the same name', m.eq(f.name, name))
        now = fs.content['name']
        if fmode == HANDLE:
            m.prove('opening acts on the file as the mode says', now == (z3.StringVal('') if letter == 'w' else c0))
            if not closed.v: m.prove('the natural position', f.pos == (z3.Length(c0) if letter == 'a' else 0))
        elif fmode == CONTENTS:
            m.prove('the file is not truncated', now == c0)
            if not closed.v: m.prove('the smaller of the saved position and the size', f.pos == z3.If(pos < size, pos, size))
        else:
            m.prove('the file has the saved contents', now == fdata.t)
            if not closed.v: m.prove('the saved position', f.pos == pos)
for letter in 'rwax':
    for fmode, label in ((HANDLE, 'HANDLE_FMODE'), (CONTENTS, 'CONTENTS_FMODE'), (FILE, 'FILE_FMODE')): loading(letter, fmode, label)


@unit('C09', 'loading a standard stream', ['dill._dill:_create_filehandle'], covers=['open', 'closed'])
def load_std(m):
    """each of the streams, any settings, any mode"""
    over = m.attrs.setdefault(host_rid(sys), {})
    log = []
    streams = {}
    for n in ('stdin', 'stdout', 'stderr'):
        def meth(what, n=n): return lambda mm, o, a, kw: (log.append((n, what)), NONE)[1]
        streams['<%s>' % n] = over['__%s__' % n] = m.sym(n, Kind('stream', cons='ref', methods={w: meth(w) for w in ('close', 'seek', 'write', 'flush')}))
    name = STD[m.ctx.choose(3)]
    fs = FS(m, C(name), False, z3.StringVal(''), False); fs.install(m)
    closed = C(bool(m.ctx.choose(2)))
    out, r = m.run(D._create_filehandle, [C(name), m.sym('mode', K_STR), C(0) if closed.v else C(-1), closed, fs.opener, m.sym('strictio', K_BOOL), m.sym('fmode', K_INT), m.sym('fdata', K_STR)])
    m.prove("the process's own stream", out == 'return' and m.is_(r, streams[name]))
    m.prove('nothing is opened', not fs.log)
    m.cover('closed' if closed.v else 'open')
    m.prove('closed if and only if the original was', [e for e in log if e[1] == 'close'] == ([(name[1:-1], 'close')] if closed.v else []))
    m.prove('the stream is not moved or written to', not [e for e in log if e[1] in ('seek', 'write')])


def file_obj(m, log, closed, std):
    """an arbitrary handle: any name, mode and position; it holds unwritten data until flushed"""
    st = dict(flushed=False)
    pos = m.sym('tell', K_INT); m.assume(pos.t >= 0)
    def closedcheck(mm):
        if closed: mm.raise_(ValueError, C('I/O operation on closed file.'))
    def flush(mm, o, a, kw): closedcheck(mm); st['flushed'] = True; log.append('flush'); return NONE
    def tell(mm, o, a, kw): closedcheck(mm); log.append('tell'); return pos
    def other(what): return lambda mm, o, a, kw: (log.append(what), NONE)[1]
    name, mode = m.sym('name', K_STR), m.sym('mode', K_STR)
    f = m.sym('file', Kind('handle', cons='ref', isa=(io.IOBase,), eq=lambda mm, s, o: mm.is_(s, o),
        attrs={'name': lambda mm, s: name, 'mode': lambda mm, s: mode, 'closed': lambda mm, s: C(closed)},
        methods=dict({w: other(w) for w in ('close', 'seek', 'write', 'read', 'truncate', 'detach')}, flush=flush, tell=tell)))
    return f, name, mode, pos, st


@unit('C09', 'saving a handle', ['dill._dill:_save_file'], covers=['closed', 'open', 'standard stream', 'contents', 'another pickler'], max_paths=4000)
def saving(m):
    """any handle, open or closed; any pickler and settings"""
    i, p = choose_pickler(m)
    closed = bool(m.ctx.choose(2)); std = m.ctx.choose(4)       # 3: not a standard stream
    log = []
    f, name, mode, pos, st = file_obj(m, log, closed, std)
    over = m.attrs.setdefault(host_rid(sys), {})
    for j, n in enumerate(('stdin', 'stdout', 'stderr')):
        over['__%s__' % n] = f if j == std else m.sym(n, Kind('stream', cons='ref', isa=(io.IOBase,), eq=lambda mm, s, o: mm.is_(s, o)))
    m.assume(z3.Distinct(*[V.rid(x.t) for x in [f] + [over[k] for k in ('__stdin__', '__stdout__', '__stderr__') if over[k] is not f]]))
    # the file, as opened by name: what it holds once the handle is flushed
    data = m.sym('data', K_STR); side = []
    def opener(mm, fn, a, kw):
        d = dict(zip(('file', 'mode'), a)); d.update(kw)
        mm.prove('the file of the handle is read', mm.eq(d['file'], name))
        mm.prove('it is opened for reading', isinstance(d.get('mode', C('r')), C) and d.get('mode', C('r')).v in ('r', 'rt', 'tr'))
        mm.prove('unwritten data is written out before', closed or st['flushed'])
        s = dict(open=True, reads=0); side.append(s)
        def read(m2, o, a, kw):
            if a and not (isinstance(a[0], C) and a[0].v in (-1, None)): raise Unsupported('partial read')
            s['reads'] += 1; return data if s['reads'] == 1 else C('')
        def close(m2, o, a, kw): s['open'] = False; return NONE
        o = mm.sym('side', Kind('side', cons='ref', isa=(io.IOBase,), methods={'read': read, 'close': close, '__enter__': lambda m2, o, a, kw: o, '__exit__': close}))
        return o
    op = m.sym('open', Kind('opener', cons='ref', call=opener))
    out, r = m.run(D._save_file, [p, f, op])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    rs = reduces(m)
    m.prove('one reduction', len(rs) == 1 and len([e for e in events(m) if isinstance(e, Ev)]) == 1)
    if len(rs) != 1: return
    ev = rs[0]
    m.prove('rebuilt by the function that opens handles', m.is_(ev.func, C(D._create_filehandle)))
    m.prove('it stands for the handle', m.is_(ev.obj, f) if ev.obj is not None else False)
    its = m.iterate(ev.args)
    m.prove('all eight fields', len(its) == 8)
    if len(its) != 8: return
    m.prove('nothing else is part of the pickle', all(x is None or x is NONE or m.is_(x, NONE) is True for x in (ev.state, ev.listitems, ev.dictitems)))
    fm = m.attrs[p.addr]['_fmode'] if i < 2 else C(HANDLE)
    for k, want, what in ((0, name, 'the name'), (1, mode, 'the mode'), (3, C(closed), 'whether it is closed'), (6, fm, 'the file mode of the pickler'),
                          (5, m.attrs[p.addr]['_strictio'] if i < 2 else FALSE, 'the strictness of the pickler')):
        m.prove(what, m.eq(its[k], want))
    m.prove('the way to open it', m.is_(its[4], op))
    m.cover('closed' if closed else 'standard stream' if std < 3 else 'open')
    m.prove('its position (none for a standard stream)', m.eq(its[2], C(0) if closed else C(-1) if std < 3 else pos))
    if i == 2: m.cover('another pickler')
    if i < 2 and std == 3 and m.branch(mkbool(m.eq(fm, C(FILE)))):
        m.cover('contents')
        m.prove('the contents of the file', m.is_(its[7], data) if m.pytype(its[7]) is str else False)
    else: m.prove('no contents', m.eq(its[7], C('')))
    m.prove('the file that was read is closed', not any(s['open'] for s in side))
    m.prove('the handle is left open, at its position', not [x for x in log if x not in ('flush', 'tell')])


HANDLE_TYPES = [(t, o) for t, o in ((D.FileType, open), (D.BufferedReaderType, open), (D.BufferedWriterType, open), (D.TextWrapperType, open), (D.BufferedRandomType, open),
    (D.PyTextWrapperType, D._open), (D.PyBufferedRandomType, D._open), (D.PyBufferedReaderType, D._open), (D.PyBufferedWriterType, D._open)) if t is not None]

@unit('C09', 'each class of handle', ['registered for each class of file'], covers=[t.__module__ + '.' + t.__name__ for t, o in HANDLE_TYPES])
def each_class(m):
    """every file class of this interpreter is saved by the contract of _save_file, with the opener of its own library"""
    t, o = HANDLE_TYPES[m.ctx.choose(len(HANDLE_TYPES))]
    i, p = choose_pickler(m)
    f = m.sym('file', Kind('handle', cons='ref', isa=(io.IOBase,)))
    calls = []
    m.overrides = dict(m.overrides); m.overrides[host_rid(D._save_file)] = lambda mm, a, kw: (calls.append((a, kw)), NONE)[1]
    m.prove('there is a saver for the class', t in D.Pickler.dispatch)
    out, r = m.run(save_fn(t), [p, f])
    m.prove('returns normally', out == 'return')
    m.prove('saved once', len(calls) == 1 and len(calls[0][0]) == 3 and not calls[0][1])
    if len(calls) != 1 or len(calls[0][0]) != 3: return
    a = calls[0][0]
    m.prove('the handle itself', And(m.is_(a[0], p), m.is_(a[1], f)))
    m.prove('opened again by the same library', m.is_(a[2], C(o)))
    m.cover(t.__module__ + '.' + t.__name__)

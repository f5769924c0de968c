from contracts.sess import *
import io, stat

KINDS = ('absent', 'regular', 'symlink', 'other')


def filesystem(m, racy):
    """what the path names: nothing, a regular file, a symbolic link or something else - arbitrary, and, if racy, arbitrary again at every system call"""
    log = m.ghost['fs'] = []
    state = [None]
    def now():
        if racy or state[0] is None: state[0] = KINDS[m.ctx.choose(4)]
        return state[0]
    def flag(f, bit): return bool(f & bit)
    def os_open(mm, a, kw):
        d = dict(zip(('path', 'flags', 'mode'), a)); d.update(kw)
        f = mm.as_int(d['flags']) if hasattr(mm, 'as_int') else d['flags'].v
        k = now()
        mode = d.get('mode', C(0o777))
        log.append(('open', d['path'], f, mode, k))
        if k == 'absent':
            if not flag(f, os.O_CREAT): mm.raise_(FileNotFoundError, C(2), C('No such file'))
        else:
            if flag(f, os.O_CREAT) and flag(f, os.O_EXCL): mm.raise_(FileExistsError, C(17), C('File exists'))
            if k == 'symlink' and flag(f, os.O_NOFOLLOW): mm.raise_(OSError, C(40), C('Too many levels of symbolic links'))
        if mm.ctx.choose(2): mm.raise_(PermissionError, C(13), C('denied'))
        if k == 'absent': state[0] = 'regular'
        fd = mm.sym('fd', K_INT)
        log.append(('fd', fd, k)); return fd
    def os_lstat(mm, a, kw):
        k = now()
        log.append(('lstat', a[0], k))
        if k == 'absent': mm.raise_(FileNotFoundError, C(2), C('No such file'))
        st = mm.sym('st', Kind('stat_result', cons='ref', attrs={'st_mode': K_INT}))
        t = zint(mm.lookup_attr(st, 'st_mode'))
        mm.assume((isl(t)) if k == 'symlink' else z3.Not(isl(t)))
        return st
    isl = z3.Function('S_ISLNK', z3.IntSort(), z3.BoolSort())
    def fdopen(mm, a, kw):
        d = dict(zip(('fd', 'mode'), a)); d.update({k: x for k, x in kw.items() if k in ('fd', 'mode')})
        f = mm.sym('file', Kind('file', cons='ref'))
        log.append(('file', f, d['fd'], d.get('mode', C('r')))); return f
    m.overrides = dict(m.overrides)
    for fn, h in ((os.open, os_open), (os.lstat, os_lstat), (os.fdopen, fdopen), (io.open, fdopen),
                  (stat.S_ISLNK, lambda mm, a, kw: SBool(isl(zint(a[0])))),
                  (os.path.islink, lambda mm, a, kw: C(now() == 'symlink'))):
        m.overrides[host_rid(fn)] = h
    return log


def check_open(m, log, out, r, path, writing):
    opens = [e for e in log if e[0] == 'open']
    for e in opens:
        f = e[2]
        m.prove('no open can go through a symbolic link', bool(f & os.O_NOFOLLOW) or bool(f & os.O_CREAT and f & os.O_EXCL))
        m.prove('it is the given file that is opened', m.is_(e[1], path))
        if f & os.O_CREAT:
            md = e[3]
            m.prove('a new file belongs to its owner only', isinstance(md, C) and md.v & 0o777 == 0o600)
            m.prove('files are created for writing only', writing)
        acc = f & os.O_ACCMODE
        m.prove('opened for writing only (reading only)', acc in (os.O_WRONLY, os.O_RDWR) if writing else acc == os.O_RDONLY and not f & os.O_TRUNC)
    m.prove('no system call but open and lstat', all(e[0] in ('open', 'fd', 'lstat', 'file') for e in log))
    if out != 'return': return
    files = [e for e in log if e[0] == 'file']
    m.prove('one file is returned', len(files) == 1 and m.is_(files[0][1], r) is True)
    if len(files) != 1: return
    fds = [i for i, e in enumerate(log) if e[0] == 'fd']
    m.prove('it is the one that was opened', bool(fds) and len(fds) == 1 and m.eq(files[0][2], log[fds[-1]][1]))
    if not fds: return
    op, fd = log[fds[-1] - 1], log[fds[-1]]
    m.prove('as a binary file to write (read)', isinstance(files[0][3], C) and 'b' in files[0][3].v and (set('wax') & set(files[0][3].v) and '+' not in files[0][3].v if writing else 'r' in files[0][3].v and '+' not in files[0][3].v))
    m.prove('not a symbolic link', fd[2] != 'symlink')
    if writing and fd[2] == 'regular': m.prove('an existing regular file is truncated in place', bool(op[2] & os.O_TRUNC)); m.cover('truncated')
    if writing and fd[2] == 'absent': m.cover('created')


def opener(fn, writing, name, covers):
    @unit('C15', name, ['dill.session:' + fn.__name__, 'dill.session:_check_symlink'], covers=covers)
    def u(m):
        """whatever the path names, at each system call"""
        racy = bool(m.ctx.choose(2))
        log = filesystem(m, racy)
        path = m.sym('path', OneOf(K_STR, K_PATHLIKE))
        out, r = m.run(fn, [path])
        check_open(m, log, out, r, path, writing)
        if not racy:
            k = [e[-1] for e in log if e[0] in ('open', 'lstat')][:1]
            denied = out == 'raise' and m.pytype(r) is PermissionError
            if k == ['symlink']: m.cover('refused'); m.prove('a symbolic link is refused', out == 'raise' and issubclass(m.pytype(r), OSError))
            if k == ['regular'] and not denied: m.cover('regular'); m.prove('a regular file is opened', out == 'return')
            if k == ['absent'] and not denied:
                m.prove('a missing file is created (reported)', out == 'return' if writing else out == 'raise' and m.pytype(r) is FileNotFoundError)
opener(SESS._safe_open_for_writing, True, 'opening for writing', ['refused', 'regular', 'truncated', 'created'])
opener(SESS._safe_open_for_reading, False, 'opening for reading', ['refused', 'regular'])


@unit('C15', 'default path warning', ['dill.session:_warn_if_default_path'], covers=['default', 'explicit'])
def warn_default(m):
    """any argument"""
    f = m.sym('filename', ANY)
    out, r = m.run(SESS._warn_if_default_path, [f])
    m.prove('returns normally', out == 'return')
    if m.branch(mkbool(m.is_(f, NONE))): m.cover('default'); m.prove('one SecurityWarning', len(security_warnings(m)) == 1)
    else: m.cover('explicit'); m.prove('no SecurityWarning', not security_warnings(m))


EXITS = ['%s, %s' % (a, b) for a in ('default', 'name', 'path', 'stream') for b in ('return', 'raise')]


@unit('C15', 'dump_module', ['dill.session:dump_module', 'dill.session:_warn_if_default_path'], covers=EXITS, max_paths=6000)
def dump_module(m):
    """any file argument, module, options and keywords; pickling, stashing and importing may raise anything"""
    f, which, log, opened = session_env(m, 'write')
    used = []
    def mk(mm, a, kw):
        used.append(a[0] if a else kw.get('file'))
        if mm.ctx.choose(2): raise PyRaise(mm.sym_exc('Pickler_failed'))
        return mm.sym('pickler', Kind('pickler', cons='ref', methods={'dump': lambda mm, o, a, kw: may(mm, 'dump')(mm, a, kw)}))
    m.overrides[host_rid(D.Pickler)] = mk
    m.overrides[host_rid(SESS._stash_modules)] = may(m, 'stash', lambda mm, a, kw: a[0])
    m.overrides[host_rid(D._import_module)] = may(m, 'import', lambda mm, a, kw: mm.sym('imported', K_MODULE))
    c = m.ctx.choose(4)
    mod = (NONE, lambda: m.sym('modname', K_STR), lambda: m.sym('module', K_MODULE), lambda: m.sym('notamodule', Kind('x', cons='ref', nota=(types.ModuleType, str))))[c]
    if c: mod = mod()
    kw = {}
    names = ['main', 'byref']
    old = m.ctx.choose(3)
    if old: kw[names[old - 1]] = m.sym(names[old - 1], ANY)
    out, r = m.run(SESS.dump_module, [f, mod, m.sym('refimported', K_BOOL)], kw, kwds(m, ['filename', 'module', 'refimported', 'main', 'byref', 'file', 'protocol', 'self']))
    check_files(m, f, which, log, opened, False, out)
    for u in used: m.prove('the pickler writes to the opened file or the given stream', m.is_(u, f) if which == 3 else bool(opened) and m.is_(u, opened[0]))



@unit('C15', 'load_module', ['dill.session:load_module', 'dill.session:_warn_if_default_path', 'dill.session:_make_peekable'], covers=EXITS, max_paths=40000, seconds=300)
def load_module(m):
    """any file argument, target, stored module and keywords; identifying, importing, unpickling and restoring may raise anything"""
    f, which, log, opened, external = load_env(m)
    used = []
    def mk(mm, a, kw):
        used.append(a[0] if a else kw.get('file'))
        if mm.ctx.choose(2): raise PyRaise(mm.sym_exc('Unpickler_failed'))
        return mm.sym('unpickler', Kind('unpickler', cons='ref', attrs={'_main': m.ghost['main_module']}, methods={'load': lambda mm, o, a, kw: external('load', lambda *_: mm.sym('loaded', K_ANYMOD), True)(mm, a, kw)}))
    m.overrides[host_rid(D.Unpickler)] = mk
    m.overrides[host_rid(SESS._restore_modules)] = external('restore', lambda *a: NONE)
    c = m.ctx.choose(3)
    mod = NONE if c == 0 else target(m)
    kw = {}
    if c == 2: kw['main'] = mod; mod = NONE
    out, r = m.run(SESS.load_module, [f, mod], kw, kwds(m, ['filename', 'module', 'main', 'file', 'self']))
    finalizers(m, log)
    check_files(m, f, which, log, opened, True, out)
    for u in used: m.prove('the unpickler reads the opened file or the given stream', m.is_(wrapped(m, log, u), f) if which == 3 else bool(opened) and m.is_(wrapped(m, log, u), opened[0]))


@unit('C15', 'load_module_asdict', ['dill.session:load_module_asdict', 'dill.session:_make_peekable', 'dill.session:_warn_if_default_path'], covers=EXITS, max_paths=40000, seconds=300)
def load_module_asdict(m):
    """any file argument, stored module, update flag and keywords; identifying, importing and loading may raise anything"""
    f, which, log, opened, external = asdict_env(m)
    kw = {}
    if m.ctx.choose(2): kw['update'] = m.sym('update', K_BOOL)
    out, r = m.run(SESS.load_module_asdict, [f], kw, kwds(m, ['filename', 'update', 'module', 'main', 'file', 'self']))
    finalizers(m, log)
    check_files(m, f, which, log, opened, True, out)
    for e in log:
        if e[0] == 'load_module': m.prove('loads from the opened file or the given stream', m.is_(wrapped(m, log, e[1][0]), f) if which == 3 else bool(opened) and m.is_(wrapped(m, log, e[1][0]), opened[0]))

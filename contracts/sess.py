from contracts.common import *
import io

K_PATHLIKE = Kind('pathlike', cons='ref', open=True, attrs={'write': ABSENT, 'read': ABSENT})


def security_warnings(m):
    def cat(x):
        if isinstance(x, C) and isinstance(x.v, type): return issubclass(x.v, SESS.SecurityWarning)
        return m.isinst_formula(x, SESS.SecurityWarning) is True
    return [e for e in m.trace if isinstance(e, tuple) and e[0] == 'warn' and (cat(e[2]) or (isinstance(e[1], O) and issubclass(m.pytype(e[1]), SESS.SecurityWarning)))]


def session_env(m, attr, stream_only=False):
    """the file argument (none, a name, a path object or a stream), and openers of which only their own contract is used"""
    log = m.ghost['log'] = []
    opened = []
    def close(mm, o, a, kw):
        log.append(('close', o))
        return NONE
    def opener_(which):
        def h(mm, a, kw):
            log.append((which, a[0]))
            if mm.ctx.choose(2): raise PyRaise(mm.sym_exc('open_failed', isa=(OSError,)))
            f = mm.sym('opened', Kind('openfile', cons='ref', methods={'close': close, 'read': nil, 'write': nil, 'peek': nil}))
            opened.append(f)
            if isinstance(a[0], S): mm.assume(f.t != a[0].t)     # (a new object)
            return f
        return h
    nil = lambda mm, o, a, kw: NONE
    m.overrides = dict(m.overrides)
    m.overrides[host_rid(SESS._safe_open_for_writing)] = opener_('write')
    m.overrides[host_rid(SESS._safe_open_for_reading)] = opener_('read')
    def plain_open(mm, a, kw): log.append(('plain open', a[0])); raise PyRaise(mm.sym_exc('open_failed', isa=(OSError,)))
    for fn in (open, os.open, io.open, os.fdopen): m.overrides[host_rid(fn)] = plain_open
    which = 3 if stream_only else m.ctx.choose(4)
    if which == 0: f = NONE
    elif which == 1: f = m.sym('name', K_STR)
    elif which == 2: f = m.sym('path', K_PATHLIKE)
    else: f = m.sym('stream', Kind('stream', cons='ref', open=True, methods={'close': close, attr: nil, **({'peek': nil} if stream_only else {})}))
    return f, which, log, opened


def may(m, what, ret=None):
    """an external function: it may raise anything"""
    def h(mm, a, kw):
        if mm.ctx.choose(2): raise PyRaise(mm.sym_exc(what + '_failed'))
        r = ret(mm, a, kw) if ret else NONE
        return r
    return h


def check_files(m, f, which, log, opened, reading, out, early=False):
    opens = [e for e in log if e[0] in ('read', 'write')]
    m.prove('opened only through the safe functions', not [e for e in log if e[0] == 'plain open'])
    m.prove('at most one file is opened, never when a stream is given', len(opens) <= (which != 3))
    for e in opens: m.prove('opened in the right direction', e[0] == ('read' if reading else 'write'))
    for e in opens: m.prove('the given name is opened, or the default', m.eq(e[1], C(SESS.SESSION_TEMPFILE)) if which == 0 else m.is_(e[1], f))
    closes = [e[1] for e in log if e[0] == 'close']
    for o in opened: m.prove('a file the call opened is closed on every exit', any(m.is_(c, o) is True for c in closes))
    if which == 3: m.prove("the caller's stream is left open", not any(m.is_(c, f) is not False for c in closes))
    w = len(security_warnings(m))
    if which == 0 and opens: m.prove('the default path is warned about', w >= 1)
    if which != 0: m.prove('an explicit file is not warned about', w == 0)
    m.cover('%s, %s' % (('default', 'name', 'path', 'stream')[which], out))


def kwds(m, drop):
    arr = m.ctx.fresh('kwds', DICT)
    for k in drop: m.assume(OV.is_absent(z3.Select(arr, z3.simplify(V.strv(z3.StringVal(k))))))
    return DMap(arr, (), K_STR, None)

EXITS = ['%s, %s' % (a, b) for a in ('default', 'name', 'path', 'stream') for b in ('return', 'raise')]
imported = ufun('is_imported_module', z3.IntSort(), z3.BoolSort())
K_ANYMOD = Kind('module', isa=(types.ModuleType,), cons='ref', open=True, attrs={'__name__': K_STR, '__dict__': K_MODULEDICT})
K_NOMOD = Kind('notamodule', cons='ref', nota=(types.ModuleType, str), attrs={'__dict__': Opt(K_MODULEDICT)})
K_ENTRY = OneOf(K_ANYMOD, K_NONE)


RT = '__runtime__.'


def a_name(m, what):
    """any string, split by whether it is a runtime module's name"""
    s = m.sym(what, K_STR)
    if m.ctx.choose(2): m.assume(z3.Not(z3.PrefixOf(z3.StringVal(RT), s.t))); return s
    return SStr(z3.Concat(z3.StringVal(RT), s.t))


def load_env(m, stream_only=False):
    """everything load_module calls, by contract: each call may raise anything and may change sys.modules arbitrarily"""
    f, which, log, opened = session_env(m, 'read', stream_only)
    g = m.ghost
    g['modules'] = m.ctx.fresh('sys_modules', DICT); g['extfail'] = False; g['added'] = []
    m.dicts[host_rid(sys.modules)] = DMap(g['modules'], (), K_STR, K_ENTRY)
    g['before'] = g['modules']
    def modules_now(): return m.dmap(C(sys.modules)).array()
    g['modules_now'] = modules_now
    def external(what, ret, havoc=False):
        def h(mm, a, kw):
            log.append((what, a, kw, modules_now()))
            if havoc:
                arr = mm.ctx.fresh('sys_modules', DICT)
                m.dicts[host_rid(sys.modules)] = DMap(arr, (), K_STR, K_ENTRY); g['modules'] = arr
            if mm.ctx.choose(2): g['extfail'] = True; raise PyRaise(mm.sym_exc(what + '_failed'))
            return ret(mm, a, kw)
        return h
    g['main_module'] = m.sym('main_module', K_ANYMOD)
    for mod in (D, SESS): m.attrs.setdefault(host_rid(mod), {})['_main_module'] = g['main_module']
    g['created'] = []
    def newmod(mm, a, kw):
        K = Kind('newmodule', base=K_MODULE, setattr=lambda m3, v, n, x: (m3.dset(m3.getattr(v, '__dict__'), C(n), x), True)[1])
        o = mm.sym('newmodule', K, old=False)
        mm.assume(V.rid(o.t) == OLD_MAX + 10 ** 6 + len(g['created']))       # (a new object)
        mm.assume(z3.Not(imported(V.rid(o.t))))
        at = mm.attrs.setdefault(mm.key(o, mm.attrs, True), {})
        at['__name__'] = a[0]
        at['__dict__'] = mm.new_dict([(C('__name__'), a[0])] + [(C(n), NONE) for n in ('__doc__', '__package__', '__loader__', '__spec__')])
        g['created'].append((o, a[0])); return o
    m.overrides[host_rid(types.ModuleType)] = newmod
    def imp(mm, a, kw): g['imported'] = mm.sym('imported', K_ANYMOD if mm.ctx.choose(2) else K_NOMOD); return g['imported']
    m.overrides[host_rid(D._import_module)] = external('import', imp, True)
    m.overrides[host_rid(D._is_imported_module)] = lambda mm, a, kw: SBool(imported(V.rid(mm.force(a[0]).t)))
    def identify(mm, a, kw):
        main = a[1] if len(a) > 1 else kw.get('main', NONE)
        if not mm.branch(mkbool(mm.is_(main, NONE))) and mm.ctx.choose(2): g['stored'] = NONE
        else: g['stored'] = a_name(mm, 'stored_name')
        g['modules_at_identify'] = modules_now()
        return g['stored']
    m.overrides[host_rid(SESS._identify_module)] = external('identify', identify)
    def buffered(cls):
        def h(mm, a, kw):
            if mm.ctx.choose(2): raise PyRaise(mm.sym_exc('not_raw', isa=(Exception,)))
            o = mm.alloc(cls); log.append(('buffered', o, a[0])); return o
        return h
    for cls in {io.BufferedReader, getattr(SESS, '_BorrowingReader', io.BufferedReader)}: m.overrides[host_rid(cls)] = buffered(cls)
    return f, which, log, opened, external


def finalizers(m, log):
    """temporary buffered readers are dropped: their finalizer calls close(), which closes the stream unless redefined"""
    for e in list(log):
        if e[0] == 'buffered':
            fn = getattr(m.pytype(e[1]), 'close')
            if isinstance(fn, types.FunctionType): m.run(fn, [e[1]])
            else: log.append(('close', e[2]))


def wrapped(m, log, x):
    """the stream under a peekable wrapper"""
    for _ in range(3):
        b = [e for e in log if e[0] == 'buffered' and e[1] is x]
        if b: x = b[0][2]
        elif isinstance(x, O) and m.pytype(x) is SESS._PeekableReader: x = m.getattr(x, 'stream')
    return x


def target(m):
    return (lambda: a_name(m, 'target'), lambda: m.sym('target', K_ANYMOD), lambda: m.sym('target', K_NOMOD))[m.ctx.choose(3)]()


def asdict_env(m):
    """what load_module_asdict calls; load_module by its contract: it may change sys.modules, may raise, does not close the stream it is given"""
    f, which, log, opened, external = load_env(m)
    m.overrides[host_rid(SESS.load_module)] = external('load_module', lambda *a: NONE, True)
    return f, which, log, opened, external

from contracts.sess import *


@unit(['C17', 'C29'], 'load_module', ['dill.session:load_module'], max_paths=40000, seconds=400,
      covers=['loaded', 'returned', 'nothing returned', 'kind mismatch', 'name mismatch', 'not a module', 'runtime entry'])
def load_module(m):
    """any target, any stored module (known or not), any module kinds and names, any sys.modules; every callee may raise anything and change sys.modules"""
    f, which, log, opened, external = load_env(m, stream_only=True)
    g = m.ghost
    unp = m.sym('unpickler', Kind('unpickler', cons='ref', open=False, attrs={'_main': g['main_module']}, methods={
        'load': lambda mm, o, a, kw: external('load', lambda *_: g.setdefault('loaded', mm.sym('loaded', K_ANYMOD)), True)(mm, a, kw)}))
    m.overrides[host_rid(D.Unpickler)] = lambda mm, a, kw: unp
    m.overrides[host_rid(SESS._restore_modules)] = external('restore', lambda *a: NONE)
    c = m.ctx.choose(2)
    mod = target(m) if c else NONE
    kw = {}; args = [f]
    if c:
        if m.ctx.choose(2): kw['main'] = mod
        else: args.append(mod)
    out, r = m.run(SESS.load_module, args, kw, kwds(m, ['filename', 'module', 'main', 'file', 'self']))
    loads = [e for e in log if e[0] == 'load']
    m.prove('unpickled at most once', len(loads) <= 1)
    stored = g.get('stored')
    # the module loaded into, worked out from the arguments
    if loads or (not g['extfail'] and out == 'raise'):
        imports = [e for e in log if e[0] == 'import']
        tgt = mod if c else NONE
        if tgt is NONE and stored is not None and stored is not NONE: tgt = stored
        if isinstance(tgt, (SStr, C)) and tgt is not NONE:
            if runtime(tgt):
                main = [o for o, n in g['created'] if m.branch(mkbool(m.eq(n, rest(m, tgt))))]; main = main[-1] if main else None
            else: main = g.get('imported')
        elif tgt is NONE: main = g['main_module']
        else: main = tgt
        if main is None: m.prove('the target is found', False); return
        ismod = m.branch(m.isinst_formula(m.force(main), types.ModuleType))
    if loads:
        m.cover('loaded')
        m.prove('only a module is loaded into', ismod)
        m.prove("the unpickler's main module is the target", m.is_(m.getattr(unp, '_main'), main))
        imp = imported(V.rid(term(main)))
        if stored is not NONE:
            m.prove('the kinds match', imp if not runtime(stored) else z3.Not(imp))
            m.prove('the names match', m.eq(m.getattr(main, '__name__'), stored if not runtime(stored) else rest(m, stored)))
    elif out == 'raise' and not g['extfail']:
        # refused: only for a mismatch, and with the right exception
        t = m.pytype(r)
        if not ismod: m.cover('not a module'); m.prove('a target that is no module is a TypeError', t is TypeError)
        else:
            m.prove('any other refusal is a ValueError', t is ValueError)
            imp = imported(V.rid(term(main)))
            ok = And(imp if not runtime(stored) else z3.Not(imp), m.eq(m.getattr(main, '__name__'), stored if not runtime(stored) else rest(m, stored))) if stored is not NONE else True
            m.prove('only for a mismatch', Not(ok) if stored is not NONE else False)
            if m.branch(mkbool(imp)) != (not runtime(stored)): m.cover('kind mismatch')
            else: m.cover('name mismatch')
    elif out == 'raise': pass
    # sys.modules: only the temporary entry, which is gone
    now = z3.simplify(g['modules_now']()); last = g['modules']
    if loads and not m.branch(SBool(imported(V.rid(term(main))))):
        m.cover('runtime entry')
        key = z3.simplify(V.strv(z3.Concat(z3.StringVal(RT), zstr(m.getattr(main, '__name__')))))
        m.prove('the temporary entry is gone, every other entry is as it was', now == z3.Store(last, key, OV.absent))
        m.prove('the temporary entry is there while loading', z3.Select(loads[0][3], key) == OV.some(term(main)))
    else:
        m.prove('no entry of sys.modules is removed or changed', now == last)
    if out == 'return':
        m.prove('returns only after loading', len(loads) == 1)
        if len(loads) != 1: return
        silent = Or(m.is_(main, g['main_module']), m.is_(main, mod) if c else False)
        if m.branch(mkbool(silent)): m.cover('nothing returned'); m.prove("returns None for __main__ and the caller's own module", m.is_(r, NONE))
        else: m.cover('returned'); m.prove('otherwise returns the module', m.is_(r, main))


def runtime(s):
    if isinstance(s, C): return s.v.startswith(RT)
    return z3.is_true(z3.simplify(z3.PrefixOf(z3.StringVal(RT), s.t)))


def rest(m, s):
    t = z3.simplify(s.t); ch = t.children()
    return mkstr(ch[1] if len(ch) == 2 else z3.Concat(*ch[1:]))

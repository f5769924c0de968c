from contracts.sess import *


@unit('C18', 'load_module_asdict', ['dill.session:load_module_asdict'], max_paths=40000, seconds=300,
      covers=['returned', 'failed', 'runtime module', 'updated', 'absent before', 'present before'])
def asdict(m):
    """any stream, stored name, sys.modules and update flag; identifying, importing and loading may raise anything and (load) change the module they get"""
    f, which, log, opened, external = asdict_env(m)
    g = m.ghost
    kw = {}; upd = NONE
    if m.ctx.choose(2): upd = m.sym('update', K_BOOL); kw['update'] = upd
    state = {}
    def load(mm, a, kw):
        mod = a[1] if len(a) > 1 else kw.get('module', NONE)
        state['module'] = mod; state['kw'] = kw
        k = z3.simplify(V.strv(zstr(g['stored'])))
        state['entry'] = z3.simplify(z3.Select([e for e in log if e[0] == 'load_module'][0][3], k))
        state['dict'] = z3.simplify(mm.dmap(mm.getattr(mod, '__dict__')).array())
        # unpickling: may import, and leaves the module it loads into registered or not; its state is arbitrary afterwards
        dd = mm.getattr(mod, '__dict__')
        mm.dicts[mm.key(dd, mm.dicts, True)] = DMap(mm.ctx.fresh('loaded_state', DICT), (), K_STR, ANY)
        state['after'] = mm.dmap(dd).array()
        return NONE
    m.overrides[host_rid(SESS.load_module)] = external('load_module', load, True)
    writes = []
    m.on_attr_write = lambda v, name, x: writes.append((v, name))
    kd = kwds(m, ['filename', 'update', 'module', 'main', 'file', 'self'])
    out, r = m.run(SESS.load_module_asdict, [f], kw, kd)
    m.on_attr_write = None
    m.cover('returned' if out == 'return' else 'failed')
    now = z3.simplify(g['modules_now']())
    stored = g.get('stored')
    if stored is None:
        m.prove('sys.modules is left alone if the module is not identified', now == g['modules']); return
    key = z3.simplify(V.strv(zstr(stored)))
    ident = [e for e in log if e[0] == 'identify']
    base = ident[0][3]; after_ident = g['modules_at_identify']
    was = z3.simplify(z3.Select(after_ident, key))
    imports = [e for e in log if e[0] == 'import']
    m.cover('absent before' if m.branch(SBool(OV.is_absent(was))) else 'present before')
    last = g['modules']
    ok = now == z3.Store(last, key, was)
    if imports and 'imported' in g: ok = Or(ok, And(OV.is_absent(was), now == z3.Store(last, key, OV.some(term(g['imported'])))))
    m.prove('sys.modules maps the stored name to what it mapped before (the documented import of update aside), and no other entry is touched', ok)
    if imports: m.prove('only update imports', upd is not NONE and m.branch(upd) and And(m.eq(imports[0][1][0], stored)))
    if 'module' in state:
        mod = state['module']
        created = [o for o, n in g['created'] if m.is_(o, mod) is True]
        m.prove('loaded into a new module', len(created) == 1)
        m.prove('of the stored name', m.eq([n for o, n in g['created']][0], stored if not is_rt(stored) else rest_of(stored)))
        if is_rt(stored): m.cover('runtime module')
        else:
            m.prove('which stands in for the stored one while loading', state['entry'] == OV.some(term(mod)))
            if upd is not NONE and m.branch(upd):
                m.cover('updated')
                orig = g.get('imported') if 'imported' in g else None
                if orig is None: orig = m.as_kind(z3.simplify(OV.val(was)), K_ANYMOD)
                od = m.dmap(m.getattr(orig, '__dict__')).array()
                k = m.ctx.fresh('k', V)
                m.prove("starting from the module's current state", z3.Implies(OV.is_some(z3.Select(od, k)), z3.Select(state['dict'], k) == z3.Select(od, k)))
        m.prove('every keyword but update reaches the loader', set(state['kw']) <= {'**'} and state['kw'].get('**') is not None and state['kw']['**'].array() == kd.array())
    for v, n in writes:
        if not isinstance(v, O): m.prove('no other object is written to', any(m.is_(v, o) is True for o, _ in g['created']))
    if out == 'return':
        m.prove("the new module's dictionary is returned", 'module' in state and m.is_(r, m.getattr(state['module'], '__dict__')))
        if 'module' in state:
            arr = m.dmap(r).array()
            sess = z3.simplify(V.strv(z3.StringVal('__session__')))
            m.prove('with __session__ naming the file, otherwise as loaded', z3.Store(arr, sess, OV.absent) == z3.Store(state['after'], sess, OV.absent))
            s = z3.Select(arr, sess)
            m.prove('__session__ is a string', And(OV.is_some(s), V.is_strv(OV.val(s))))


def is_rt(s): return z3.is_true(z3.simplify(z3.PrefixOf(z3.StringVal(RT), s.t)))
def rest_of(s):
    ch = z3.simplify(s.t).children()
    return mkstr(ch[1] if len(ch) == 2 else z3.Concat(*ch[1:]))

from contracts.fn import *


def entry(m, d, k): return z3.Select(d, k)
KB, KN = (z3.simplify(V.strv(z3.StringVal(s))) for s in ('__builtins__', '__name__'))


def globals_unit(which, recurse, closure=False):
    @unit(['C04', 'C29'], 'globals of functions (%s%s%s)' % (('dill', 'subclass', 'stock')[which], ', recurse' if recurse else '', ', with a closure' if closure else ''), ['registered for FunctionType', 'dill._dill:_create_function'],
          covers=['reachable names'] if recurse else ['session'] * (which < 2) + ['module', 'copied'], max_paths=20000, seconds=400)
    def glob(m):
        """any function, module and pickler state"""
        e = fn_env(m, closure=closure, idle=closure, which=which, recurse=recurse, plain=True)
        m.assume(z3.Not(e.located))
        if not run_fn(m, e): return
        unchanged(m, e)
        pa = m.attrs[e.p.addr]
        gv = m.dmap(e.gv).array()
        orig = m.getattr(pa['_original_main'], '__dict__') if which < 2 else None
        main = m.getattr(pa['_main'], '__dict__') if which < 2 else None
        if which < 2:        # as dump_module sets them
            session, modified = m.truth(pa['_session']), m.truth(pa['_main_modified'])
            m.assume(Or(session, Not(modified))); m.assume(Or(modified, Not(session), m.is_(pa['_main'], pa['_original_main'])))
        isorig = which < 2 and m.branch(mkbool(And(session, m.is_(orig, e.G))))
        own = not isorig and e.d['__module__'] is not NONE and e.mod is not NONE and m.branch(e.mod) and m.branch(mkbool(m.is_(m.getattr(e.mod, '__dict__'), e.G)))
        k = m.ctx.fresh('key', V)
        new = load_fn(m, e, False)
        if new is None: return
        g = m.getattr(new, '__globals__')
        acts = e.own + [a for o, a in e.deferred]
        for act in acts:
            its = m.iterate(act); e.ld.build(its[0], its[1])
        final = m.dmap(g).array()
        m.prove('the globals contain __builtins__', Not(OV.is_absent(z3.Select(final, KB))))
        src = None
        if recurse:
            m.cover('reachable names'); m.prove('what the function reaches is asked for', e.asked); src = gv
        elif isorig:
            m.cover('session'); m.prove("the main module's dictionary stands for the one being saved", And(m.is_(g, main), not acts)); return
        elif own:
            m.cover('module'); m.prove("the importable module's own dictionary, by reference", And(m.is_(g, e.G), not acts)); return
        elif which == 2 and m.is_(g, e.G) is True:
            m.cover('copied'); m.prove('nothing is deferred', not acts); return
        else: m.cover('copied'); src = e.before[0]
        m.prove('a new dictionary', Not(Or(m.is_(g, e.G), m.is_(g, e.gv))))
        m.prove('filled exactly once', len(acts) == 1)
        have = z3.Select(src, k)
        rest = z3.If(k == KN, OV.some(term(e.d['__module__'])), OV.absent)
        m.prove('it has every entry, and nothing else but __name__ and __builtins__', z3.Implies(k != KB, z3.Select(final, k) == z3.If(OV.is_absent(have), rest, have)))
        m.prove('its own __builtins__ are kept', z3.Implies(z3.Not(OV.is_absent(z3.Select(src, KB))), z3.Select(final, KB) == z3.Select(src, KB)))


globals_unit(0, False); globals_unit(0, True); globals_unit(1, False); globals_unit(1, True); globals_unit(2, False)
globals_unit(0, True, True); globals_unit(0, False, True)


@unit('C04', 'a function from its parts', ['dill._dill:_create_function'], covers=['no globals', 'given', 'builtins are there'])
def create(m):
    """any parts; the dictionary given is the one the function uses, an empty one included"""
    code = m.sym('code', K_CODE); name = m.sym('name', ANY)
    g = m.force(m.sym('globals', OneOf(K_G, K_NONE)))
    defaults = m.sym('defaults', ANY); closure = m.sym('closure', ANY)
    b = m.dmap(g).array() if g is not NONE else EMPTYD
    fd = m.sym('fdict', K_FD) if m.ctx.choose(2) else NONE
    kwd = m.sym('kwd', K_FD) if m.ctx.choose(2) else NONE
    if fd is not NONE and g is not NONE: m.assume(V.rid(fd.t) != V.rid(g.t))
    args = [code, g, name, defaults, closure]
    if m.ctx.choose(2): args += [fd, kwd]
    else: fd = kwd = NONE
    out, f = m.run(D._create_function, args)
    m.prove('returns a function', out == 'return' and m.pytype(f) is types.FunctionType)
    if out != 'return': return
    gg = m.getattr(f, '__globals__')
    if g is NONE: m.cover('no globals'); m.prove('a new dictionary', m.pytype(gg) is dict and isinstance(gg, O))
    else: m.cover('given'); m.prove('the dictionary given is the one used', m.is_(gg, g))
    now = m.dmap(gg).array(); k = m.ctx.fresh('key', V)
    m.prove('only __builtins__ is added', z3.Implies(k != KB, z3.Select(now, k) == z3.Select(b, k)))
    m.prove('__builtins__ is there', Not(OV.is_absent(z3.Select(now, KB))))
    if m.branch(mkbool(Not(OV.is_absent(z3.Select(b, KB))))): m.cover('builtins are there'); m.prove('and kept if it was there', z3.Select(now, KB) == z3.Select(b, KB))
    m.prove('code and closure as given', And(m.is_(m.getattr(f, '__code__'), code), m.is_(m.getattr(f, '__closure__'), closure), m.is_(m.getattr(f, '__defaults__'), defaults)))
    m.prove('attributes as given', m.dmap(m.getattr(f, '__dict__')).array() == (m.dmap(fd).array() if fd is not NONE else EMPTYD))
    if kwd is not NONE: m.prove('keyword-only defaults as given', m.is_(m.getattr(f, '__kwdefaults__'), kwd))

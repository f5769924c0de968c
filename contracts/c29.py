from contracts.sess import *
from pyvc.interp import SliceV
import contracts.c03, contracts.c04, contracts.c13, contracts.c16, contracts.c17, contracts.c11


@unit('C29', 'what a session is made of', ['dill.session:dump_module'], covers=['by value', 'imports by reference', 'the default module', 'a module by name', 'older names of the options'], max_paths=6000)
def dump(m):
    """any module, file, settings and keywords: the module, or what stands for it, is pickled once, as the main module of the session, whatever the settings"""
    from dill.settings import settings
    f = m.sym('stream', Kind('stream', cons='ref', open=True, methods={'write': lambda mm, o, a, kw: NONE}))
    dumped, made, stashed, wrote = [], [], [], []
    m.dicts[host_rid(settings)] = DMap(m.ctx.fresh('settings', DICT), ((C('protocol'), m.sym('protocol', ANY)), (C('byref'), m.sym('byref setting', ANY)), (C('recurse'), m.sym('recurse setting', ANY))), K_STR, ANY)
    FLAGS = ('_main', '_original_main', '_byref', '_recurse', '_session', '_first_pass')
    def mk(mm, a, kw):
        p = mm.alloc(D.Pickler); mm.attrs[p.addr] = {n: mm.sym('initial' + n, ANY) for n in ('_main', '_byref', '_recurse', '_session', '_first_pass', '_fmode', '_strictio')}
        made.append((p, a, kw)); return p
    m.overrides = dict(m.overrides); m.overrides[host_rid(D.Pickler)] = mk
    m.overrides[host_rid(D.Pickler.dump)] = lambda mm, a, kw: (dumped.append((a[0], a[1], {n: mm.attrs[a[0].addr].get(n) for n in FLAGS})), NONE)[1]
    copy_ = m.sym('stand-in', K_MODULE); main0, named = m.sym('main', K_MODULE), m.sym('named', K_MODULE)
    m.overrides[host_rid(SESS._stash_modules)] = lambda mm, a, kw: (stashed.append(a[0]), copy_)[1]
    def imp(mm, a, kw): mm.prove('the module that is named', mm.is_(a[0], modname)); return named
    m.overrides[host_rid(D._import_module)] = imp; m.overrides[host_rid(__import__)] = imp
    for mod in (D, SESS): m.attrs.setdefault(host_rid(mod), {})['_main_module'] = main0
    c = m.ctx.choose(3); modname = m.sym('modname', K_STR); given = m.sym('module', K_MODULE)
    arg, want = ((NONE, main0), (modname, named), (given, given))[c]; ref = m.ctx.choose(2)
    m.assume(And(Not(m.is_(copy_, main0)), Not(m.is_(copy_, named)), Not(m.is_(copy_, given))))
    old = m.ctx.choose(2); args = [f] + ([] if old else [arg, C(bool(ref))]); kw = {'main': arg, 'byref': C(bool(ref))} if old else {}
    rest = kwds(m, ['filename', 'module', 'refimported', 'main', 'byref', 'file', 'protocol', 'self', 'recurse'])
    out, r = m.run(SESS.dump_module, args, kw, rest)
    m.prove('no exception', out == 'return')
    if out != 'return': return
    m.cover(('the default module', 'a module by name', 'by value')[c]); m.cover('imports by reference' if ref else 'by value')
    if old: m.cover('older names of the options')
    m.prove('pickled once, to the stream', len(made) == 1 and len(dumped) == 1 and m.is_(made[0][1][0] if made[0][1] else made[0][2]['file'], f))
    if len(dumped) != 1: return
    p, obj, at = dumped[0]; main = copy_ if ref else want
    m.prove('by that pickler', m.is_(p, made[0][0])); m.prove('the module, or what stands for it', m.is_(obj, main))
    m.prove('imported names are looked up exactly if asked for', len(stashed) == ref and all(m.is_(x, want) is True for x in stashed))
    def is_bool(n, b): return at[n] is not None and m.is_(at[n], C(b))
    m.prove('it is the main module', at['_main'] is not None and m.is_(at['_main'], main))
    m.prove('of which the functions are', at['_original_main'] is not None and m.is_(at['_original_main'], want))
    m.prove('a session', And(is_bool('_session', True), is_bool('_first_pass', True)))
    m.prove('nothing by reference because of the settings', is_bool('_byref', False))
    m.prove('nor without its namespace', is_bool('_recurse', False))



def dotted(m, P, Q, name):
    """name is P, a dot and Q (without a dot): how it is taken apart, and put together again"""
    head = m.sym('parts before the last', Kind('head', pytype=list, cons='ref')); parts = m.sym('parts', Kind('parts', pytype=list, cons='ref', getitem=lambda mm, v, k: item(mm, k)))
    def item(mm, k):
        if isinstance(k, C) and k.v == -1: return Q
        if isinstance(k, SliceV) and tuple(k.concrete(mm)) in ((None, -1, None), (0, -1, None)): return head
        raise Unsupported('other parts of the name')
    def pair(o, one, three): return T([P, C('.'), Q]) if three else T([P, Q])
    real = m.env.str_method
    def method(mm, o, n, a, kw):
        if isinstance(o, SStr) and (o.t is name.t or z3.eq(o.t, name.t)) and a and isinstance(a[0], C) and a[0].v == '.':
            if n == 'split' and len(a) == 1: return parts
            if n == 'rpartition': return T([P, C('.'), Q])
            if n == 'rsplit' and len(a) == 2 and isinstance(a[1], C) and a[1].v == 1: return mm.new_list([P, Q])
        if n == 'join' and isinstance(o, C) and o.v == '.' and a and a[0] is head: return P
        return real(mm, o, n, a, kw)
    m.env.str_method = method


@unit(['C29', 'C03'], 'finding the module', ['dill._dill:_import_module'], covers=['runtime', 'top level', 'submodule', 'a class', 'something else', 'fails'], seconds=60)
def import_(m):
    """any name; sys.modules and what importing gives hold anything"""
    m.dicts[host_rid(sys.modules)] = DMap(m.ctx.fresh('sys_modules', DICT), (), K_STR, K_ENTRY); before = m.dmap(C(sys.modules)).array()
    kind = m.ctx.choose(3); calls = []; P = Q = None
    if kind == 0: name = SStr(z3.Concat(z3.StringVal(RT), m.sym('rest', K_STR).t))
    elif kind == 1: name = m.sym('name', K_STR); m.assume(z3.Not(z3.Contains(name.t, z3.StringVal('.'))))
    else:
        P, Q = m.sym('P', K_STR), m.sym('Q', K_STR); m.assume(z3.Not(z3.Contains(Q.t, z3.StringVal('.')))); name = SStr(z3.Concat(P.t, z3.StringVal('.'), Q.t))
        m.assume(z3.Not(z3.PrefixOf(z3.StringVal(RT), name.t))); dotted(m, P, Q, name)
    top, again = m.sym('imported', K_ANYMOD), m.sym('imported again', ANY)
    SUB = (K_ANYMOD, Kind('class', isa=(type,), cons='ref'), Kind('other', cons='ref', nota=(type, types.ModuleType)))
    w = m.ctx.choose(4) if kind == 2 else 3; sub = m.sym('attribute', SUB[w]) if w < 3 else None; failed = []
    if kind == 2: parent = m.sym('parent', Kind('parent', isa=(types.ModuleType,), cons='ref'))
    def imp(mm, a, kw):
        calls.append((a, kw))
        if mm.ctx.choose(2): failed.append(1); raise PyRaise(mm.sym_exc('import_failed', isa=(Exception,)))
        if kind != 2: return top
        return parent if len(calls) == 1 else again
    def attribute(mm, a, kw):
        if not mm.is_(a[0], parent) is True: return mm.env.models[host_rid(getattr)](mm, a, kw)
        mm.prove('the attribute of its name', mm.eq(a[1], Q))
        if w == 3:
            if len(a) > 2: return a[2]
            failed.append(1); mm.raise_(AttributeError, C('no such attribute'))
        return sub
    m.overrides = dict(m.overrides); m.overrides[host_rid(__import__)] = imp
    if kind == 2: m.overrides[host_rid(getattr)] = attribute
    safe = m.ctx.choose(2)
    out, r = m.run(D._import_module, [name] + ([C(True)] if safe else []))
    m.prove('sys.modules is left alone', m.dmap(C(sys.modules)).array() == before)
    if out == 'raise': m.cover('fails'); m.prove('an error is reported, unless it was not to be', not safe); m.prove("only an error of importing", bool(failed) or kind == 0)
    if kind == 0:
        m.cover('runtime'); e = z3.Select(before, term(name)); m.prove('nothing is imported', not calls)
        if out == 'return': m.prove('the entry', z3.Or(z3.And(OV.is_some(e), OV.val(e) == term(r)), z3.And(z3.BoolVal(bool(safe)), OV.is_absent(e), term(r) == V.none)))
        else: m.prove('a missing entry is reported', OV.is_absent(e))
        return
    if kind == 1:
        m.cover('top level'); m.prove('imported once', len(calls) == 1 and m.eq(calls[0][0][0], name))
        if out == 'return': m.prove('the module imported, or nothing', m.is_(r, top) if not failed else m.is_(r, NONE))
        return
    def asks(c, n): a, kw = c; return And(m.eq(a[0], n), len(a) > 3 and a[3] is not NONE and len(m.finite(a[3])) == 1 and m.eq(m.finite(a[3])[0], Q))
    m.prove('the package, with what is looked for', len(calls) >= 1 and asks(calls[0], P))
    if out != 'return' or failed:
        if out == 'return': m.prove('nothing is found', m.is_(r, NONE))
        return
    e = z3.Select(before, term(name))
    if w == 0: m.cover('submodule'); m.prove('the module of that name, or the attribute', z3.If(z3.And(OV.is_some(e), OV.val(e) != V.none), OV.val(e) == term(r), term(r) == term(sub)))
    elif w == 1: m.cover('a class'); m.prove('the class', m.is_(r, sub))
    else: m.cover('something else'); m.prove('imported under the whole name', len(calls) == 2 and And(asks(calls[1], name), m.is_(r, again)) if len(calls) == 2 else False)

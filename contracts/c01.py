from contracts.common import *

LAYOUTS = {
 '3.11': CODE_FIELDS,
 'pypy3.11': 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable freevars cellvars'.split(),
 '3.10': 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name firstlineno linetable freevars cellvars'.split(),
 '3.7': 'argcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name firstlineno lnotab freevars cellvars'.split(),
 '3.11a': 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable endlinetable columntable exceptiontable freevars cellvars'.split(),
}
BYTESF = {'code', 'lnotab', 'linetable', 'endlinetable', 'columntable', 'exceptiontable'}
INTF = {'argcount', 'posonlyargcount', 'kwonlyargcount', 'nlocals', 'stacksize', 'flags', 'firstlineno'}


@unit('C01', '_create_code/layouts', ['dill._dill:_create_code', 'dill._dill:match.case', 'dill._dill:match.fields'], covers=['returned'])
def create_code(m):
    """every stored layout, with and without the leading line table: each recorded field sits in the field of the same name"""
    names = sorted(LAYOUTS)
    lay = LAYOUTS[names[m.ctx.choose(len(names))]]
    lead = m.ctx.choose(2)
    vals = {}
    for f in lay:
        vals[f] = m.sym(f, K_INT if f in INTF else OneOf(K_STR, K_BYTES) if f in BYTESF else ANY)
    args = [vals[f] for f in lay]
    if lead: args = [m.sym('LNOTAB', OneOf(K_STR, K_BYTES))] + args
    out, r = m.run(D._create_code, args)
    m.cover('returned')
    m.prove('returns a code object', out == 'return' and m.pytype(r) is types.CodeType)
    if out != 'return': return
    for f in lay:
        if f not in CODE_FIELDS: continue
        v = vals[f]; got = m.getattr(r, 'co_' + f)
        if f in BYTESF:
            v = m.force(v)
            if m.pytype(v) is str: v = m.call_method(v, 'encode', [])
        m.prove('recorded field %s sits in co_%s' % (f, f), m.is_(got, v))


@unit('C01', '_create_code/other lengths', ['dill._dill:_create_code'], covers=['rejected'])
def create_code_other(m):
    """a tuple of any other length is rejected with UnpicklingError (all lengths, no bound)"""
    a = m.sym('args', Kind('args', pytype=tuple, cons='ref', getitem=ANY))
    n = tlen(V.rid(a.t))
    first = m.tuple_get(a, 0)
    isint = m.ctx.branch(z3.Or(V.is_intv(term(first)), V.is_boolv(term(first))))
    if isint: m.assume([n >= 1] + [n != len(l) for l in LAYOUTS.values()])
    else:
        m.assume(V.is_bytv(term(first)))
        m.assume([n >= 1] + [n != len(l) + 1 for l in LAYOUTS.values()])
    from pyvc.interp import _StarSeq
    out, r = m.run(D._create_code, [_StarSeq(a)])
    m.cover('rejected')
    m.prove('rejected with UnpicklingError', out == 'raise' and m.pytype(r) is D.UnpicklingError)


@unit('C01', 'save_code/round trip', ['registered for CodeType', 'dill._dill:_create_code'], covers=['saved'])
def save_code(m):
    """save_code emits one memoised reduction, and evaluating it rebuilds every constructor field"""
    i, p = choose_pickler(m)
    obj = m.sym('obj', K_CODE)
    out, r = m.run(save_fn(types.CodeType), [p, obj])
    m.prove('save returns normally', out == 'return')
    if out != 'return': return
    evs = events(m)
    m.prove('exactly one reduction is written', len(evs) == 1 and evs[0].kind == 'reduce')
    ev = evs[0]
    m.prove('memoised under the object', ev.obj is not None and same(m, ev.obj, obj))
    new = Loader(m).event(ev)
    m.cover('saved')
    for f in CODE_FIELDS:
        m.prove('field co_%s is restored' % f, same(m, m.getattr(new, 'co_' + f), m.getattr(obj, 'co_' + f)))

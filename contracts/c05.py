from contracts.common import *
import contracts.fn

K_POST = Kind('deferred', pytype=list, cons='ref')
K_POSTPROC = Kind('postproc', pytype=dict, cons='ref', dictkinds=(K_INT, K_POST))


def cell_pickler(m, i):
    if i == 2: return mk_pickler(m, i)
    return mk_pickler(m, i, _postproc=m.sym('postproc', K_POSTPROC))


@unit('C05', 'save_cell/empty', ['registered for CellType', 'dill._dill:_create_cell'], covers=['empty'])
def empty_cell(m):
    """an empty cell is written as one object, and loads as an empty cell, whatever pickler and pending objects"""
    i = m.ctx.choose(3); p = cell_pickler(m, i)
    cell = m.alloc(types.CellType); m.attrs[cell.addr] = {'cell_contents': ABSENT}
    out, r = m.run(save_fn(types.CellType), [p, cell])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('empty')
    ld = Loader(m); st = ld.stream(events(m))
    m.prove('exactly one value is left on the stack', st is not None and len(st) == 1)
    new = st[0]
    m.prove('it is a cell, distinct from the original', m.pytype(new) is types.CellType and Not(m.is_(new, cell)))
    m.prove('the new cell is empty', m.attrs.get(new.addr, {}).get('cell_contents') is ABSENT)
    m.prove('the cell is memoised', any(ev.obj is not None and m.is_(ev.obj, cell) is True for ev in reduces(m)))
    m.prove('nothing is deferred', not any(v.items for k, v in m.lists.items() if isinstance(k, tuple)))


@unit('C05', 'save_cell/full', ['registered for CellType', 'dill._dill:_create_cell'], covers=['at once', 'deferred'])
def full_cell(m):
    """a cell with contents is written with them, or written first and filled by exactly one deferred action"""
    i = m.ctx.choose(3); p = cell_pickler(m, i)
    f = m.sym('contents', ANY)
    m.assume(z3.Implies(V.is_ref(f.t), V.rid(f.t) >= 0))      # not one of dill's own private markers
    cell = m.alloc(types.CellType); m.attrs[cell.addr] = {'cell_contents': f}
    pp = m.attrs[p.addr].get('_postproc')
    out, r = m.run(save_fn(types.CellType), [p, cell])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    ld = Loader(m); st = ld.stream(events(m))
    m.prove('exactly one value is left on the stack', st is not None and len(st) == 1)
    m.prove('the cell is memoised', any(ev.obj is not None and m.is_(ev.obj, cell) is True for ev in reduces(m)))
    new = st[0]
    m.prove('it is a new cell', m.pytype(new) is types.CellType and Not(m.is_(new, cell)))
    ch = [(k, l) for k, l in m.lists.items() if l.items and isinstance(k, tuple)]
    d = m.dmap(pp) if pp is not None else None
    fid = m.call(C(id), [f], {})
    pending = d is not None and m.branch(mkbool(Not(OV.is_absent(z3.Select(d.array(), term(fid))))))
    some = pending or (d is not None and m.branch(mkbool(dsize(d.array()) > 0)))
    if not ch:
        m.cover('at once')
        m.prove('contents written with the cell', same(m, m.attrs[new.addr]['cell_contents'], f))
        m.prove('an object still being pickled is never written inside the cell', not pending)
    else:
        m.cover('deferred')
        m.prove('deferred only to a pending object', some)
        m.prove('exactly one action is deferred, to one object', len(ch) == 1 and len(ch[0][1].items) == 1)
        k, l = ch[0]
        if pending:
            tgt = z3.simplify(OV.val(z3.Select(d.array(), term(fid))))
            m.prove('a cell referring to a pending object is filled with that very object\'s deferred work', k[1] == tgt)
        act = l.items[0]
        its = m.iterate(act)
        ld.memo.append((f, f))
        ld.build(its[0], its[1])
        m.prove('the deferred action fills this cell with the contents', same(m, m.attrs[new.addr]['cell_contents'], f))


@unit('C05', '_create_cell', ['dill._dill:_create_cell'], covers=['full'])
def create_cell(m):
    """a new cell with the given contents each time; empty for the marker; legacy default"""
    v = m.sym('v', ANY)
    m.assume(Not(m.is_(v, C(D._CELL_EMPTY))))
    out, a = m.run(D._create_cell, [v]); _, b = m.run(D._create_cell, [v])
    m.prove('returns', out == 'return')
    m.cover('full')
    m.prove('a cell holding exactly the value', m.pytype(a) is types.CellType and And(same(m, m.getattr(a, 'cell_contents'), v)))
    m.prove('a new cell each time', Not(m.is_(a, b)))
    out, e = m.run(D._create_cell, [C(D._CELL_EMPTY)])
    o2, x = m.run(getattr, [e, C('cell_contents')])
    m.prove('the marker makes an empty cell', out == 'return' and o2 == 'raise' and m.pytype(x) is ValueError)

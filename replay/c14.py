from oracle import *
import dill, io, pickle, warnings, pickletools, types, operator
import dill._dill as D

LOG = []


class Thing:
    """saved through the protocol with the reduction and actions it carries"""
    def __init__(self, red, acts=(), given=True, hook=None): self.red, self.acts, self.given, self.hook = red, list(acts), given, hook


def install():
    @dill.register(Thing)
    def save_thing(pickler, obj):
        LOG.append(('in', id(obj), id(obj) in getattr(pickler, '_postproc', ())))
        kw = {}
        if obj.given: kw['postproc_list'] = list(obj.acts)
        D._save_with_postproc(pickler, obj.red, obj=obj, **kw)
        LOG.append(('out', id(obj), id(obj) in getattr(pickler, '_postproc', ())))


def dump(o, **kw):
    f = io.BytesIO(); p = dill.Pickler(f, **kw); p.dump(o)
    return f.getvalue(), p


def pick(tag, seq):
    seq.append(tag); return tag


@case()
def order_and_once():
    install()
    for n in range(0, 8):
        t = Thing((list, ()))
        t.acts = [(list.append, (t, i)) for i in range(n)]
        for proto in range(0, 6):
            data, p = dump([0, t, t, 'end'], protocol=proto)
            got = dill.loads(data)
            eq(got[1], list(reversed(range(n))), '%d actions in reverse order, once each' % n)
            check(got[0] == 0 and got[3] == 'end' and len(got) == 4 and got[1] is got[2], 'the stack holds only the object')
            eq(dict(p._postproc), {}, 'nothing is pending afterwards')


@case()
def fills():
    install()
    for srcs in ([{}], [{'a': 1}], [{}, {'b': 2}, {}], [{'a': 1, 'b': 2}, {'c': 3}], [{i: i for i in range(2500)}]):
        ds = [{} for _ in srcs]
        t = Thing((tuple, (ds,)), [(D._setitems, (d, s)) for d, s in zip(ds, srcs)])
        for proto in range(0, 6):
            data, p = dump(['x', t, 'y'], protocol=proto)
            got = dill.loads(data)
            check(got[0] == 'x' and got[2] == 'y' and len(got) == 3, 'stack')
            eq(list(got[1]), srcs, 'filled dictionaries')
            eq(dict(p._postproc), {}, 'nothing pending')
    t = Thing((tuple, ([{}],)), [(D._setitems, ({}, {}))])
    eq(dill.loads(dump(t)[0]), ({},), 'an empty fill of an unknown dictionary is skipped')


@case()
def mixed_actions():
    install()
    d = {}
    t = Thing((list, ([d],)))
    t.acts = [(list.append, (t, 1)), (D._setitems, (d, {'k': 'v'})), (D._setitems, (d, {})), (list.append, (t, 2)), (list.extend, (t, [3, 4]))]
    got = dill.loads(dump([t])[0])[0]
    eq(got, [{'k': 'v'}, 3, 4, 2, 1], 'mixed actions')


@case()
def registered_while_saved():
    install()
    class Probe:
        def __init__(self): self.seen = None
    probe = Probe(); holder = {}
    @dill.register(Probe)
    def save_probe(pickler, obj):
        holder['pending'] = list(pickler._postproc)
        holder['list'] = pickler._postproc.get(id(holder['t']))
        pickler._postproc[id(holder['t'])].append((list.append, (holder['t'], 'deferred')))
        pickler.save_reduce(int, ('7',), obj=obj)
    t = Thing((list, ([probe],))); holder['t'] = t
    for given in (True, False):
        t.given = given; t.acts = [(list.append, (t, 'own'))] if given else []
        data, p = dump(t)
        check(id(t) in holder['pending'], 'registered under its identity')
        eq(dill.loads(data), [7, 'deferred', 'own'] if given else [7, 'deferred'], 'work deferred while saving is written too')
        eq(dict(p._postproc), {}, 'unregistered')


@case()
def nested():
    install()
    inner = Thing((list, ()))
    inner.acts = [(list.append, (inner, 'i'))]
    outer = Thing((list, ([inner],)))
    outer.acts = [(list.append, (outer, 'o')), (list.append, (outer, inner))]
    LOG.clear()
    got = dill.loads(dump(outer)[0])
    check(got[0] == ['i'] and got[1] is got[0] and got[2] == 'o', 'nested')
    check(all(not pending for kind, i, pending in LOG), 'balanced')


@case()
def already_pending():
    install()
    import sys
    mod = types.ModuleType('c14_mod'); sys.modules['c14_mod'] = mod
    def mk(name):
        def f(): pass
        f.__module__ = 'c14_mod'; f.__qualname__ = f.__name__ = name
        return f
    class Back:
        def __init__(self, o): self.o = o
    @dill.register(Back)
    def save_back(pickler, obj):
        D._save_with_postproc(pickler, (list, ()), obj=obj.o)
    f = mk('f'); mod.f = f
    f.__qualname__ = 'f'
    b = Back(f)
    @dill.register(Thing)
    def save_thing(pickler, obj):
        D._save_with_postproc(pickler, (operator.concat, ([b], [])), obj=f, postproc_list=[])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        data, p = dump(Thing(None))
    check(any(issubclass(x.category, D.PicklingWarning) for x in w), 'a PicklingWarning is issued')
    check(sum(o.name in ('REDUCE',) for o, a, pos in pickletools.genops(data)) == 1, 'saved once by value')
    check(dill.loads(data) is f, 'the inner one is a reference')
    eq(dict(p._postproc), {}, 'nothing pending')


@case()
def stock_pickler():
    install()
    dill.extend(True)
    t = Thing((list, ()), [(list.append, (None, 1))])
    f = io.BytesIO(); p = pickle._Pickler(f); p.dump([t, t])
    got = pickle.loads(f.getvalue())
    check(got == [[], []] and got[0] is got[1], 'reduction alone')
    check(not hasattr(p, '_postproc'), 'nothing registered')


@case()
def everything_is_unregistered():
    import collections, abc, functools
    def closure():
        class A(abc.ABC):
            def m(self): return A, f
        class B(A):
            x = property(lambda self: B)
        def f(): return A, B, f, NT
        NT = collections.namedtuple('NT', 'a b')
        A.register(int)
        return f, A, B, B(), NT, NT(1, 2), functools.partial(f), [f, {'k': A}]
    for kw in ({}, {'recurse': True}, {'byref': True}):
        for o in closure():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try: data, p = dump([1, o, 2], **kw)
                except Exception as e: continue
            eq(dict(p._postproc), {}, 'nothing pending after %r' % (o,))
            got = dill.loads(data)
            check(len(got) == 3 and got[0] == 1 and got[2] == 2, 'stack balanced')


@case()
def unregistered_while_its_actions_are_written():
    install()
    class Probe: pass
    seen = []
    @dill.register(Probe)
    def save_probe(pickler, obj):
        seen.append(list(pickler._postproc)); pickler.save_reduce(int, ('7',), obj=obj)
    import types
    for inner in (False, True):
        probe = Probe(); t = Thing((list, ())); t.acts = [(list.append, (t, probe))]
        o = Thing((list, ([t],))) if inner else t
        data, p = dump(o)
        check(seen[-1] == ([id(o)] if inner else []), 'only the enclosing objects are pending')
        got = dill.loads(data)
        eq(got[0] if inner else got, [7], 'action')
        # an action whose argument is a cell holding the object: it must not be deferred to work that is already being written
        t = Thing((list, ())); c = types.CellType(t); t.acts = [(list.append, (t, c))]
        got = dill.loads(dump(t)[0])
        check(got[0].cell_contents is got, 'cell')

from contracts.fn import *


def by_value_unit(which, mod, recurse):
    @unit('C02', 'functions by value (%s, %s%s)' % (('dill', 'subclass', 'stock')[which], 'a module name' if mod is K_STR else 'no module name', ', recurse' if recurse else ''),
          ['registered for FunctionType', 'dill._dill:_create_function'], covers=['by value', 'named otherwise', 'named by its code'] + ([] if which == 2 else ['deferred']), max_paths=20000, seconds=500)
    def by_value(m):
        """any function stored by value: what loading builds has the same definition"""
        e = fn_env(m, closure=False, which=which, mod=mod, recurse=recurse)
        m.assume(z3.Not(e.located))
        if not run_fn(m, e): return
        unchanged(m, e)
        new = load_fn(m, e)
        if new is None: return
        m.cover('by value')
        if e.deferred: m.cover('deferred')
        d = e.d
        for n in ('__code__', '__name__', '__qualname__', '__module__', '__defaults__', '__closure__'):
            m.prove('%s is restored' % n, same(m, m.getattr(new, n), d[n]))
        m.prove('keyword-only defaults are restored', same(m, m.getattr(new, '__kwdefaults__'), d['__kwdefaults__']))
        m.prove('annotations are restored', same(m, m.getattr(new, '__annotations__'), d['__annotations__']))
        m.prove('the attribute dictionary is restored', same(m, m.getattr(new, '__dict__'), d['__dict__']))
        m.prove('the docstring is restored if there is one', Or(m.is_(d['__doc__'], NONE), same(m, m.getattr(new, '__doc__'), d['__doc__'])))
        if m.branch(mkbool(m.eq(d['__name__'], d['__qualname__']))): m.cover('named by its code')
        else: m.cover('named otherwise')


for which in (0, 1, 2):
    for mod in (K_STR, K_NONE):
        for recurse in (False, True)[:1 if which == 2 else 2]:
            if which != 1 or (mod is K_NONE and recurse): by_value_unit(which, mod, recurse)

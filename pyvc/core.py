"""Path exploration: deterministic re-execution with decision prefixes, and obligation discharge."""
import time, z3
from .terms import *


class PathEnd(Exception):
    """this path is over (infeasible, or cut deliberately)"""


class Unsupported(Exception):
    """the construct is outside the engine's fragment: nothing is concluded from this path"""


class Budget(Exception):
    pass


class Obl:
    __slots__ = ('label', 'status', 'time', 'model', 'path', 'backend', 'tainted', 'detail', 'bounded', 'where')
    def __init__(self, label, status, time, model=None, path=None, tainted=False, detail=None, bounded=False, where=None):
        self.label, self.status, self.time, self.model, self.path = label, status, time, model, path
        self.tainted, self.detail, self.bounded, self.where = tainted, detail, bounded, where


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.paths = 0
        self.unsupported = []
        self.solver_time = 0.0
        self.cut = 0                # paths cut at a loop bound
        self.reached = set()        # cover labels reached by a feasible path
        self.functions = set()      # real functions whose bodies were executed
        self.contracts_used = set()
        self.assumed = set()
        self.timeouts = 0
        self.smt2 = []
        self.refuted = {}
        self.lines = set()


import re
APPROX = re.compile(r'(int_parses|int_of_str|str_(replace|translate|isspace|isidentifier|expandtabs|lower|upper|title|count|encode)|split|repeat|bytes_decode|bit|rshift|lshift|(fmt|format|div|reprof)!)')


class Ctx:
    def __init__(self, prefix, res, cfg):
        self.prefix = prefix
        self.res = res
        self.cfg = cfg
        self.decisions = []
        self.alts = []
        self.solver = z3.SolverFor('ALL') if False else z3.Solver()
        self.solver.set('timeout', cfg.branch_ms)
        self.known = {}
        self.fresh_n = 0
        self.hard = []
        self.tainted = False
        self.bounded = False
        self.keep = []
        self.dirty = True

    # -- facts
    def _note(self, f, val):
        self.known[f.get_id()] = val
        self.keep.append(f)
        if z3.is_not(f):
            self.known[f.arg(0).get_id()] = not val; self.keep.append(f.arg(0))
        elif val and z3.is_and(f):
            for c in f.children(): self._note(c, True)
        elif not val and z3.is_or(f):
            for c in f.children(): self._note(c, False)

    def assume(self, f):
        if f is True: return
        if f is False: raise PathEnd('assumed false')
        if isinstance(f, (list, tuple)):
            for x in f: self.assume(x)
            return
        f = z3.simplify(f, **SIMP) if not _quant(f) else f
        if z3.is_true(f): return
        if z3.is_false(f): raise PathEnd('assumed false')
        if self.known.get(f.get_id()) is True: return
        self.solver.add(f); self.hard.append(f)
        self._note(f, True)

    def quick(self, f):
        if f is True or f is False: return f
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        k = self.known.get(f.get_id())
        if k is not None: return k
        if z3.is_not(f):
            k = self.known.get(f.arg(0).get_id())
            if k is not None: return not k
        return None

    def check(self, *extra):
        t = time.time()
        if t > self.cfg.deadline: raise Budget()
        r = self.solver.check(*extra)
        self.res.solver_time += time.time() - t
        return r

    def must(self, f):
        """True if f holds on this path for sure"""
        q = self.quick(f)
        if q is not None: return q
        f = z3.simplify(f, **SIMP)
        q = self.quick(f)
        if q is not None: return q
        return self.check(z3.Not(f)) == z3.unsat

    def feasible(self):
        return self.check() != z3.unsat

    # -- decisions
    def branch(self, f):
        q = self.quick(f)
        if q is not None: return q
        f = z3.simplify(f, **SIMP)
        q = self.quick(f)
        if q is not None: return q
        if len(self.decisions) > self.cfg.max_decisions:
            raise Unsupported('path too long')
        if len(self.decisions) < len(self.prefix):
            d = self.prefix[len(self.decisions)]
            if d in (2, 3):           # forced outcome found when the prefix was recorded
                self.decisions.append(d)
                val = (d == 3)
                self._note(f, val); self.solver.add(f if val else z3.Not(f)); self.hard.append(f if val else z3.Not(f))
                return val
            self.decisions.append(d)
            val = bool(d)
            g = f if val else z3.Not(f)
            self.solver.add(g); self.hard.append(g); self._note(f, val)
            return val
        rt = self.check(f)
        if rt == z3.unsat:
            self.decisions.append(2); self._note(f, False)
            self.solver.add(z3.Not(f)); self.hard.append(z3.Not(f))
            return False
        rf = self.check(z3.Not(f))
        if rf == z3.unsat:
            self.decisions.append(3); self._note(f, True)
            self.solver.add(f); self.hard.append(f)
            return True
        if rt == z3.unknown or rf == z3.unknown: self.res.timeouts += 1
        self.alts.append(self.decisions + [0])
        self.decisions.append(1)
        self.solver.add(f); self.hard.append(f); self._note(f, True)
        return True

    def choose(self, n, why=''):
        """n-way nondeterministic choice"""
        if len(self.decisions) < len(self.prefix):
            d = self.prefix[len(self.decisions)]
            self.decisions.append(d)
            return d
        for i in range(1, n):
            self.alts.append(self.decisions + [i])
        self.decisions.append(0)
        return 0

    @property
    def replaying(self):
        return len(self.decisions) < len(self.prefix)

    # -- over-approximation: library functions known only by some of their properties
    def _approx(self, *fs):
        seen = set(); todo = list(self.hard) + list(fs)
        while todo:
            t = todo.pop()
            if not z3.is_expr(t) or t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_quantifier(t): todo.append(t.body()); continue
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and APPROX.match(t.decl().name()): return True
                todo.extend(t.children())
        return False

    # -- obligations
    def prove(self, label, f, detail=None):
        if self.replaying: return True
        if self.res.refuted.get(label, 0) >= 5: return False        # refuted often enough on other paths
        t = time.time()
        if t > self.cfg.deadline: raise Budget()
        if f is True or f is False:
            ok, status = f, 'proved'
            if not ok:
                self.solver.set('timeout', self.cfg.prove_ms)
                r = self.check(); self.solver.set('timeout', self.cfg.branch_ms)
                ok = r == z3.unsat
                status = 'proved' if ok else 'refuted' if r == z3.sat else 'unknown'
            self.res.obls.append(Obl(label, status, time.time() - t,
                                     None if ok else self._model_str(), list(self.decisions), self.tainted or not ok and self._approx(), detail, self.bounded))
            if status == 'refuted' and not self.res.obls[-1].tainted: self.res.refuted[label] = self.res.refuted.get(label, 0) + 1
            return ok
        f = f if _quant(f) else z3.simplify(f, **SIMP)
        q = self.quick(f)
        if q is True:
            self.res.obls.append(Obl(label, 'proved', 0.0, None, None, False, detail, self.bounded)); return True
        self.solver.set('timeout', self.cfg.prove_ms)
        r = self.solver.check(z3.Not(f))
        dt = time.time() - t
        self.res.solver_time += dt
        if r == z3.unknown:
            r, dt2 = self._second(f)
            dt += dt2
        model = None
        if r == z3.sat:
            try: model = self._fmt_model(self.solver.model())
            except z3.Z3Exception: model = None
        self.solver.set('timeout', self.cfg.branch_ms)
        status = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
        self.res.obls.append(Obl(label, status, dt, model, list(self.decisions), self.tainted or status == 'refuted' and self._approx(f),
                                 detail if detail else str(f)[:800], self.bounded))
        if status == 'refuted' and not self.res.obls[-1].tainted: self.res.refuted[label] = self.res.refuted.get(label, 0) + 1
        if status == 'proved' and self.cfg.smt2 is not None:
            s = z3.Solver(); s.add(*self.hard); s.add(z3.Not(f))
            self.cfg.smt2.append((self.res.name, label, s.to_smt2()))
        return status == 'proved'

    def _second(self, f):
        t = time.time()
        s = z3.Solver(); s.set('timeout', self.cfg.prove_ms); s.set('smt.mbqi', True); s.set('random_seed', 7)
        s.add(*self.hard); s.add(z3.Not(f))
        r = s.check()
        dt = time.time() - t; self.res.solver_time += dt
        return r, dt

    def _fmt_model(self, mo):
        out = {}
        for d in mo.decls()[:80]:
            try: out[d.name()] = str(mo[d])[:200]
            except Exception: pass
        return out

    def _model_str(self):
        try:
            if self.solver.check() == z3.sat: return self._fmt_model(self.solver.model())
        except z3.Z3Exception: pass
        return None

    def cover(self, label):
        if not self.replaying and label not in self.res.reached:
            if self.check() != z3.unsat: self.res.reached.add(label)

    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (name, self.fresh_n), sort)


SIMP = dict()


def _quant(f):
    return False


class Config:
    def __init__(self, branch_ms=3000, prove_ms=15000, max_paths=4000, seconds=300, max_decisions=400, unroll=3, smt2=None):
        self.branch_ms, self.prove_ms, self.max_paths = branch_ms, prove_ms, max_paths
        self.deadline = time.time() + seconds
        self.max_decisions = max_decisions
        self.unroll = unroll
        self.smt2 = smt2


def explore(name, fn, make_machine, cfg):
    """run fn(machine) on every feasible path"""
    res = Result(name)
    work = [[]]
    while work:
        if res.paths >= cfg.max_paths:
            res.unsupported.append('path limit %d reached' % cfg.max_paths); break
        prefix = work.pop()
        ctx = Ctx(prefix, res, cfg)
        m = make_machine(ctx)
        res.paths += 1
        try:
            fn(m)
        except PathEnd:
            pass
        except Unsupported as e:
            if str(e) not in res.unsupported: res.unsupported.append(str(e))
        except Budget:
            res.unsupported.append('time budget exhausted'); break
        except z3.Z3Exception as e:
            s = 'z3: %s' % (e,)
            if s not in res.unsupported: res.unsupported.append(s)
        except RecursionError:
            s = 'engine recursion limit'
            if s not in res.unsupported: res.unsupported.append(s)
        work.extend(ctx.alts)
    return res

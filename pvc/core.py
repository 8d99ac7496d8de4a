"""Path exploration, path conditions, universally quantified facts and
obligations."""
from __future__ import annotations
import time
import z3
from .reg import swap_attr, undo_swaps


def isa(x, c):
    """isinstance by type(x) only (never runs code of x)."""
    return issubclass(type(x), c)


class Control(BaseException):
    """Engine control flow. Never caught by the code under proof."""


class PathEnd(Control):
    """This path is finished (infeasible or belongs to another phase)."""


class Unsupported(Control):
    """The code went outside the verifier's reach."""


class Budget(Unsupported):
    """Path or time budget used up."""


ENG = None          # the active engine, or None


def engine():
    return ENG


def set_engine(e):
    global ENG
    ENG = e


class Decision:
    __slots__ = ('choice', 'alts', 'kind', 'data')

    def __init__(self, choice, alts, kind='b', data=None):
        self.choice, self.alts, self.kind, self.data = choice, alts, kind, data


class Fact:
    """for all t in [lo, hi) of domain dom: body(t)."""
    __slots__ = ('dom', 'lo', 'hi', 'body', 'guard', 'done')

    def __init__(self, dom, lo, hi, body, guard=None):
        self.dom, self.lo, self.hi, self.body, self.guard = dom, lo, hi, body, guard
        self.done = set()


class Failure:
    def __init__(self, label, kind, detail, model=None, pc=None, incomplete=False):
        self.label, self.kind, self.detail = label, kind, detail
        self.model, self.pc, self.incomplete = model, pc, incomplete


def zand(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)


def zor(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return z3.BoolVal(False)
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)


class Engine:
    def __init__(self, max_paths=4000, max_s=240, branch_ms=4000, oblig_ms=20000):
        self.trail = []
        self.max_paths, self.max_s = max_paths, max_s
        self.branch_ms, self.oblig_ms = branch_ms, oblig_ms
        self.solver = z3.Solver()
        self.asserted = []
        self.t0 = time.time()
        self.paths = 0
        self.n_oblig = 0
        self.n_disch = 0
        self.obligations = {}     # label -> [generated, discharged]
        self.failures = []
        self.unknowns = []
        self.covered = set()
        self.solver_s = 0.0
        self.n_queries = 0
        self.loop_tables = {}
        self.functions = set()    # functions of the code under proof executed
        self.assumptions = set()
        self.inputs = {}
        self.reset_path()

    # ---------------------------------------------------------- path state
    undo = ()

    def restore(self):
        undo_swaps(self.undo)
        self.undo = []

    def reset_path(self):
        self.restore()
        self.approx = False
        self.pos = 0
        self.npc = 0
        self.pc = []
        self.facts = []
        self.terms = {}
        self.counter = 0
        self.uid = 0
        self.index_stack = []     # z3 Int terms of the enclosing generic iterations
        self.loops = []           # active loop frames
        self.journal = []
        self.modelvars = {}       # name -> description, for replay
        self.objs = {}
        self.contracts = {}
        self.fold_candidates = []
        self.replay_bound = []    # z3 terms that are sequence lengths
        self.registry = {}
        self.containers = {}
        self.objuid = {}

    def next_uid(self):
        self.uid += 1
        return self.uid

    def add(self, e):
        e = z3.simplify(e) if not isinstance(e, bool) else z3.BoolVal(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd()
        self.pc.append(e)
        n = self.npc
        if n < len(self.asserted) and self.asserted[n].eq(e):
            self.npc += 1
            return
        k = len(self.asserted) - n
        if k > 0:
            self.solver.pop(k)
            del self.asserted[n:]
        self.solver.push()
        self.solver.add(e)
        self.asserted.append(e)
        self.npc += 1

    def _sync(self):
        k = len(self.asserted) - self.npc
        if k > 0:
            self.solver.pop(k)
            del self.asserted[self.npc:]

    def query(self, *extra, ms=None):
        self._sync()
        self.solver.set('timeout', ms or self.branch_ms)
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        self.n_queries += 1
        if time.time() - self.t0 > self.max_s:
            raise Budget(f'time budget {self.max_s}s')
        return r

    def fresh_query(self, extra, ms):
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*self.pc)
        s.add(*extra)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.n_queries += 1
        return r, s

    def sat(self, e):
        """Is pc /\\ e satisfiable (unknown counts as yes)?"""
        return self.query(e) != z3.unsat

    # ------------------------------------------------------------- choices
    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            ch = d.choice
        else:
            t = self.sat(cond)
            f = self.sat(z3.Not(cond)) if t else True
            if t and f:
                # make sure the path itself is feasible is implied
                d = Decision(True, [False])
            elif t:
                d = Decision(True, [])
            else:
                d = Decision(False, [])
            self.trail.append(d)
            ch = d.choice
        self.pos += 1
        self.add(cond if ch else z3.Not(cond))
        return ch

    def choose(self, n, kind='c'):
        """n-way nondeterministic choice, 0..n-1."""
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            ch = self.trail[self.pos].choice
        else:
            self.trail.append(Decision(0, list(range(1, n)), kind))
            ch = 0
        self.pos += 1
        return ch

    def feasible(self):
        return self.query() != z3.unsat

    def require_feasible(self):
        if self.pos < len(self.trail):
            return
        if not self.feasible():
            raise PathEnd()

    # -------------------------------------------------------------- fresh
    def fresh_name(self, base):
        self.counter += 1
        return f'{base}!{self.counter}'

    def fresh(self, base, sort):
        name = self.fresh_name(f'{base}@{len(self.index_stack)}{sort}')
        if self.index_stack:
            f = z3.Function(name, *([z3.IntSort()] * len(self.index_stack)), sort)
            return f(*self.index_stack)
        return z3.Const(name, sort)

    # --------------------------------------------------------------- facts
    def _inst(self, f, t):
        key = t.get_id() if hasattr(t, 'get_id') else t
        if key in f.done:
            return
        f.done.add(key)
        rng = zand(f.lo <= t, t < f.hi)
        rng = z3.simplify(rng)
        if z3.is_false(rng):
            return
        b = f.body(t)
        if b is None:
            return
        nested = []
        if isinstance(b, tuple):
            b, nested = b
        if f.guard is not None:
            rng = zand(f.guard, rng)
        self.add(z3.Implies(rng, b))
        for g, nf in nested:
            gg = rng if g is None else zand(rng, g)
            if nf.guard is not None:
                gg = zand(gg, nf.guard)
            self.add_fact(nf.dom, nf.lo, nf.hi, nf.body, guard=gg)

    def add_fact(self, dom, lo, hi, body, guard=None):
        f = Fact(dom, lo, hi, body, guard)
        self.facts.append(f)
        for t in list(self.terms.get(dom, [])):
            self._inst(f, t)
        return f

    def add_term(self, dom, t):
        t = z3.simplify(t) if not isinstance(t, int) else z3.IntVal(t)
        lst = self.terms.setdefault(dom, [])
        for u in lst:
            if u.eq(t):
                return t
        lst.append(t)
        for f in list(self.facts):
            if f.dom == dom:
                self._inst(f, t)
        return t

    def new_index(self, dom, lo, hi, base='i'):
        t = self.fresh(base, z3.IntSort())
        self.add(lo <= t)
        self.add(t < hi)
        self.add_term(dom, t)
        return t

    # --------------------------------------------------------- obligations
    def check(self, label, cond, incomplete=False, detail=''):
        """Discharge pc => cond."""
        self.n_oblig += 1
        ob = self.obligations.setdefault(label, [0, 0])
        ob[0] += 1
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        neg = z3.simplify(z3.Not(cond))
        if z3.is_false(neg):
            self.n_disch += 1
            ob[1] += 1
            return True
        r = self.query(neg, ms=self.oblig_ms)
        solver = self.solver
        if r == z3.unknown:
            r, solver = self.fresh_query([neg], self.oblig_ms)
        if r == z3.unsat:
            self.n_disch += 1
            ob[1] += 1
            return True
        if r == z3.unknown:
            self.unknowns.append((label, detail))
            raise PathEnd()
        m = solver.model()
        if self.sampling is None:
            self.failures.append(Failure(label, 'sat', detail, m,
                                         list(self.pc) + [neg], incomplete or self.approx))
            self.failures[-1].ctx = self.snapshot(neg)
        raise PathEnd()

    sampling = None
    approx = False
    class_writes = False

    def snapshot(self, neg):
        """What the concretiser needs: path condition, facts, lengths."""
        return dict(neg=neg, pc=list(self.pc), facts=list(self.facts),
                    bounds=list(self.replay_bound), registry=dict(self.registry))

    def cover(self, label):
        self.covered.add(label)

    # ----------------------------------------------------------------- run
    def run(self, fn):
        try:
            self.run_paths(fn)
        finally:
            self.restore()

    def run_paths(self, fn):
        self.trail = []
        while True:
            self.reset_path()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget(f'path budget {self.max_paths}')
            if time.time() - self.t0 > self.max_s:
                raise Budget(f'time budget {self.max_s}s')
            try:
                fn(self)
            except PathEnd:
                pass
            if self.failures and len(self.failures) >= 3:
                return
            del self.trail[max(self.pos, 0):]
            while self.trail:
                d = self.trail[-1]
                if d.kind == 'loop':
                    nxt = d.data.next_phase()
                    if nxt is not None:
                        d.choice = nxt
                        break
                elif d.alts:
                    d.choice = d.alts.pop(0)
                    break
                self.trail.pop()
            if not self.trail:
                return

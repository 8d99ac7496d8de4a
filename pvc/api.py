"""Symbolic environment handed to contracts."""
from __future__ import annotations
import z3
from . import core, vals, seqs, hooks
from .core import Unsupported, PathEnd, Control, zand, zor, isa
from .reg import Out
from .vals import (SBool, SInt, SFlt, SStr, SAny, SEnum, Rec, Thunk, Val, I, B, S, KIND, KNAMES,
                   mkbool, mkint, truth, to_val, tag_cond)
from .seqs import MList, MDict, Elem, Gen, Log, bt, same_value, iz

SORTS = {'bool': (B, SBool), 'int': (I, SInt), 'float': (vals.FL, SFlt), 'str': (S, SStr),
         'any': (Val, SAny)}
ALL = ('none', 'bool', 'int', 'float', 'str', 'list', 'dict', 'date', 'datetime', 'opaque')


def kind_cond(t, kinds):
    cs = []
    for k in kinds:
        if k == 'none':
            cs.append(Val.is_none(t))
        elif k == 'bool':
            cs.append(Val.is_vbool(t))
        elif k == 'int':
            cs.append(Val.is_vint(t))
        elif k == 'float':
            cs.append(z3.And(Val.is_vflt(t), z3.Not(vals.FL.is_nan(Val.f(t)))))
        elif k == 'str':
            cs.append(Val.is_vstr(t))
        else:
            cs.append(z3.And(Val.is_vobj(t), KIND(Val.o(t)) == KNAMES[k], Val.o(t) >= 0,
                             Val.o(t) < vals.CONST_BASE))
    return zor(*cs)


class SymE:
    symbolic = True

    def __init__(self, eng, prefix='', idx=(), root=None):
        self.e, self.prefix, self.idx = eng, prefix, tuple(idx)
        self.root = root or self

    # ------------------------------------------------------------- inputs
    def _const(self, name, sort):
        n = self.prefix + name
        if self.idx:
            t = z3.Function(n, *([I] * len(self.idx)), sort)(*self.idx)
        else:
            t = z3.Const(n, sort)
        self.e.inputs[n] = (sort.name(), len(self.idx))
        return t

    def _scalar(self, name, kind):
        s, c = SORTS[kind]
        return c(self._const(name, s))

    def bool(self, name):
        return self._scalar(name, 'bool')

    def int(self, name, lo=None, hi=None):
        x = self._scalar(name, 'int')
        if lo is not None:
            self._assume(x.t >= lo)
        if hi is not None:
            self._assume(x.t <= hi)
        return x

    def float(self, name):
        x = self._scalar(name, 'float')
        self._assume(z3.Not(vals.FL.is_nan(x.t)))
        return x

    def num(self, name):
        return self.any(name, ('int', 'float'))

    def str(self, name):
        return self._scalar(name, 'str')

    def any(self, name, kinds=ALL):
        x = self._scalar(name, 'any')
        self._assume(kind_cond(x.t, kinds))
        return x

    def list_any(self, name):
        """A list value (of any values)."""
        return vals.resolve(self.any(name, ('list',)))

    def dict_any(self, name):
        return vals.resolve(self.any(name, ('dict',)))

    def _assume(self, c):
        if not self.idx:
            self.e.add(c)
        else:
            # an assumption about the generic element: holds for the index
            self.e.add(c)

    def choice(self, name, options):
        """One of finitely many concrete values."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        t = self._const(name, I)
        self._assume(z3.And(t >= 0, t < len(options)))
        if self.idx:
            return SEnum(options, t)
        for i, o in enumerate(options[:-1]):
            if self.e.decide(t == i):
                return o
        self.e.decide(t == len(options) - 1)
        return options[-1]

    def lazy(self, fn):
        return Thunk(fn)

    def list(self, name, mk, distinct=False):
        """A list of symbolic length; mk(env) makes the element at the index
        env stands for."""
        e = self.e
        n = self._const(name + '.len', I)
        self._assume(n >= 0)
        e.replay_bound.append(n)
        dom = 'in:' + self.prefix + name + ''.join(f'[{x}]' for x in self.idx)
        memo = {}

        def at(t):
            k = t.sexpr()
            if k not in memo:
                env = SymE(e, self.prefix + name + '.', self.idx + (t,), self.root)
                npc = len(e.pc)
                memo[k] = mk(env)
            return memo[k]
        r = MList()
        r.__dict__['segs'] = [Gen(dom, z3.IntVal(0), n,
                                  lambda t: [(z3.BoolVal(True), [Elem(at(t))])], True)]
        r.__dict__['at_'] = None
        return r

    def rec(self, tag, attrs=None, cls=None, onset=None, remake=None):
        attrs = dict(attrs or {})
        if remake is not None:
            attrs['*remake*'] = remake
        return Rec(self.prefix + tag, [SInt(x) for x in self.idx], cls, attrs, onset)

    def recs(self, name, mk):
        """A list of records; mk(env) -> Rec made by env.rec(...)."""
        e = self.e
        memo = {}
        n = self._const(name + '.len', I)
        self._assume(n >= 0)
        e.replay_bound.append(n)
        dom = 'in:' + self.prefix + name + ''.join(f'[{x}]' for x in self.idx)

        def at(*ix):
            ix = [iz(x) for x in ix]
            k = '|'.join(z3.simplify(x).sexpr() for x in ix)
            if k not in memo:
                env = SymE(e, self.prefix + name + '.', tuple(ix), self.root)
                r = mk(env)
                r.__dict__['_r_attrs']['*remake*'] = at
                memo[k] = r
            return memo[k]
        r = MList()
        r.__dict__['segs'] = [Gen(dom, z3.IntVal(0), n, lambda t: [
            (z3.BoolVal(True), [Elem(at(*self.idx, t))])], True)]
        return r

    def dict(self, name, mkval=None, keykind='str'):
        """A dict with symbolic string keys."""
        o = self._const(name + '.oid', I)
        self._assume(z3.And(o >= 0, o < vals.CONST_BASE, KIND(o) == vals.K_DICT))
        return vals.obj_proxy(o)

    def uf(self, name, ret='any', nargs=None):
        """An arbitrary deterministic function of its arguments."""
        s, c = SORTS[ret]
        p, idx = self.prefix, self.idx

        def f(*args):
            terms = [to_val(a) for a in args]
            fn = z3.Function('uf_' + p + name + f'_{len(args)}',
                             *([I] * len(idx) + [Val] * len(terms)), s)
            t = fn(*idx, *terms)
            if isa(t, z3.ExprRef):
                return {'bool': mkbool, 'int': mkint, 'str': vals.mkstr}.get(ret, c)(t)
        f.__pvc_uf__ = True
        f.__module__ = 'pvc.uf'
        return f

    def opaque(self, name):
        return self.any(name, ('opaque',))

    def obj(self, cls=None, **attrs):
        """A collaborator object with exactly these attributes."""
        return Rec(self.e.fresh_name('obj'), (), cls, attrs,
                   onset=lambda n, v: attrs_set(r, n, v)) if False else _obj(self, cls, attrs)

    def own(self, o):
        return hooks.own(o)

    def log(self):
        return SymLog()

    # -------------------------------------------------------------- running
    def call(self, f, *a, **k):
        try:
            return Out('ret', hooks.call(f, *a, **k))
        except Control:
            raise
        except RecursionError:
            raise Unsupported('recursion limit')
        except Exception as x:     # noqa: BLE001
            if isa(x, (TypeError, AttributeError)) and any(
                    n in str(x) for n in ("'SIter'", "'DView'", "'SRange'")):
                raise Unsupported(f'{type(x).__name__}: {x}')   # the engine's own stand-in
            return Out('exc', x)

    def body(self, f, *a, **k):
        """Call f itself even when a contract stands in for its other calls
        (recursion: the inner calls are taken by contract)."""
        saved = self.e.contracts.pop(f, None)
        state = {'first': True}
        if saved is not None:
            def once(*b, **c):
                if state['first']:
                    state['first'] = False
                    self.e.contracts[f] = saved
                    return f(*b, **c)
                return saved(*b, **c)
            if getattr(f, '__module__', '').startswith('jsonclasses'):
                self.e.functions.add(f'{f.__module__}.{f.__qualname__}')
            self.e.contracts[f] = once
        return self.call(f, *a, **k)

    def assume_contract(self, f, sub):
        """The callee f is replaced by the contract sub in the proof (the
        native run keeps f)."""
        self.e.contracts[f] = sub

    def drop_contract(self, f):
        self.e.contracts.pop(f, None)

    def replace(self, f, sub):
        """Use the contract sub in place of the callee f (assume-guarantee)."""
        self.e.contracts[f] = sub

    def swap(self, o, **attrs):
        """Attributes of a class or module, for this run."""
        for n, v in attrs.items():
            core.swap_attr(self.e.undo, o, n, v)

    # ----------------------------------------------------------- assertions
    def assume(self, c):
        if isa(c, SBool):
            self.e.add(c.t)
            self.e.require_feasible()
        elif not truth(c):
            raise PathEnd()

    def check(self, label, c, incomplete=False, detail=''):
        c = c if isa(c, bool) else (mkbool(c.t) if isa(c, SBool) else truth(c))
        self.e.check(label, bt(c), incomplete, detail)

    def same(self, label, a, b, incomplete=False):
        """a and b are the same value (type and value; objects by identity)."""
        a, b = _norm(a), _norm(b)
        d = f'got {short(a)}; specified {short(b)}'
        q = same_value(a, b)
        if q is False and (has_gen(a) or has_gen(b)):
            incomplete = True      # structural comparison: not a refutation
        self.e.check(label, bt(q), incomplete, d)

    def is_same(self, a, b):
        return same_value(_norm(a), _norm(b))

    def iff(self, label, a, b):
        a = truth(a)
        b = truth(b)
        self.e.check(label, a == b, detail=f'got {a}; specified {b}')

    def cover(self, label):
        self.e.cover(label)

    def truth(self, x):
        return truth(x)

    def fold(self, fn):
        """Candidate invariant: a loop-carried value after i iterations."""
        self.e.fold_candidates.append(fn)

    def trust(self, text):
        self.e.assumptions.add(text)


def _obj(E, cls, attrs):
    r = Rec(E.e.fresh_name('obj'), (), cls, attrs)
    d = r.__dict__

    def onset(n, v):
        if E.e.loops and any(lp.phase == 'summary' for lp in E.e.loops):
            raise Unsupported('a loop writes an attribute of a shared object')
        d['_r_attrs'][n] = v
        d['_r_cache'].pop(n, None)
    d['_r_onset'] = onset
    return r


def _norm(x):
    if isa(x, seqs.SIter):
        return MList(x)
    if isa(x, seqs.DView):
        return MList(x)
    if isa(x, SymLog):
        return x.m
    return x


def has_gen(x, d=0):
    if isa(x, (MList, MDict)):
        return x.base is not None or any(isa(s, Gen) or has_gen(s.v, d + 1) for s in x.segs)
    if isa(x, (tuple, list)) and d < 4:
        return any(has_gen(y, d + 1) for y in x)
    return False


def short(x):
    try:
        s = repr(x)
    except BaseException:        # noqa: BLE001
        s = type(x).__name__
    return s if len(s) < 600 else s[:600] + '...'


class SymLog:
    def __init__(self):
        self.m = MList()

    def add(self, *ev):
        self.m.append(tuple(ev))


SymLog.__module__ = 'pvc.api'

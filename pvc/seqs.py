"""Sequences of symbolic length, model containers and the loop rule."""
from __future__ import annotations
import sys
import copy
import types as _types
import z3
from . import core
from .core import isa, Unsupported, PathEnd, Control, Decision, Fact, zand, zor
from .vals import (Proxy, SBool, SInt, SStr, SAny, SFlt, SEnum, SDate, SDateTime,
                   SOpaque, SType, Rec, Val, I, B, S, KIND, K_LIST, K_DICT, LLEN,
                   LAT, mkbool, mkint, mkstr, neg, num_term, resolve, truth,
                   to_val, val_eq, oid_of_const, eng, _eq)
from . import vals


_NOARG = object()


def iz(x):
    """An int-like as a z3 term."""
    if isa(x, int):
        return z3.IntVal(x)
    if isa(x, (SInt, SBool)):
        return num_term(x)[1]
    if isa(x, SAny):
        r = resolve(x)
        n = num_term(r)
        if n is None or not n[0]:
            raise TypeError('an integer is required')
        return n[1]
    if z3.is_expr(x):
        return x
    if hasattr(type(x), '__index__'):
        return z3.IntVal(x.__index__())
    raise TypeError(f'indices must be integers, not {type(x).__name__}')


def bt(x):
    """bool/SBool as z3 term."""
    return x.t if isa(x, SBool) else z3.BoolVal(bool(x))


# ---------------------------------------------------------------- segments
class Elem:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'Elem({self.v!r})'


class Gen:
    """Elements contributed by base indices lo <= t < hi of domain dom.
    fn(t) is a list of (cond, segs): under cond, base index t contributes
    segs. exact: always exactly one Elem."""
    __slots__ = ('dom', 'lo', 'hi', 'rev', 'fn', 'exact', 'distinct', 'src')

    def __init__(self, dom, lo, hi, fn, exact, rev=False, distinct=False, src=None):
        self.src = src           # the symbolic map whose items / keys these are
        self.dom, self.lo, self.hi = dom, iz(lo), iz(hi)
        self.fn, self.exact, self.rev = fn, exact, rev
        self.distinct = distinct

    def size(self):
        return self.hi - self.lo

    def at(self, p):
        """Element at position p (0-based) of an exact Gen."""
        t = (self.hi - 1 - p) if self.rev else (self.lo + p)
        t = eng().add_term(self.dom, t)
        return self.fn(t)[0][1][0].v

    def sub(self, a, b):
        """Positions a..b of an exact Gen."""
        if self.rev:
            return Gen(self.dom, self.hi - b, self.hi - a, self.fn, True, True, self.distinct)
        return Gen(self.dom, self.lo + a, self.lo + b, self.fn, True, False, self.distinct)

    def reversed(self):
        if not self.exact:
            raise Unsupported('reverse of a filtered sequence')
        return Gen(self.dom, self.lo, self.hi, self.fn, True, not self.rev, self.distinct)

    def __repr__(self):
        return f'Gen({self.dom},{self.lo},{self.hi},exact={self.exact},rev={self.rev})'


_SUB = {}


def zsubst(v, pairs):
    """z3.substitute of constants, cached (terms are hash-consed)."""
    if len(pairs) == 1:
        a, b = pairs[0]
        key = (v.get_id(), a.get_id(), b.get_id())
        r = _SUB.get(key)
        if r is None:
            if len(_SUB) > 300000:
                _SUB.clear()
            r = (z3.substitute(v, (a, b)), v, a, b)     # keeps the ids alive
            _SUB[key] = r
        return r[0]
    return z3.substitute(v, *pairs)


def pc_of(sm):
    """The conjunction of the path condition of a loop summary."""
    r = getattr(sm, 'conj', None)
    if r is None or r[0] != len(sm.pc):
        r = (len(sm.pc), zand(*sm.pc))
        sm.conj = r
    return r[1]


def subst(v, pairs, memo=None):
    """Deep substitution of z3 constants in a value."""
    if memo is None:
        memo = {}
    if z3.is_expr(v):
        return zsubst(v, pairs)
    if v is None or isa(v, (bool, int, float, str, bytes, type)):
        return v
    k = id(v)
    if k in memo:
        return memo[k][0]

    def keep(r):
        memo[k] = (r, v)
        return r
    if isa(v, SBool):
        return keep(mkbool(subst(v.t, pairs)))
    if isa(v, SInt):
        return keep(mkint(subst(v.t, pairs)))
    if isa(v, SStr):
        return keep(mkstr(subst(v.t, pairs)))
    if isa(v, (SAny, SFlt)):
        return keep(type(v)(z3.simplify(subst(v.t, pairs))))
    if isa(v, SEnum):
        return keep(SEnum(v.members, z3.simplify(subst(v.t, pairs))))
    if isa(v, (SDate, SOpaque)):
        return keep(type(v)(subst(v.o, pairs)))
    if isa(v, SDateTime):
        return keep(SDateTime(subst(v.us, pairs), subst(v.aware, pairs),
                              None if v.o is None else subst(v.o, pairs)))
    if isa(v, SType):
        return keep(SType(subst(v.v, pairs, memo)))
    if isa(v, Poison):
        raise Unsupported('loop-carried value escapes its loop')
    if type(v) is Rec:
        d = v.__dict__
        idx = tuple(subst(x, pairs, memo) for x in d['_r_idx'])
        if idx == () or all(_same(a, b) for a, b in zip(idx, d['_r_idx'])):
            return keep(v)
        mk = d['_r_attrs'].get('*remake*')
        if mk is None:
            raise Unsupported(f"record {d['_r_tag']} indexed by a loop")
        return keep(mk(*idx))
    if isa(v, Elem):
        return Elem(subst(v.v, pairs, memo))
    if isa(v, Gen):
        g = v
        return Gen(g.dom if isa(g.dom, str) else subst_dom(g.dom, pairs),
                   subst(g.lo, pairs), subst(g.hi, pairs),
                   lambda t, g=g: subst_paths(g.fn(t), pairs), g.exact, g.rev, g.distinct)
    if isa(v, tuple):
        xs = [subst(x, pairs, memo) for x in v]
        if all(a is b for a, b in zip(xs, v)):
            return keep(v)
        return keep(type(v)._make(xs) if hasattr(v, '_make') else tuple(xs))
    if isa(v, MContainer):
        if v.frozen_outside(pairs):
            return keep(v)
        n = v.clone_empty()
        keep(n)
        n.segs = [subst(s, pairs, memo) for s in v.segs]
        for kk, vv in v.__dict__.items():
            if kk not in ('segs', 'uid', 'base'):
                n.__dict__[kk] = subst(vv, pairs, memo)
        return n
    if isa(v, list):
        xs = [subst(x, pairs, memo) for x in v]
        if all(a is b for a, b in zip(xs, v)):
            return keep(v)
        return keep(xs)
    if isa(v, dict):
        xs = {a: subst(b, pairs, memo) for a, b in v.items()}
        if all(xs[a] is v[a] for a in v):
            return keep(v)
        return keep(xs)
    if isa(v, (_types.FunctionType, _types.BuiltinFunctionType, _types.MethodType,
                      _types.ModuleType, property)):
        return v
    if isa(v, (set, frozenset)):
        return v
    d = getattr(v, '__dict__', None)
    if isa(d, dict) and d:
        memo[k] = (v, v)
        ch = {}
        for a, b in list(d.items()):
            nb = subst(b, pairs, memo)
            if nb is not b:
                ch[a] = nb
        if isa(v, BaseException):
            na = subst(v.args, pairs, memo)
            if na is not v.args or ch:
                n = copy.copy(v)
                n.__dict__.update(ch)
                n.args = na
                return keep(n)
        if ch:
            n = object.__new__(type(v))
            n.__dict__.update(d)
            n.__dict__.update(ch)
            return keep(n)
    return v


def subst_dom(dom, pairs):
    return tuple(subst(x, pairs) if z3.is_expr(x) else x for x in dom)


def subst_paths(paths, pairs):
    memo = {}
    return [(subst(c, pairs), [subst(s, pairs, memo) for s in ss]) for c, ss in paths]


def _same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isa(a, (SBool, SInt, SStr, SAny, SFlt)):
        return a.t.eq(b.t)
    if isa(a, SEnum):
        return a.members == b.members and a.t.eq(b.t)
    if isa(a, (int, str, bool, float)):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isa(a, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isa(a, (SDate, SOpaque)):
        return a.o.eq(b.o)
    if type(a) is Rec:
        x, y = a.__dict__, b.__dict__
        return (x['_r_tag'] == y['_r_tag'] and len(x['_r_idx']) == len(y['_r_idx'])
                and len(x['_r_idx']) > 0
                and all(_same(p, q) for p, q in zip(x['_r_idx'], y['_r_idx'])))
    return False


# --------------------------------------------------------------- containers
class MContainer:
    def _init(self):
        e = core.ENG
        u = e.next_uid() if e else 0
        self.__dict__['uid'] = u
        if e:
            e.containers[u] = self
        self.__dict__['segs'] = []
        self.__dict__['base'] = None
        self.__dict__['src_oid'] = None

    def read(self):
        e = eng()
        for lp in e.loops:
            if self.uid <= lp.uid0 and lp.phase == 'summary':
                lp.node.reads[self.uid] = self

    def effect(self, segs):
        """Append segs, journaled for enclosing loops."""
        e = eng()
        self.segs.extend(segs)
        e.journal.append((self, 'app', list(segs)))

    def rewrite(self, segs):
        e = eng()
        self.__dict__['segs'] = list(segs)
        e.journal.append((self, 'rewrite', None))

    def oid_term(self):
        if self.src_oid is not None:
            return self.src_oid
        return oid_of_const(self)

    def frozen_outside(self, pairs):
        return False

    def clone_empty(self):
        n = type(self).__new__(type(self))
        n._init()
        return n

    def __hash__(self):
        raise TypeError(f'unhashable type')

    def nonempty(self):
        self.read()
        return segs_nonempty(self.segs)

    def __bool__(self):
        return self.nonempty()

    def concrete(self):
        return all(isa(s, Elem) for s in self.segs)


def path_nonempty(paths):
    out = []
    for c, ss in paths:
        if any(isa(s, Elem) for s in ss):
            out.append(c)
        elif ss:
            raise Unsupported('nested generated segment')
    return zor(*out)


def segs_nonempty(segs):
    e = eng()
    if any(isa(s, Elem) for s in segs):
        return True
    for s in segs:
        if s.exact:
            if e.decide(s.hi > s.lo):
                e.add_term(s.dom, s.lo)
                e.add_term(s.dom, s.hi - 1)
                return True
        else:
            if e.choose(2) == 0:
                t = e.new_index(s.dom, s.lo, s.hi, 'w')
                e.add(path_nonempty(s.fn(t)))
                e.require_feasible()
                return True
            e.add_fact(s.dom, s.lo, s.hi,
                       lambda t, s=s: z3.Not(path_nonempty(s.fn(t))))
            e.require_feasible()
    return False


def segs_len(segs):
    n = z3.IntVal(0)
    e = eng()
    for s in segs:
        if isa(s, Elem):
            n = n + 1
        elif s.exact:
            n = n + s.size()
        else:
            if segs_nonempty([s]):
                L = e.fresh('cnt', I)
                e.add(L >= 1)
                n = n + L
    return z3.simplify(n)


def exact_segs(segs):
    return all(isa(s, Elem) or s.exact for s in segs)


def segs_at(segs, p):
    """Element at non-negative in-range position p."""
    e = eng()
    off = z3.IntVal(0)
    for i, s in enumerate(segs):
        L = z3.IntVal(1) if isa(s, Elem) else s.size()
        if i == len(segs) - 1 or e.decide(p < off + L):
            if isa(s, Elem):
                return s.v
            return s.at(z3.simplify(p - off))
        off = z3.simplify(off + L)
    raise IndexError('list index out of range')


def zmin(a, b):
    return z3.simplify(z3.If(a < b, a, b))


def zmax(a, b):
    return z3.simplify(z3.If(a > b, a, b))


def segs_slice(segs, a, b):
    """Positions a..b with 0 <= a <= b <= n (terms)."""
    e = eng()
    out = []
    off = z3.IntVal(0)
    for s in segs:
        if isa(s, Elem):
            if e.decide(zand(a <= off, off < b)):
                out.append(s)
            off = z3.simplify(off + 1)
        else:
            L = s.size()
            x = zmin(zmax(a - off, z3.IntVal(0)), L)
            y = zmax(zmin(b - off, L), x)
            g = s.sub(x, y)
            g.lo, g.hi = z3.simplify(g.lo), z3.simplify(g.hi)
            if not z3.is_true(z3.simplify(g.lo == g.hi)):
                out.append(g)
            off = z3.simplify(off + L)
    return out


def clip_slice(slc, n):
    """Absolute (a, b) for step 1 slices; terms."""
    def c(v, d):
        if v is None:
            return d
        x = iz(v)
        return z3.simplify(z3.If(x < 0, zmax(x + n, z3.IntVal(0)), zmin(x, n)))
    a = c(slc.start, z3.IntVal(0))
    b = c(slc.stop, n)
    b = zmax(a, b)
    return a, b


class MList(MContainer):
    def __init__(self, it=_NOARG):
        self._init()
        if it is not _NOARG:
            self.__dict__['segs'] = list(to_segs(it))

    # -------------------------------------------------------------- queries
    def native(self):
        if not self.concrete():
            raise Unsupported('native use of a symbolic list')
        return [s.v for s in self.segs]

    def __iter__(self):
        self.read()
        return iter(self.native())

    def length(self):
        self.read()
        return mkint(segs_len(self.segs))

    def __len__(self):
        n = self.length()
        if isa(n, int):
            return n
        raise Unsupported('native len of a symbolic list')

    def __getitem__(self, k):
        self.read()
        if isa(k, slice):
            return self.getslice(k)
        k = resolve(k)
        if isa(k, int) and self.concrete():
            return self.segs[k].v if -len(self.segs) <= k < len(self.segs) else _ie()
        if not exact_segs(self.segs):
            return self._inexact_at(k)
        e = eng()
        n = segs_len(self.segs)
        p = iz(k)
        if not e.decide(zand(p >= -n, p < n)):
            raise IndexError('list index out of range')
        if e.decide(p < 0):
            p = p + n
        return segs_at(self.segs, z3.simplify(p))

    def _inexact_at(self, k):
        if not isa(k, int) or k not in (0,):
            raise Unsupported('index into a filtered sequence')
        for x in loop_over(self):
            return x
        raise IndexError('list index out of range')

    def getslice(self, k):
        step = resolve(k.step)
        out = MList()
        if step is None or (isa(step, int) and step == 1):
            if not exact_segs(self.segs):
                if k.start is None and k.stop is None:
                    out.__dict__['segs'] = list(self.segs)
                    return out
                raise Unsupported('slice of a filtered sequence')
            a, b = clip_slice(k, segs_len(self.segs))
            out.__dict__['segs'] = segs_slice(self.segs, a, b)
            return out
        if self.concrete() and isa(step, int) and not isa(k.start, Proxy) \
                and not isa(k.stop, Proxy):
            out.__dict__['segs'] = self.segs[slice(k.start, k.stop, step)]
            return out
        if isa(step, int) and step == -1 and k.start is None and k.stop is None:
            out.__dict__['segs'] = [s if isa(s, Elem) else s.reversed()
                                    for s in reversed(self.segs)]
            return out
        raise Unsupported('slice step')

    def __contains__(self, x):
        raise Unsupported('native in')

    def __eq__(self, o):
        return container_eq(self, o)

    def __ne__(self, o):
        return neg(container_eq(self, o))

    __hash__ = MContainer.__hash__

    def __add__(self, o):
        self.read()
        if isa(o, SAny):
            o = resolve(o)
        if not isa(o, (list, MList)):
            raise TypeError('can only concatenate list')
        r = MList()
        r.__dict__['segs'] = list(self.segs) + list(to_segs(o))
        return r

    def __radd__(self, o):
        r = MList()
        r.__dict__['segs'] = list(to_segs(o)) + list(self.segs)
        return r

    def __mul__(self, n):
        self.read()
        if not isa(n, int):
            raise Unsupported('list * symbolic')
        r = MList()
        r.__dict__['segs'] = list(self.segs) * n
        return r

    __rmul__ = __mul__

    def __reversed__(self):
        r = self.getslice(slice(None, None, -1))
        return SIter(r.segs, [], r)

    def _ord(self, o, op):
        raise Unsupported('list ordering')

    def __lt__(self, o):
        raise Unsupported('list ordering')

    __le__ = __gt__ = __ge__ = __lt__

    def copy(self):
        self.read()
        r = MList()
        r.__dict__['segs'] = list(self.segs)
        return r

    __copy__ = copy

    def index(self, x, *a):
        if a:
            raise Unsupported('index range')
        from . import hooks
        return hooks.PYLIB.list_index(self, x)

    def count(self, x):
        from . import hooks
        return hooks.PYLIB.list_count(self, x)

    # ------------------------------------------------------------ mutations
    def append(self, x):
        self.effect([Elem(x)])

    def extend(self, it):
        self.effect(list(to_segs(it)))

    def __iadd__(self, it):
        MList.extend(self, it)
        return self

    def __imul__(self, n):
        self.read()
        n = resolve(n)
        if isa(n, SInt):
            e = eng()
            if e.decide(n.t <= 0):
                self.rewrite([])
                return self
            if e.decide(n.t == 1):
                return self
            if e.decide(n.t == 2):
                n = 2
            else:
                # n >= 3 copies: generated over the copy number
                segs = list(self.segs)
                self.rewrite(repeat_segs(segs, n.t))
                return self
        self.rewrite(list(self.segs) * n)
        return self

    def splice(self, a, b, new):
        self.read()
        n = segs_len(self.segs)
        if not exact_segs(self.segs):
            raise Unsupported('splice of a filtered sequence')
        self.rewrite(segs_slice(self.segs, z3.IntVal(0), a) + list(new)
                     + segs_slice(self.segs, b, n))

    def _pos(self, k, what):
        e = eng()
        n = segs_len(self.segs)
        p = iz(k)
        if not e.decide(zand(p >= -n, p < n)):
            raise IndexError(f'{what} index out of range')
        if e.decide(p < 0):
            p = z3.simplify(p + n)
        return p

    def insert(self, k, x):
        self.read()
        n = segs_len(self.segs)
        p = iz(k)
        a = z3.simplify(z3.If(p < 0, zmax(p + n, z3.IntVal(0)), zmin(p, n)))
        self.splice(a, a, [Elem(x)])

    def pop(self, *a):
        self.read()
        if len(a) > 1:
            raise TypeError('pop expected at most 1 argument')
        if not segs_nonempty(self.segs):
            raise IndexError('pop from empty list')
        p = self._pos(a[0] if a else -1, 'pop')
        v = segs_at(self.segs, p)
        self.splice(p, z3.simplify(p + 1), [])
        return v

    def remove(self, x):
        from . import hooks
        self.read()
        p = iz(hooks.PYLIB.list_remove_pos(self, x))
        self.splice(p, z3.simplify(p + 1), [])

    def clear(self):
        self.rewrite([])

    def reverse(self):
        self.read()
        self.rewrite([s if isa(s, Elem) else s.reversed()
                      for s in reversed(self.segs)])

    def sort(self, *, key=None, reverse=False):
        self.read()
        self.rewrite(sorted_segs(self.segs, key, reverse))

    def __setitem__(self, k, v):
        self.read()
        if isa(k, slice):
            step = resolve(k.step)
            new = list(to_segs(v))
            if step is None or (isa(step, int) and step == 1):
                a, b = clip_slice(k, segs_len(self.segs))
                self.splice(a, b, new)
                return
            if self.concrete() and isa(step, int) and all(isa(s, Elem) for s in new) \
                    and not isa(k.start, Proxy) and not isa(k.stop, Proxy):
                l = list(self.segs)
                l[slice(k.start, k.stop, step)] = new
                self.rewrite(l)
                return
            raise Unsupported('extended slice assignment')
        k = resolve(k)
        p = self._pos(k, 'list assignment')
        self.splice(p, z3.simplify(p + 1), [Elem(v)])

    def __delitem__(self, k):
        self.read()
        if isa(k, slice):
            step = resolve(k.step)
            if step is None or (isa(step, int) and step == 1):
                a, b = clip_slice(k, segs_len(self.segs))
                self.splice(a, b, [])
                return
            if self.concrete() and isa(step, int) \
                    and not isa(k.start, Proxy) and not isa(k.stop, Proxy):
                l = list(self.segs)
                del l[slice(k.start, k.stop, step)]
                self.rewrite(l)
                return
            raise Unsupported('extended slice deletion')
        k = resolve(k)
        p = self._pos(k, 'list assignment')
        self.splice(p, z3.simplify(p + 1), [])

    def __repr__(self):
        return f'{type(self).__name__}{self.segs}'


def _ie():
    raise IndexError('list index out of range')


def repeat_segs(segs, n):
    """segs repeated n times, as one generated segment over the copy number
    (needs a single exact Gen or concrete list)."""
    e = eng()
    name = e.fresh_name('rep')
    return [Gen(name, z3.IntVal(0), n, lambda t: [(z3.BoolVal(True), list(segs))], False)]


SORT_CACHE_ATTR = 'sort_cache'


def sig(v):
    if z3.is_expr(v):
        return v.sexpr()
    if isa(v, (SBool, SInt, SStr, SAny, SFlt)):
        return f'{type(v).__name__}:{v.t.sexpr()}'
    if isa(v, (int, str, float, type(None), bool)):
        return repr(v)
    if isa(v, Rec):
        return f"rec:{v.__dict__['_r_tag']}:{[sig(x) for x in v.__dict__['_r_idx']]}"
    return f'id:{id(v)}'


def segs_sig(segs):
    out = []
    for s in segs:
        if isa(s, Elem):
            out.append(sig(s.v))
        elif s.exact:
            t = z3.Int('sig!t')
            out.append(f'G{s.dom}:{s.lo}:{s.hi}:{s.rev}:{sig(s.fn(t)[0][1][0].v)}')
        else:
            out.append(f'I{id(s)}')
    return '|'.join(out)


def sorted_segs(segs, key, reverse):
    """A permutation of segs that depends only on segs, key and reverse."""
    e = eng()
    reverse = resolve(reverse)
    if all(isa(s, Elem) for s in segs) and isa(reverse, (bool, int)) and len(segs) < 9:
        from .hooks import call
        ks = [s.v if key is None else call(key, s.v) for s in segs]
        ks = [int(z3.simplify(x.t).as_long()) if isa(x, SInt) and z3.is_int_value(z3.simplify(x.t))
              else x for x in ks]
        if all(type(x) in (int, bool) for x in ks) or all(type(x) is str for x in ks):
            order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(reverse))
            return [segs[i] for i in order]
    k = (segs_sig(segs), id(key) if key is not None else 0, sig(reverse))
    cache = e.registry.setdefault('sort', {})
    if k not in cache:
        name = f'sorted!{len(cache)}'
        f = z3.Function(name, I, Val)
        n = segs_len(segs)
        cache[k] = (key, [Gen(name, z3.IntVal(0), n,
                              lambda t: [(z3.BoolVal(True), [Elem(SAny(f(t)))])], True)])
    return list(cache[k][1])


def list_of_oid(o):
    r = MList()
    n = LLEN(o)
    e = eng()
    e.add(n >= 0)
    e.replay_bound.append(n)
    dom = f'L:{o.sexpr()}'
    r.__dict__['segs'] = [Gen(dom, z3.IntVal(0), n,
                              lambda t: [(z3.BoolVal(True), [Elem(SAny(LAT(o, t)))])], True)]
    r.__dict__['src_oid'] = o
    return r


DHAS = z3.Function('dhas', I, Val, B)
DVAL = z3.Function('dval', I, Val, Val)
DIDX = z3.Function('didx', I, Val, I)
DKEY = z3.Function('dkey', I, I, Val)


class DBase:
    """A symbolic finite map: key terms Val."""

    def __init__(self, dom, n, has, val, keyat, idx, mkkey, mkval):
        self.dom, self.n = dom, n
        self.has, self.val, self.keyat, self.idx = has, val, keyat, idx
        self.mkkey, self.mkval = mkkey, mkval
        e = eng()
        e.add(n >= 0)
        e.replay_bound.append(n)
        e.add_fact(dom, z3.IntVal(0), n,
                   lambda t: zand(has(keyat(t)), idx(keyat(t)) == t))

    def lookup(self, kt):
        """(has, val) for a key term."""
        e = eng()
        h = self.has(kt)
        j = self.idx(kt)
        if e.decide(h):
            e.add(zand(0 <= j, j < self.n, self.keyat(j) == kt))
            e.add_term(self.dom, j)
            return True, self.mkval(self.val(kt))
        return False, None

    def item_gen(self, mk):
        return Gen(self.dom, z3.IntVal(0), self.n,
                   lambda t: [(z3.BoolVal(True), [Elem(mk(self.mkkey(self.keyat(t)),
                                                          self.mkval(self.val(self.keyat(t)))))])],
                   True, distinct=True, src=('items', self))


def dict_of_oid(o, strkeys=True):
    """A symbolic dict value. Keys are strings (JSON objects)."""
    r = MDict()
    n = z3.Function('dlen', I, I)(o)
    e = eng()
    if strkeys:
        e.add_fact(f'D:{o.sexpr()}', z3.IntVal(0), n, lambda t: Val.is_vstr(DKEY(o, t)))
    r.__dict__['base'] = DBase(
        f'D:{o.sexpr()}', n, lambda k: DHAS(o, k), lambda k: DVAL(o, k),
        lambda t: DKEY(o, t), lambda k: DIDX(o, k),
        (lambda kt: SStr(Val.s(kt))) if strkeys else (lambda kt: SAny(kt)), SAny)
    if strkeys:
        old = r.base.keyat
        r.base.keyat = old
        r.base.strkeys = True
    r.__dict__['src_oid'] = o
    return r


MISSING = object()


class MDict(MContainer):
    """Association log: segs of ('set', k, v) / ('del', k)."""

    def __init__(self, it=_NOARG, **kw):
        self._init()
        if it is not _NOARG:
            if isa(it, SAny):
                it = vals.resolve(it)
            if isa(it, MDict):
                it.read()
                self.__dict__['segs'] = list(it.segs)
                self.__dict__['base'] = it.base
            else:
                self._update(it)
        for k, v in kw.items():
            self.segs.append(Elem(('set', k, v)))

    def clone_empty(self):
        n = type(self).__new__(type(self))
        n._init()
        n.__dict__['base'] = self.base
        return n

    # -------------------------------------------------------------- lookup
    def lookup(self, k):
        e = eng()
        self.read()
        if isa(k, (MContainer, list, dict, set)):
            raise TypeError('unhashable type')
        if isa(k, SAny):
            # hashing a list/dict raises
            if e.decide(zand(Val.is_vobj(k.t), zor(KIND(Val.o(k.t)) == K_LIST,
                                                   KIND(Val.o(k.t)) == K_DICT))):
                raise TypeError('unhashable type')
        for s in reversed(self.segs):
            if isa(s, Elem):
                op = s.v
                if truth(_eqx(op[1], k)):
                    return op[2] if op[0] == 'set' else MISSING
                continue
            r = self._lookup_gen(s, k)
            if r is not None:
                op = r
                return op[2] if op[0] == 'set' else MISSING
        if self.base is not None:
            if isa(k, (int, bool, SInt, SBool, type(None))) and getattr(self.base, 'strkeys', False):
                return MISSING
            h, v = self.base.lookup(to_val(k))
            if h:
                return v
        return MISSING

    def _lookup_gen(self, s, k):
        """The last op of generated segment s on key k, or None."""
        e = eng()

        def hit(t):
            out = []
            for c, ss in s.fn(t):
                hs = []
                for x in ss:
                    if not isa(x, Elem):
                        raise Unsupported('nested generated dict segment')
                    hs.append(bt(_eqx(x.v[1], k)))
                if hs:
                    out.append(zand(c, zor(*hs)))
            return zor(*out)
        if e.choose(2) == 0:
            w = e.new_index(s.dom, s.lo, s.hi, 'w')
            if s.rev:
                e.add_fact(s.dom, s.lo, w, lambda t: z3.Not(hit(t)))
            else:
                e.add_fact(s.dom, w + 1, s.hi, lambda t: z3.Not(hit(t)))
            paths = s.fn(w)
            p = e.choose(len(paths))
            c, ss = paths[p]
            e.add(c)
            e.require_feasible()
            for x in reversed(ss):
                if truth(_eqx(x.v[1], k)):
                    return x.v
            raise PathEnd()
        e.add_fact(s.dom, s.lo, s.hi, lambda t: z3.Not(hit(t)))
        e.require_feasible()
        return None

    def get(self, k, d=None):
        v = self.lookup(k)
        return d if v is MISSING else v

    def __getitem__(self, k):
        v = self.lookup(k)
        if v is MISSING:
            raise KeyError(k)
        return v

    def has(self, k):
        return self.lookup(k) is not MISSING

    def __contains__(self, k):
        return self.has(k)

    # ----------------------------------------------------------- iteration
    def item_segs(self):
        """Segs of (key, value), in insertion order, without duplicates."""
        self.read()
        out = []
        if self.base is not None:
            if all(isa(s, Elem) for s in self.segs):
                segs = self.segs
                if not segs:
                    return [self.base.item_gen(lambda k, v: (k, v))]
            raise Unsupported('iterating a modified symbolic dict')
        if all(isa(s, Elem) for s in self.segs):
            items = []
            for s in self.segs:
                op = s.v
                hit = None
                for i, (k, v) in enumerate(items):
                    if truth(_eqx(k, op[1])):
                        hit = i
                        break
                if op[0] == 'set':
                    if hit is None:
                        items.append((op[1], op[2]))
                    else:
                        items[hit] = (items[hit][0], op[2])
                elif hit is not None:
                    del items[hit]
            return [Elem(x) for x in items]
        for s in self.segs:
            if isa(s, Elem):
                if s.v[0] != 'set':
                    raise Unsupported('deletion in generated dict')
                out.append(Elem((s.v[1], s.v[2])))
            else:
                out.append(Gen(s.dom, s.lo, s.hi, lambda t, s=s: _setpairs(s.fn(t)),
                               s.exact, s.rev))
        self._prove_distinct(out)
        return out

    def _prove_distinct(self, segs):
        """Unsupported unless all keys of segs are provably distinct."""
        e = eng()

        def pick(s):
            """[(cond, key)] of a fresh element, constraints"""
            if isa(s, Elem):
                return [z3.BoolVal(True)], [(z3.BoolVal(True), s.v[0])], None
            t = z3.Int(e.fresh_name('dist'))
            return [s.lo <= t, t < s.hi], [(c, x.v[0]) for c, ss in s.fn(t) for x in ss], t
        for i, a in enumerate(segs):
            for j, b in enumerate(segs):
                if j < i or (i == j and isa(a, Elem)):
                    continue
                ca, ka, ta = pick(a)
                cb, kb, tb = pick(b)
                extra = list(ca) + list(cb)
                if i == j:
                    extra.append(ta != tb)
                for t, s in ((ta, a), (tb, b)):
                    if t is not None:
                        for f in e.facts:
                            if f.dom == s.dom:
                                body = f.body(t)
                                body = body[0] if isa(body, tuple) else body
                                g = zand(f.lo <= t, t < f.hi)
                                if f.guard is not None:
                                    g = zand(g, f.guard)
                                extra.append(z3.Implies(g, body))
                for c1, k1 in ka:
                    for c2, k2 in kb:
                        q = _eqx(k1, k2)
                        if q is False:
                            continue
                        if e.query(*extra, c1, c2, bt(q)) != z3.unsat:
                            raise Unsupported('keys of a generated dict may collide')

    def keys(self):
        return DView(self, 'k')

    def values(self):
        return DView(self, 'v')

    def items(self):
        return DView(self, 'i')

    def __iter__(self):
        return iter(SIter(_proj(self.item_segs(), 'k'), [], self).native())

    def __len__(self):
        n = self.length()
        if isa(n, int):
            return n
        raise Unsupported('native len of a symbolic dict')

    def length(self):
        self.read()
        if self.base is None and not all(isa(s, Elem) for s in self.segs):
            if all((isa(s, Elem) and s.v[0] == 'set') or isa(s, Gen) for s in self.segs):
                # emptiness is what matters
                if not segs_nonempty([s if isa(s, Elem) else s for s in self.segs]):
                    return 0
                e = eng()
                L = e.fresh('dcnt', I)
                e.add(L >= 1)
                return mkint(L)
        if self.base is not None and not self.segs:
            return mkint(self.base.n)
        return mkint(segs_len(self.item_segs()))

    def nonempty(self):
        n = self.length()
        if isa(n, int):
            return n > 0
        return eng().decide(n.t > 0)

    def copy(self):
        self.read()
        r = MDict()
        r.__dict__['segs'] = list(self.segs)
        r.__dict__['base'] = self.base
        return r

    def __eq__(self, o):
        return container_eq(self, o)

    def __ne__(self, o):
        return neg(container_eq(self, o))

    __hash__ = MContainer.__hash__

    def __or__(self, o):
        r = self.copy()
        MDict._update(r, o)
        return r

    # ------------------------------------------------------------ mutation
    def __setitem__(self, k, v):
        if isa(k, (MContainer, list, dict, set)):
            raise TypeError('unhashable type')
        self.effect([Elem(('set', k, v))])

    def __delitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        self.effect([Elem(('del', k, None))])

    def _update(self, o):
        if isa(o, SAny):
            o = resolve(o)
        if isa(o, MDict):
            if o.base is not None:
                if o.segs:
                    raise Unsupported('update from a modified symbolic dict')
                segs = [o.base.item_gen(lambda k, v: ('set', k, v))]
            elif all(isa(s, Elem) for s in o.segs):
                segs = [Elem(('set', *s.v)) for s in o.item_segs()]
            else:
                if any(isa(s, Elem) and s.v[0] != 'set' for s in o.segs):
                    raise Unsupported('update from a dict with deletions')
                segs = list(o.segs)
            self.effect(segs)
            return
        if isa(o, dict):
            self.effect([Elem(('set', k, v)) for k, v in o.items()])
            return
        segs = []
        for s in to_segs(o):
            if isa(s, Elem):
                k, v = s.v
                segs.append(Elem(('set', k, v)))
            else:
                segs.append(Gen(s.dom, s.lo, s.hi,
                                lambda t, s=s: [(c, [Elem(('set', x.v[0], x.v[1])) for x in ss])
                                                for c, ss in s.fn(t)], s.exact, s.rev))
        self.effect(segs)

    def update(self, *a, **kw):
        if len(a) > 1:
            raise TypeError(f'update expected at most 1 argument, got {len(a)}')
        if a:
            self._update(a[0])
        for k, v in kw.items():
            self.effect([Elem(('set', k, v))])

    def __ior__(self, o):
        MDict.update(self, o)
        return self

    def pop(self, *d):
        if not d:
            raise TypeError('pop expected at least 1 argument, got 0')
        k, *d = d
        if len(d) > 1:
            raise TypeError(f'pop expected at most 2 arguments, got {len(d) + 1}')
        v = self.lookup(k)
        if v is MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        self.effect([Elem(('del', k, None))])
        return v

    def popitem(self):
        items = self.item_segs()
        if not segs_nonempty(items):
            raise KeyError('popitem(): dictionary is empty')
        n = segs_len(items)
        k, v = segs_at(items, z3.simplify(n - 1))
        self.effect([Elem(('del', k, None))])
        return (k, v)

    def setdefault(self, *a):
        if not a:
            raise TypeError('setdefault expected at least 1 argument, got 0')
        if len(a) > 2:
            raise TypeError(f'setdefault expected at most 2 arguments, got {len(a)}')
        k = a[0]
        d = a[1] if len(a) > 1 else None
        v = self.lookup(k)
        if v is MISSING:
            self.effect([Elem(('set', k, d))])
            return d
        return v

    def clear(self):
        self.__dict__['base'] = None
        self.rewrite([])

    def __repr__(self):
        return f'{type(self).__name__}{self.segs}'


def _setpairs(paths):
    return [(c, [Elem((x.v[1], x.v[2])) for x in ss]) for c, ss in paths]


def _eqx(a, b):
    """Python key equality (is or ==): bool or SBool."""
    if a is b:
        return True
    if not isa(a, Proxy) and not isa(b, Proxy) and not isa(a, Rec) \
            and not isa(b, Rec) and not isa(a, MContainer) and not isa(b, MContainer):
        return a == b
    r = _eq(a, b)
    return r


def _proj(segs, which):
    if which == 'i':
        return segs
    j = 0 if which == 'k' else 1
    out = []
    for s in segs:
        if isa(s, Elem):
            out.append(Elem(s.v[j]))
        else:
            out.append(Gen(s.dom, s.lo, s.hi,
                           lambda t, s=s: [(c, [Elem(x.v[j]) for x in ss]) for c, ss in s.fn(t)],
                           s.exact, s.rev,
                           src=('keys', s.src[1]) if j == 0 and s.src and s.src[0] == 'items'
                           else None))
    return out


def keys_base(y):
    """The symbolic map whose keys, all of them, are the list y; or None."""
    if isa(y, MList) and len(y.segs) == 1 and isa(y.segs[0], Gen):
        g = y.segs[0]
        if g.src and g.src[0] == 'keys' and getattr(g.src[1], 'strkeys', False):
            return g.src[1]
    return None


class DView:
    def __init__(self, d, which):
        self.d, self.which = d, which

    def to_segs(self):
        return _proj(self.d.item_segs(), self.which)

    def __iter__(self):
        return iter(SIter(self.to_segs(), [], self.d).native())

    def length(self):
        return self.d.length()

    def __len__(self):
        return len(self.d)

    def __sub__(self, o):
        from . import hooks
        return hooks.PYLIB.set_diff(MSet(self), o)

    def __and__(self, o):
        from . import hooks
        return hooks.PYLIB.set_and(MSet(self), o)

    def has(self, x):
        if self.which == 'k':
            return self.d.has(x)
        from . import hooks
        return hooks.PYLIB.seq_contains(self, x)


class MSet(MContainer):
    def __init__(self, it=_NOARG):
        self._init()
        self.__dict__['d'] = MDict()
        if it is not _NOARG:
            for s in to_segs(it):
                if isa(s, Elem):
                    self.d.segs.append(Elem(('set', s.v, True)))
                else:
                    self.d.segs.append(Gen(
                        s.dom, s.lo, s.hi,
                        lambda t, s=s: [(c, [Elem(('set', x.v, True)) for x in ss])
                                        for c, ss in s.fn(t)], s.exact, s.rev))

    def clone_empty(self):
        n = type(self).__new__(type(self))
        n._init()
        n.__dict__['d'] = self.d
        return n

    def add(self, x):
        self.d.effect([Elem(('set', x, True))])

    def discard(self, x):
        self.d.effect([Elem(('del', x, None))])

    def remove(self, x):
        if not self.d.has(x):
            raise KeyError(x)
        self.d.effect([Elem(('del', x, None))])

    def update(self, *its):
        for it in its:
            for s in MSet(it).d.segs:
                self.d.effect([s])

    def clear(self):
        self.d.clear()

    def has(self, x):
        return self.d.has(x)

    def __contains__(self, x):
        return self.d.has(x)

    def to_segs(self):
        return _proj(self.d.item_segs(), 'k')

    def __iter__(self):
        return iter(SIter(self.to_segs(), [], self).native())

    def length(self):
        return self.d.length()

    def __len__(self):
        return len(self.d)

    def nonempty(self):
        return self.d.nonempty()

    def copy(self):
        r = MSet()
        r.d.__dict__['segs'] = list(self.d.segs)
        r.d.__dict__['base'] = self.d.base
        return r

    def __sub__(self, o):
        from . import hooks
        return hooks.PYLIB.set_diff(self, o)

    def difference(self, *o):
        r = self
        for x in o:
            r = r - MSet(x)
        return r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    union = __or__

    def __and__(self, o):
        from . import hooks
        return hooks.PYLIB.set_and(self, o)

    def __eq__(self, o):
        raise Unsupported('set equality')

    __hash__ = MContainer.__hash__


class Log(MContainer):
    """Ghost event log."""

    def __init__(self):
        self._init()

    def add(self, *ev):
        self.effect([Elem(tuple(ev))])


# ------------------------------------------------------------- conversions
def to_segs(it):
    """Segments of any iterable."""
    if isa(it, SAny):
        it = resolve(it)
        if it is None or isa(it, (bool, int, float, SInt, SFlt, SBool, SDate, SDateTime)):
            raise TypeError('object is not iterable')
    if isa(it, MList):
        it.read()
        return list(it.segs)
    if isa(it, MDict):
        return _proj(it.item_segs(), 'k')
    if isa(it, (DView, MSet)):
        return it.to_segs()
    if isa(it, SIter):
        return it.materialize()
    if isa(it, (list, tuple, dict, set, frozenset, range)):
        return [Elem(x) for x in it]
    if isa(it, str):
        return [Elem(x) for x in it]
    if isa(it, Log):
        return list(it.segs)
    if isa(it, SRange):
        return it.to_segs()
    if isa(it, SStr):
        return str_segs(it)
    if isa(it, Proxy):
        raise Unsupported(f'iterating {type(it).__name__}')
    if isa(it, (Rec,)):
        raise Unsupported('iterating a record')
    if hasattr(it, '__iter__'):
        return [Elem(x) for x in it]
    raise TypeError(f"'{type(it).__name__}' object is not iterable")


class SRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = iz(lo), iz(hi)

    def to_segs(self):
        e = eng()
        hi = zmax(self.lo, self.hi)
        e.replay_bound.append(hi - self.lo)
        return [Gen(f'range:{self.lo.sexpr()}:{hi.sexpr()}', self.lo, hi,
                    lambda t: [(z3.BoolVal(True), [Elem(mkint(t))])], True)]

    def length(self):
        return mkint(zmax(self.hi - self.lo, z3.IntVal(0)))


class SIter:
    """A lazy iterator: segments and a pipeline of stages."""

    def __init__(self, segs, stages, source=None):
        self.segs, self.stages, self.source = segs, stages, source

    def with_stage(self, st):
        return SIter(self.segs, self.stages + [st], self.source)

    def native(self):
        if not all(isa(s, Elem) for s in self.segs):
            raise Unsupported('native iteration of a symbolic sequence')
        return list(self._concrete())

    def _concrete(self):
        for p, s in enumerate(self.segs):
            ok, v = apply_stages(self.stages, s.v, lambda: p)
            if ok:
                yield v

    def __iter__(self):
        return iter(self.native())

    def __next__(self):
        # Python itself iterating what a repository __iter__ returned
        it = self.__dict__.get('_it')
        if it is None:
            it = self.__dict__['_it'] = iter(self.native())
        return next(it)

    def materialize(self):
        if not self.stages:
            return list(self.segs)
        from . import hooks
        return list(hooks.PYLIB.materialize(self).segs)


def apply_stages(stages, v, pos):
    for kind, f in stages:
        if kind == 'map':
            v = f(v)
        elif kind == 'filter':
            if not truth(f(v)):
                return False, None
        elif kind == 'enum':
            p = pos()
            v = (p + f if not (isa(f, int) and f == 0) else p, v)
    return True, v


def as_iter(it):
    """it as a SIter, or None when plain Python iteration is right."""
    if isa(it, SAny):
        it = resolve(it)
        if it is None or isa(it, (bool, int, float, SInt, SFlt, SBool, SDate, SDateTime)):
            raise TypeError('object is not iterable')
    if isa(it, SIter):
        return it
    if isa(it, (MContainer, DView, SRange)):
        return SIter(to_segs(it), [], it)
    if isa(it, SStr):
        return SIter(str_segs(it), [], it)
    if isa(it, Proxy):
        raise Unsupported(f'iterating {type(it).__name__}')
    return None


def str_segs(s):
    t = s.t
    return [Gen('chars:' + t.sexpr(), z3.IntVal(0), z3.Length(t), lambda i: [
        (z3.BoolVal(True), [Elem(SStr(z3.SubString(t, i, z3.IntVal(1))))])], True)]


def seg_key(x):
    if isa(x, Elem):
        return to_val(x.v).sexpr()
    alts = x.fn(z3.Int('t!key'))
    return f'G({x.dom},{z3.simplify(x.lo).sexpr()},{z3.simplify(x.hi).sexpr()},{x.rev},' + ','.join(
        c.sexpr() + ':' + ';'.join(seg_key(y) for y in ss) for c, ss in alts) + ')'


def seq_key(m):
    """A string term naming the contents of a list, for uninterpreted functions
    of a list: equal terms for equal structure."""
    if m.base is not None and getattr(m, 'segs', None) is None:
        return None
    return z3.StringVal('seq:' + '|'.join(seg_key(x) for x in m.segs))


# ------------------------------------------------------------------- loops
class Poison(Proxy):
    """A loop-carried local whose value the loop rule does not track."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __bool__(self):
        raise Unsupported(f'loop-carried local {self.name}')

    def __eq__(self, o):
        raise Unsupported(f'loop-carried local {self.name}')

    __ne__ = __eq__
    __hash__ = Proxy.__hash__

    def __getattr__(self, n):
        raise Unsupported(f'loop-carried local {self.name}')


class Summary:
    __slots__ = ('pc', 'facts', 'terms', 'effects', 'starts', 'ends', 'uid', 'conj')


def _pos(o):
    if o is None:
        raise Unsupported('position in a filtered sequence')
    return mkint(o)


class LoopNode:
    def __init__(self):
        self.phase = 'summary'
        self.summaries = []
        self.modes = {}
        self.reads = {}
        self.attempt = 0
        self.mod = {}        # var -> list of (start, end) seen modified
        self.tried = {}

    def next_phase(self):
        if self.phase == 'summary':
            if self._update_modes():
                self.attempt += 1
                if self.attempt > 8:
                    raise Unsupported('loop-carried state not inferred')
                self.summaries = []
                self.reads = {}
                self.mod = {}
                return 'summary'
            self.phase = 'exit'
            return 'exit'
        if self.phase == 'exit':
            self.phase = 'after'
            return 'after'
        return None

    def _update_modes(self):
        changed = False
        for v, obs in self.mod.items():
            mode = self.modes.get(v, ('same',))
            new = self._next_mode(v, mode, obs)
            if new != mode:
                self.modes[v] = new
                changed = True
        return changed

    def _next_mode(self, v, mode, obs):
        """obs: list of (entry, start, end, stepok) over normal paths."""
        k = mode[0]
        entry = obs[0][0]
        ends = [o[2] for o in obs if not _same(o[1], o[2])]
        ncand = obs[0][4]
        if k == 'same':
            if not ends:
                return mode
            if isa(entry, (int, SInt)) and not isa(entry, bool) and \
                    all(isa(x, (int, SInt)) and not isa(x, bool) for x in ends):
                return ('affq',)
            consts = [x for x in ends]
            if all(isa(x, (bool, int, str, type(None))) for x in consts) and \
                    len({(type(x), x) for x in consts}) == 1:
                return ('sticky', consts[0])
            if ncand:
                return ('fold', 0)
            return ('poison',)
        if k == 'affq':
            cs = set()
            for o in obs:
                if not isa(o[2], (int, SInt)):
                    cs.add(None)
                    continue
                d = z3.simplify(iz(o[2]) - iz(o[1]))
                cs.add(d.as_long() if z3.is_int_value(d) else None)
            if len(cs) == 1 and None not in cs:
                return ('aff', cs.pop())
            if ncand:
                return ('fold', 0)
            return ('poison',)
        if k == 'aff':
            return mode
        if k == 'sticky':
            c = mode[1]
            if all(_same(o[2], c) or _same(o[2], o[1]) for o in obs):
                return mode
            return ('fold', 0) if ncand else ('poison',)
        if k == 'fold':
            if all(o[3] for o in obs):
                return mode
            if mode[1] + 1 < ncand:
                return ('fold', mode[1] + 1)
            return ('poison',)
        return mode


class LoopFrame:
    """One active loop over a generated segment."""

    def __init__(self, node, phase, uid0):
        self.node, self.phase, self.uid0 = node, phase, uid0


class LoopIter:
    hv = None

    def __init__(self, it, assigned, outside):
        self.it = it
        self.assigned, self.outside = assigned, outside
        self.gen = self._run()
        self.frame = None
        self.locals = None
        self.exhausted = False
        self.depth0 = None

    def __iter__(self):
        return self

    def __next__(self):
        self.locals = sys._getframe(1).f_locals
        try:
            return next(self.gen)
        except StopIteration:
            self.exhausted = True
            raise

    def leave(self):
        """Called when the loop statement is left in any way."""
        fr = self.frame
        if fr is None:
            return
        exc = sys.exc_info()[1]
        if isa(exc, Control):
            return
        e = eng()
        if fr.phase == 'summary':
            raise PathEnd()
        if fr.phase == 'exit':
            self._pop()

    # ------------------------------------------------------------ machinery
    def _push(self, node, phase):
        e = eng()
        fr = LoopFrame(node, phase, e.uid)
        e.loops.append(fr)
        self.frame = fr

    def _pop(self):
        e = eng()
        if self.frame in e.loops:
            del e.loops[e.loops.index(self.frame):]
        self.frame = None

    def _run(self):
        e = eng()
        it = self.it
        off = z3.IntVal(0)       # position of the current segment
        for s in it.segs:
            if isa(s, Elem):
                o = off
                ok, v = apply_stages(it.stages, s.v, lambda: _pos(o))
                if off is not None:
                    off = z3.simplify(off + 1)
                if ok:
                    yield v
                    self.hv = None
                continue
            yield from self._gen(s, off)
            if s.exact and off is not None:
                off = z3.simplify(off + s.size())
            else:
                off = None

    def _elem(self, s, t, off):
        """Yield-able values of base index t after stages: list of thunks."""
        e = eng()
        paths = s.fn(t)
        p = e.choose(len(paths))
        c, ss = paths[p]
        if len(paths) > 1:
            e.add(c)
            e.require_feasible()
        else:
            e.add(c)

        def pos():
            if off is None or not s.exact:
                raise Unsupported('position in a filtered sequence')
            return mkint(off + ((s.hi - 1 - t) if s.rev else (t - s.lo)))
        for x in ss:
            if not isa(x, Elem):
                raise Unsupported('iterating a nested generated segment')
            ok, v = apply_stages(self.it.stages, x.v, pos)
            if ok:
                yield v

    def _gen(self, s, off):
        e = eng()
        if z3.is_true(z3.simplify(s.lo >= s.hi)):
            return
        # the loop node
        if e.pos < len(e.trail):
            d = e.trail[e.pos]
        else:
            d = Decision('summary', [], 'loop', LoopNode())
            e.trail.append(d)
        e.pos += 1
        node = d.data
        phase = d.choice
        entry = {v: self.locals[v] for v in self.assigned if v in self.locals}
        lo, hi = (s.lo, s.hi)
        cnt0 = e.counter
        if phase == 'summary':
            self._push(node, phase)
            t = e.fresh('i', I)
            e.add(lo <= t)
            e.add(t < hi)
            e.require_feasible()
            e.index_stack.append(t)
            npc, nf, nj = len(e.pc), len(e.facts), len(e.journal)
            nterms = {k: len(v) for k, v in e.terms.items()}
            e.add_term(s.dom, t)
            starts = self._starts(node, entry, s, t, phase)
            self.hv = dict(starts)
            for v in self._elem(s, t, off):
                yield v
                self.hv = None
            # the generic iteration completed normally
            sm = Summary()
            sm.pc = list(e.pc[npc:])
            sm.facts = list(e.facts[nf:])
            sm.terms = [(k, x) for k, v in e.terms.items() for x in v[nterms.get(k, 0):]
                        if not x.eq(t)]
            sm.effects = self._effects(e.journal[nj:])
            sm.starts = starts
            sm.ends = {v: self.locals[v] for v in self.assigned if v in self.locals}
            sm.uid = (t, list(e.index_stack[:-1]))
            self._observe(node, entry, starts, sm.ends, s, t)
            node.summaries.append(sm)
            raise PathEnd()
        e.counter = cnt0 + 100000
        # conflict between reads and writes in the generic iteration
        written = {c.uid for sm in node.summaries for c, _ in sm.effects.values()}
        bad = [u for u in node.reads if u in written]
        if bad:
            raise Unsupported('a container is read and written by the same loop')
        if phase == 'exit':
            k = e.fresh('k', I)
            e.add(lo <= k)
            e.add(k < hi)
            e.require_feasible()
            a, b = (lo, k) if not s.rev else (k + 1, hi)
            carried = self._prefix(node, entry, s, a, b, upto=k)
            e.add_term(s.dom, k)
            self._push(node, phase)
            npc = len(e.pc)
            hv = {}
            for v in self.assigned:
                m = node.modes.get(v, ('same',))
                if v in carried:
                    hv[v] = carried[v]
                elif m[0] in ('poison',) or v not in entry:
                    hv[v] = Poison(v)
            self.hv = hv
            for v in self._elem(s, k, off):
                yield v
                self.hv = None
            raise PathEnd()           # completed normally: not the exit index
        # after: every index completed normally
        carried = self._prefix(node, entry, s, lo, hi, upto=None)
        hv = {}
        for v in self.assigned:
            m = node.modes.get(v, ('same',))
            if v in carried:
                hv[v] = carried[v]
            elif v in self.outside:
                if m[0] == 'poison' or v not in entry or v in node.mod_final():
                    r = self._last_writer(node, entry, s, v)
                    if r is not MISSING:
                        hv[v] = r
            elif m[0] == 'poison' or v not in entry:
                hv[v] = Poison(v)
        e.require_feasible()
        self.hv = hv
        self.locals = dict(self.locals)
        self.locals.update(hv)
        return

    def _starts(self, node, entry, s, t, phase):
        e = eng()
        hv = {}
        for v in self.assigned:
            if v not in entry:
                hv[v] = Poison(v)
                continue
            m = node.modes.get(v, ('same',))
            if m[0] == 'same':
                hv[v] = entry[v]
            elif m[0] == 'affq':
                hv[v] = SInt(e.fresh('c_' + v, I))
            elif m[0] == 'aff':
                hv[v] = mkint(iz(entry[v]) + m[1] * self._step(s, t))
            elif m[0] == 'sticky':
                hv[v] = entry[v] if e.choose(2) == 0 else m[1]
            elif m[0] == 'fold':
                hv[v] = self._fold(m, s, t)
            else:
                hv[v] = Poison(v)
        return hv

    def _step(self, s, t):
        return (s.hi - 1 - t) if s.rev else (t - s.lo)

    def _fold(self, m, s, t):
        f = eng().fold_candidates[m[1]]
        if s.rev:
            raise Unsupported('fold over a reversed sequence')
        return f(mkint(t))

    def _effects(self, journal):
        e = eng()
        fr = self.frame
        out = {}
        for c, op, segs in journal:
            if c.uid > fr.uid0:
                continue
            if op != 'app':
                raise Unsupported('a loop modifies a container other than by appending')
            out.setdefault(c.uid, (c, []))[1].extend(segs)
        return out

    def _observe(self, node, entry, starts, ends, s, t):
        e = eng()
        nc = len(e.fold_candidates)
        for v in self.assigned:
            if v not in entry:
                continue
            st, en = starts[v], ends.get(v, MISSING)
            m = node.modes.get(v, ('same',))
            if m[0] == 'poison':
                continue
            ok = True
            if m[0] == 'fold':
                ok = self._fold_step_ok(m, entry[v], en, s, t)
            node.mod.setdefault(v, []).append((entry[v], st, en, ok, nc))

    def _fold_step_ok(self, m, entry, en, s, t):
        e = eng()
        f = e.fold_candidates[m[1]]
        try:
            q0 = bt(same_value(entry, f(mkint(s.lo))))
            q1 = bt(same_value(en, f(mkint(t + 1))))
        except Unsupported:
            return False
        if e.query(z3.Not(q0), ms=e.oblig_ms) != z3.unsat:
            return False
        return e.query(z3.Not(q1), ms=e.oblig_ms) == z3.unsat

    # ---- facts of completed iterations and their effects
    def _path_cond(self, sm, pairs, j, loopkey):
        return subst(pc_of(sm), pairs)

    def _region(self, node, s, a, b, sms):
        """Assume every base index in [a,b) completed along one of sms; apply
        the effects. Returns nothing."""
        e = eng()
        if z3.is_true(z3.simplify(a >= b)):
            return
        outer = list(e.index_stack)
        if not sms:
            e.add(a >= b)
            return
        name = e.fresh_name('sel')
        nested = any(sm.facts for sm in sms)

        def cond(j, t):
            sm = sms[j]
            if nested and len(sms) > 1:
                f = z3.Function(f'{name}_{j}', *([I] * (len(outer) + 1)), B)
                return f(*outer, t)
            return subst(pc_of(sm), [(sm.uid[0], t)])

        def body(t):
            cs, nest = [], []
            for j, sm in enumerate(sms):
                pairs = [(sm.uid[0], t)]
                pcj = subst(pc_of(sm), pairs)
                cj = cond(j, t)
                cs.append(zand(cj, pcj))
                for f in sm.facts:
                    nest.append((cj, Fact(f.dom, subst(f.lo, pairs), subst(f.hi, pairs),
                                          _fact_subst(f, pairs),
                                          None if f.guard is None else subst(f.guard, pairs))))
            return (zor(*cs), nest)
        e.add_fact(s.dom, a, b, body)
        conts = {}
        for sm in sms:
            for u, (c, _) in sm.effects.items():
                conts[u] = c
        for u in sorted(conts):
            c = self._live(conts[u])
            exact = all(u in sm.effects and len(sm.effects[u][1]) == 1
                        and isa(sm.effects[u][1][0], Elem) for sm in sms)
            exact = exact and len(sms) == 1

            def fn(t, u=u):
                out = []
                for j, sm in enumerate(sms):
                    pairs = [(sm.uid[0], t)]
                    memo = {}
                    segs = sm.effects[u][1] if u in sm.effects else []
                    out.append((cond(j, t), [subst(x, pairs, memo) for x in segs]))
                return out
            g = Gen(s.dom, a, b, fn, exact, s.rev)
            if not z3.is_true(z3.simplify(g.lo == g.hi)):
                c.effect([g])

    def _live(self, c):
        """The container of the current execution with the uid of c."""
        e = eng()
        r = e.containers.get(c.uid)
        if r is None:
            raise Unsupported('container of a loop summary not found')
        return r

    def _prefix(self, node, entry, s, a, b, upto):
        """State after base indices [a,b) completed (in iteration order)."""
        e = eng()
        carried = {}
        sticky = [v for v in self.assigned
                  if node.modes.get(v, ('same',))[0] == 'sticky' and v in entry]
        for v in self.assigned:
            if v not in entry:
                continue
            m = node.modes.get(v, ('same',))
            if m[0] == 'aff':
                carried[v] = mkint(iz(entry[v]) + m[1] * z3.simplify(b - a))
            elif m[0] == 'fold':
                if upto is None:
                    e.add(a <= b)
                carried[v] = self._fold(m, s, b)
        if not sticky:
            self._region(node, s, a, b, node.summaries)
            return carried
        if len(sticky) > 1 or s.rev:
            raise Unsupported('several sticky flags in one loop')
        v = sticky[0]
        c = node.modes[v][1]

        def pick(st, en):
            return [sm for sm in node.summaries
                    if _same(sm.starts[v], st) and _same(sm.ends[v], en)]
        x = entry[v]
        if _same(x, c):
            self._region(node, s, a, b, pick(c, c))
            carried[v] = c
            return carried
        if e.choose(2) == 0:
            self._region(node, s, a, b, pick(x, x))
            carried[v] = x
            return carried
        w = e.new_index(s.dom, a, b, 'w')
        self._region(node, s, a, w, pick(x, x))
        self._region(node, s, w, z3.simplify(w + 1), pick(x, c))
        self._region(node, s, z3.simplify(w + 1), b, pick(c, c))
        e.require_feasible()
        carried[v] = c
        return carried

    def _last_writer(self, node, entry, s, v):
        """Value of v after the loop: the last iteration that wrote it."""
        e = eng()
        lo, hi = s.lo, s.hi
        wr = [sm for sm in node.summaries if v in sm.ends and
              not _same(sm.ends[v], sm.starts.get(v)) and not isa(sm.ends[v], Poison)]
        nw = [sm for sm in node.summaries if sm not in wr]

        def cond(sms, t):
            return zor(*[subst(pc_of(sm), [(sm.uid[0], t)]) for sm in sms])
        if e.choose(2) == 0:
            if nw:
                e.add_fact(s.dom, lo, hi, lambda t: cond(nw, t))
            else:
                e.add(lo >= hi)
            e.require_feasible()
            return entry.get(v, MISSING)
        if not wr:
            raise PathEnd()
        w = e.new_index(s.dom, lo, hi, 'w')
        a, b = (lo, w) if s.rev else (w + 1, hi)
        if nw:
            e.add_fact(s.dom, a, b, lambda t: cond(nw, t))
        else:
            e.add(a >= b)
        sm = wr[e.choose(len(wr))]
        for c in sm.pc:
            e.add(subst(c, [(sm.uid[0], w)]))
        e.require_feasible()
        return subst(sm.ends[v], [(sm.uid[0], w)])


def _fact_subst(f, pairs):
    def body(t):
        b = f.body(t)
        if b is None:
            return None
        if isa(b, tuple):
            q, nest = b
            return (subst(q, pairs),
                    [(None if g is None else subst(g, pairs),
                      Fact(nf.dom, subst(nf.lo, pairs), subst(nf.hi, pairs),
                           _fact_subst(nf, pairs),
                           None if nf.guard is None else subst(nf.guard, pairs)))
                     for g, nf in nest])
        return subst(b, pairs)
    return body


def _mod_final(self):
    return {v for v, m in self.modes.items() if m[0] == 'poison'}


LoopNode.mod_final = _mod_final


class PlainLoop:
    """Loop over an ordinary Python iterable."""
    hv = None

    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self.it

    def leave(self):
        pass


def loop(it, assigned=(), outside=()):
    if core.ENG is None:
        return PlainLoop(it)
    si = as_iter(it)
    if si is None:
        return PlainLoop(it)
    if all(isa(x, Elem) for x in si.segs) and not si.stages:
        # concrete structure: ordinary iteration over a live view
        src = si.source
        if isa(src, MList):
            return PlainLoop(_live_iter(src))
        return PlainLoop([x.v for x in si.segs])
    return LoopIter(si, assigned, outside)


def _live_iter(lst):
    """List iteration observes mutation, as in Python."""
    i = 0
    while True:
        if not lst.concrete():
            raise Unsupported('list became symbolic while iterated')
        if i >= len(lst.segs):
            return
        yield lst.segs[i].v
        i += 1


def loop_over(x):
    """For engine-internal loops (first element only)."""
    from . import hooks
    return hooks.PYLIB.first_list(x)


# ---------------------------------------------------------------- equality
def same_value(a, b):
    """Semantic identity used by contracts: same kind and same value, objects
    by identity, containers structurally. bool or SBool."""
    if a is b:
        return True
    if isa(a, (tuple,)) and isa(b, tuple):
        if len(a) != len(b):
            return False
        r = z3.BoolVal(True)
        for x, y in zip(a, b):
            q = same_value(x, y)
            if q is False:
                return False
            r = zand(r, bt(q))
        return mkbool(r)
    if isa(a, Rec) or isa(b, Rec):
        return vals.rec_is(a, b)
    if isa(a, SEnum) or isa(b, SEnum):
        return _eq(a, b)
    if isa(a, (MContainer, list, dict)) or isa(b, (MContainer, list, dict)):
        if isa(a, SAny) or isa(b, SAny):
            return mkbool(to_val(a) == to_val(b))
        return struct_same(a, b)
    if isa(a, (SDate, SDateTime)) or isa(b, (SDate, SDateTime)):
        return vals.date_eq(vals.resolve(a), vals.resolve(b))
    return mkbool(to_val(a) == to_val(b))


def _segs_of(x):
    if isa(x, MDict):
        if x.base is not None:
            return None
        return x.segs
    if isa(x, MList):
        return x.segs
    if isa(x, list):
        return [Elem(v) for v in x]
    if isa(x, dict):
        return [Elem(('set', k, v)) for k, v in x.items()]
    return None


def struct_same(a, b):
    """Sufficient condition for equal containers (same construction)."""
    ka = isa(a, (MDict, dict))
    kb = isa(b, (MDict, dict))
    la = isa(a, (MList, list))
    lb = isa(b, (MList, list))
    if not ((ka and kb) or (la and lb)):
        return False
    if isa(a, MDict) and isa(b, MDict) and (a.base is not None or b.base is not None):
        if a.base is not b.base and (a.src_oid is None or b.src_oid is None
                                     or not a.src_oid.eq(b.src_oid)):
            return False
    x = a.segs if isa(a, MContainer) else _segs_of(a)
    y = b.segs if isa(b, MContainer) else _segs_of(b)
    if ka and all(isa(s, Elem) for s in x) and all(isa(s, Elem) for s in y) \
            and getattr(a, 'base', None) is None and getattr(b, 'base', None) is None:
        return dict_items_same(a, b)
    return segs_same(x, y)


def dict_items_same(a, b):
    da = a if isa(a, MDict) else MDict(a)
    db = b if isa(b, MDict) else MDict(b)
    x = [s.v for s in da.item_segs()]
    y = [s.v for s in db.item_segs()]
    if len(x) != len(y):
        return False
    r = z3.BoolVal(True)
    used = set()
    for k, v in x:
        for j, (k2, v2) in enumerate(y):
            if j not in used and truth(_eqx(k, k2)):
                used.add(j)
                r = zand(r, bt(same_value(v, v2)))
                break
        else:
            return False
    return mkbool(r)


def norm_segs(segs):
    """Drop segments known to be empty, merge nothing."""
    e = eng()
    out = []
    for s in segs:
        if isa(s, Gen):
            if z3.is_true(z3.simplify(s.lo >= s.hi)):
                continue
            if e.query(s.lo < s.hi) == z3.unsat:
                continue
            if not s.exact:
                # no contribution on any path?
                t = e.fresh('nz', I)
                paths = s.fn(t)
                if all(not ss for c, ss in paths):
                    continue
                e.add_term(s.dom, t)
                rng = zand(s.lo <= t, t < s.hi)
                if all(not ss or e.query(rng, c) == z3.unsat for c, ss in paths):
                    continue
        out.append(s)
    return out


def segs_same(x, y):
    """bool/SBool: the sequences are equal (sufficient condition)."""
    e = eng()
    x, y = norm_segs(x), norm_segs(y)
    x, y = unfold_pair(x, y)
    if len(x) != len(y):
        return False
    r = z3.BoolVal(True)
    for s, u in zip(x, y):
        if isa(s, Elem) and isa(u, Elem):
            q = same_value(s.v, u.v)
            if q is False:
                return False
            r = zand(r, bt(q))
        elif isa(s, Gen) and isa(u, Gen):
            q = gen_same(s, u)
            if q is False:
                return False
            r = zand(r, bt(q))
        else:
            return False
    return mkbool(r)


def unfold_pair(x, y):
    """Align singleton generated segments with elements and split generated
    segments at common boundaries."""
    e = eng()

    def single(s, other):
        if isa(s, Gen) and e.query(s.hi - s.lo != 1) == z3.unsat:
            paths = s.fn(e.add_term(s.dom, s.lo))
            if len(paths) > 1:
                p = e.choose(len(paths))
            else:
                p = 0
            e.add(paths[p][0])
            e.require_feasible()
            return list(paths[p][1])
        return [s]
    has_elem_x = any(isa(s, Elem) for s in x)
    has_elem_y = any(isa(s, Elem) for s in y)
    if [type(s) for s in x] != [type(s) for s in y] or len(x) != len(y):
        nx, ny = [], []
        for s in x:
            nx.extend(single(s, y))
        for s in y:
            ny.extend(single(s, x))
        x, y = nx, ny
    # split gens: pairwise walk
    ox, oy = [], []
    x, y = list(x), list(y)
    guard = 0
    while x and y and guard < 50:
        guard += 1
        s, u = x[0], y[0]
        if isa(s, Gen) and isa(u, Gen) and s.dom == u.dom \
                and s.rev == u.rev and not s.rev:
            if e.query(s.hi != u.hi) == z3.unsat:
                ox.append(x.pop(0))
                oy.append(y.pop(0))
                continue
            if e.query(z3.Not(u.hi <= s.hi)) == z3.unsat and len(y) > 1:
                x[0:1] = [_cut(s, s.lo, u.hi), _cut(s, u.hi, s.hi)]
                continue
            if e.query(z3.Not(s.hi <= u.hi)) == z3.unsat and len(x) > 1:
                y[0:1] = [_cut(u, u.lo, s.hi), _cut(u, s.hi, u.hi)]
                continue
        ox.append(x.pop(0))
        oy.append(y.pop(0))
    ox.extend(x)
    oy.extend(y)
    return ox, oy


def _cut(g, a, b):
    return Gen(g.dom, a, b, g.fn, g.exact, g.rev, g.distinct)


def gen_same(s, u):
    """Equality of two generated segments by a generic base index."""
    e = eng()
    if s.dom != u.dom or s.rev != u.rev:
        # exact sequences of equal length: compare by position
        if s.exact and u.exact:
            if not e.decide(s.size() == u.size()):
                return False
            p = e.fresh('p', I)
            pn = z3.And(0 <= p, p < s.size())
            e.replay_bound.append(s.size())
            a, b = s.at(p), u.at(p)
            return mkbool(z3.Implies(pn, bt(same_value(a, b))))
        return False
    r = zand(s.lo == u.lo, s.hi == u.hi)
    t = e.fresh('g', I)
    e.add_term(s.dom, t)
    rng = zand(s.lo <= t, t < s.hi)
    cs = []
    for c1, a in s.fn(t):
        for c2, b in u.fn(t):
            if len(a) != len(b):
                q = False
            else:
                q = True
                for p1, p2 in zip(a, b):
                    if isa(p1, Elem) and isa(p2, Elem):
                        w = same_value(p1.v, p2.v)
                    elif isa(p1, Gen) and isa(p2, Gen):
                        w = gen_same(p1, p2)
                    else:
                        w = False
                    q = mkbool(zand(bt(q), bt(w)))
            cs.append(z3.Implies(zand(c1, c2), bt(q)))
    return mkbool(zand(r, z3.Implies(rng, zand(*cs))))


def container_eq(a, b):
    """Python == of containers; forks."""
    e = eng()
    if isa(a, SAny):
        a = resolve(a)
    if isa(b, SAny):
        b = resolve(b)
    if isa(a, (MList, list)) and isa(b, (MList, list)):
        x = a.segs if isa(a, MList) else [Elem(v) for v in a]
        y = b.segs if isa(b, MList) else [Elem(v) for v in b]
        for c in (a, b):
            if isa(c, MList):
                c.read()
        if a is b:
            return True
        cx = all(isa(s, Elem) for s in x)
        cy = all(isa(s, Elem) for s in y)
        if cx and cy:
            if len(x) != len(y):
                return False
            r = z3.BoolVal(True)
            for s, u in zip(x, y):
                r = zand(r, bt(_eqx(s.v, u.v)))
            return mkbool(r)
        if not exact_segs(x) or not exact_segs(y):
            raise Unsupported('== of filtered sequences')
        n, m = segs_len(x), segs_len(y)
        if not e.decide(n == m):
            return False
        if cx or cy:
            c, o = (x, y) if cx else (y, x)
            r = z3.BoolVal(True)
            for i, s in enumerate(c):
                r = zand(r, bt(_eqx(s.v, segs_at(o, z3.IntVal(i)))))
            return mkbool(r)
        if len(x) == 1 and len(y) == 1:
            s, u = x[0], y[0]
            if e.choose(2) == 0:
                # equal everywhere
                dom = s.dom

                def body(t, s=s, u=u):
                    p = (s.hi - 1 - t) if s.rev else (t - s.lo)
                    a1 = s.fn(t)[0][1][0].v
                    ut = (u.hi - 1 - p) if u.rev else (u.lo + p)
                    a2 = u.fn(z3.simplify(ut))[0][1][0].v
                    return bt(_eqx(a1, a2))

                def body2(t, s=s, u=u):
                    p = (u.hi - 1 - t) if u.rev else (t - u.lo)
                    a2 = u.fn(t)[0][1][0].v
                    st = (s.hi - 1 - p) if s.rev else (s.lo + p)
                    a1 = s.fn(z3.simplify(st))[0][1][0].v
                    return bt(_eqx(a1, a2))
                e.add_fact(s.dom, s.lo, s.hi, body)
                e.add_fact(u.dom, u.lo, u.hi, body2)
                e.require_feasible()
                return True
            p = e.fresh('ne', I)
            e.add(0 <= p)
            e.add(p < n)
            e.add(z3.Not(bt(_eqx(s.at(p), u.at(p)))))
            e.require_feasible()
            return False
        raise Unsupported('== of composite symbolic sequences')
    if isa(a, (MDict, dict)) and isa(b, (MDict, dict)):
        da = a if isa(a, MDict) else MDict(a)
        db = b if isa(b, MDict) else MDict(b)
        if a is b:
            return True
        if da.base is not None or db.base is not None or not da.concrete() or not db.concrete():
            if da.base is not None and db.base is None and db.concrete() and not da.segs:
                n = segs_len(db.item_segs())
                if not e.decide(da.base.n == n):
                    return False
                for s in db.item_segs():
                    v = da.lookup(s.v[0])
                    if v is MISSING or not truth(_eqx(v, s.v[1])):
                        return False
                return True
            if db.base is not None and da.base is None:
                return container_eq(db, da)
            raise Unsupported('== of symbolic dicts')
        x = [s.v for s in da.item_segs()]
        y = [s.v for s in db.item_segs()]
        if len(x) != len(y):
            return False
        r = z3.BoolVal(True)
        for k, v in x:
            w = db.lookup(k)
            if w is MISSING:
                return False
            r = zand(r, bt(_eqx(v, w)))
        return mkbool(r)
    if isa(a, (SOpaque, Rec)) or isa(b, (SOpaque, Rec)):
        raise Unsupported('== of container and object')
    return False

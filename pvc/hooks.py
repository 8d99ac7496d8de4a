"""Run-time of the instrumented code: every operation the instrumentation
routes here behaves natively when no engine is active, and symbolically when
one is."""
from __future__ import annotations
import builtins as _b
import copy as _copy
import datetime as _dt
import enum as _enum
import functools as _ft
import inspect as _inspect
import re as _re
import types as _types
import z3
from . import core, rx
from .core import Unsupported, Control, zand, zor, isa
from . import vals, seqs
from .vals import (Proxy, SBool, SInt, SFlt, SStr, SAny, SEnum, SDate, SDateTime, SOpaque,
                   SType, Rec, Thunk, Val, I, B, S, KIND, K_LIST, K_DICT, mkbool, mkint, mkstr,
                   neg, num_term, resolve, truth, to_val, sterm, pytype, tag_cond)
from .seqs import (MContainer, MList as Mlist, MDict as Mdict, MSet as Mset, Elem, Gen, SIter,
                   SRange, DView, Log, loop, to_segs, as_iter, _eqx, MISSING, Poison, bt)

import os as _os
if _os.environ.get('PVC_NATIVE'):
    # the instrumentation alone, over the native containers (self-test)
    Mlist, Mdict, Mset = list, dict, set

PYLIB = None
PACKAGES = ('jsonclasses', 'contracts', 'pvc')


def symbolic(x):
    return isa(x, (Proxy, MContainer, Rec, SIter, DView, SRange))


def deep_symbolic(x, d=0):
    if symbolic(x):
        return True
    if d > 3:
        return False
    if isa(x, (tuple, list, set, frozenset)):
        return any(deep_symbolic(y, d + 1) for y in x)
    if isa(x, dict):
        return any(deep_symbolic(y, d + 1) for y in x.values())
    if isa(x, _types.MethodType):
        return deep_symbolic(x.__self__, d + 1)
    return False


def nativize(x):
    """Containers of concrete structure as native ones; proxies left."""
    if isa(x, Mlist) and type(x) is Mlist:
        return [nativize(y) for y in x.native()]
    if type(x) is Mdict:
        return {nativize(k): nativize(v) for k, v in [s.v for s in _conc(x.item_segs())]}
    if type(x) is Mset:
        return {nativize(v) for v in [s.v for s in _conc(x.to_segs())]}
    if isa(x, SIter):
        return [nativize(y) for y in x.native()]
    if isa(x, DView):
        return [nativize(s.v) for s in _conc(x.to_segs())]
    if isa(x, SEnum):
        return x.concretize()
    if type(x) is tuple:
        return tuple(nativize(y) for y in x)
    return x


def _conc(segs):
    if not all(isa(s, Elem) for s in segs):
        raise Unsupported('native use of a symbolic container')
    return segs


# ------------------------------------------------------------------- call
CALLS = {}


def handles(*fs):
    def d(h):
        for f in fs:
            CALLS[f] = h
        return h
    return d


def _in_package(f):
    m = getattr(f, '__module__', None)
    return isa(m, str) and m.split('.')[0] in PACKAGES


def call(f, /, *a, **k):
    e = core.ENG
    if e is None:
        return f(*a, **k)
    t = type(f)
    if t is _types.FunctionType:
        sub = e.contracts.get(f)
        if sub is not None:
            return sub(*a, **k)
        if _in_package(f):
            if f.__module__.startswith('jsonclasses'):
                e.functions.add(f'{f.__module__}.{f.__qualname__}')
            return f(*a, **k)
    elif t is _types.MethodType:
        fn = f.__func__
        sub = e.contracts.get(fn)
        if sub is not None:
            return sub(f.__self__, *a, **k)
        if _in_package(fn):
            if fn.__module__.startswith('jsonclasses'):
                e.functions.add(f'{fn.__module__}.{fn.__qualname__}')
            return f(*a, **k)
    elif isa(f, SAny):
        return call(resolve(f), *a, **k)
    if not isa(f, type) and t.__name__ in (
            'GenericAlias', '_GenericAlias'):
        return call(f.__origin__, *a, **k)
    try:
        h = CALLS.get(f)
    except (TypeError, Unsupported):
        h = None
    if h is not None:
        return h(*a, **k)
    if isa(f, type):
        if f in (Mlist, Mdict, Mset):
            return f(*a, **k)
        if issubclass(f, BaseException) and not _in_package(f):
            return f(*a, **k)
        if issubclass(f, _enum.Enum):
            return _enum_call(f, *a, **k)
        if _in_package(f) or getattr(f, '__pvc_local__', False):
            return new_object(f, *a, **k)
    if t is _types.BuiltinMethodType or isa(f, (_types.BuiltinFunctionType,
                                                       _types.MethodWrapperType)):
        s = f.__self__
        if s is not None and not isa(s, _types.ModuleType):
            return builtin_method(s, f, a, k)
    elif isa(f, (_types.WrapperDescriptorType, _types.MethodDescriptorType)):
        if a and isa(a[0], MContainer):
            # list.__setitem__(x, ...): the base class's method, not an override
            b = {list: Mlist, dict: Mdict, set: Mset}.get(f.__objclass__)
            if b is not None and isa(a[0], b):
                return getattr(b, f.__name__)(*a, **k)
    elif isa(f, (Rec,)) or t.__module__.split('.')[0] in PACKAGES:
        return f(*a, **k)
    if not any(deep_symbolic(x) for x in a) and not any(deep_symbolic(x) for x in k.values()):
        return f(*a, **k)
    a2 = [nativize(x) for x in a]
    k2 = {n: nativize(x) for n, x in k.items()}
    if any(deep_symbolic(x) for x in a2) or any(deep_symbolic(x) for x in k2.values()):
        raise Unsupported(f'call of {getattr(f, "__qualname__", f)} with symbolic arguments')
    return f(*a2, **k2)


def new_object(cls, /, *a, **k):
    e = core.ENG
    sub = e.contracts.get(cls)
    if sub is not None:
        return sub(*a, **k)
    if type(cls).__call__ is not type.__call__ or issubclass(cls, (tuple, MContainer)):
        return cls(*a, **k)
    n = cls.__new__
    if n is object.__new__:
        o = n(cls)
    else:
        o = n(cls, *a, **k)
    if isa(o, cls):
        own(o)
        i = cls.__init__
        if isa(i, _types.FunctionType):
            sub = e.contracts.get(i)
            if sub is not None:
                sub(o, *a, **k)
                return o
            if i.__module__ and i.__module__.startswith('jsonclasses'):
                e.functions.add(f'{i.__module__}.{i.__qualname__}')
        if i is object.__init__:
            if (a or k) and n is object.__new__:
                raise TypeError(f'{cls.__name__}() takes no arguments')
        else:
            i(o, *a, **k)
    return o


def own(o):
    e = core.ENG
    if e is not None:
        e.objuid[id(o)] = (e.next_uid(), o)
    return o


def _enum_call(f, /, *a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if symbolic(x):
            x = resolve(x)
            for m in f:
                if truth(_eqx(x, m.value)) or is_true(is_(x, m)):
                    return m
            raise ValueError(f'not a valid {f.__name__}')
    return f(*a, **k)


@handles(_copy.deepcopy)
def _deepcopy(x, memo=None):
    """Atomic values are themselves; containers and plain objects are copied
    part by part, shared parts once."""
    memo = {} if memo is None or not isa(memo, dict) else memo
    if isa(x, SAny):
        x = resolve(x)
    if isa(x, (SOpaque, Rec)):
        raise Unsupported('deepcopy of an opaque object')
    if id(x) in memo:
        return memo[id(x)][0]
    if isa(x, (list, Mlist)) and type(x) in (list, Mlist):
        segs = to_segs(x)
        r = Mlist()
        memo[id(x)] = (r, x)
        r.__dict__['segs'].extend([Elem(_deepcopy(s.v, memo)) for s in _conc(segs)])
        return r
    if type(x) is dict:
        r = Mdict({})
        memo[id(x)] = (r, x)
        for k, v in x.items():
            r[k] = _deepcopy(v, memo)
        return r
    if type(x) is tuple:
        return tuple(_deepcopy(y, memo) for y in x)
    if isa(x, Proxy):
        if isa(x, (Mlist, Mdict, Mset)):
            raise Unsupported('deepcopy of a symbolic container')
        return x
    t = type(x)
    if isa(x, (type, _enum.Enum, _types.FunctionType, _types.BuiltinFunctionType)) or x is None:
        return x
    if _in_package(t) and '__dict__' in dir(x) and not hasattr(t, '__deepcopy__') \
            and t.__reduce_ex__ is object.__reduce_ex__ and t.__new__ is object.__new__:
        r = object.__new__(t)
        memo[id(x)] = (r, x)
        own(r)
        for k, v in list(vars(x).items()):
            object.__setattr__(r, k, _deepcopy(v, memo))
        return r
    return _copy.deepcopy(x, memo.setdefault('native', {}))


def is_true(x):
    return truth(x)


MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse',
            'update', 'setdefault', 'popitem', 'add', 'discard', '__setitem__', '__delitem__',
            '__iadd__', '__ior__', '__imul__'}


def builtin_method(s, f, a, k):
    n = f.__name__
    if n == '__setattr__' and len(a) == 2 and not isa(s, type):
        return obj_setattr(s, *a)
    sym = any(deep_symbolic(x) for x in a) or any(deep_symbolic(x) for x in k.values())
    if isa(s, (list, dict, set)) and n in MUTATORS and not core.ENG.class_writes:
        raise Unsupported(f'mutation of a shared {type(s).__name__}')
    if isa(s, type):
        if s is dict and n == 'fromkeys':
            if sym:
                return PYLIB.fromkeys(*a)
            return Mdict(f(*a, **k))
        if not sym:
            return f(*a, **k)
    if isa(s, slice) and n == 'indices':
        if sym or deep_symbolic((s.start, s.stop, s.step)):
            return PYLIB.slice_indices(s.start, s.stop, s.step, *a)
        return f(*a)
    if not sym or isa(s, BaseException):
        return f(*a, **k)
    if isa(s, str):
        if n == 'join':
            return str_join(s, a[0])
        a = [nativize(x) for x in a]
        if not any(deep_symbolic(x) for x in a) and not k:
            return f(*a)
        return getattr(SStr(z3.StringVal(s)), n)(*a, **k)
    if isa(s, dict):
        return getattr(Mdict(s), n)(*a, **k)
    if isa(s, (list, tuple)):
        return getattr(Mlist(s), n)(*a, **k)
    if isa(s, (set, frozenset)):
        return getattr(Mset(s), n)(*a, **k)
    raise Unsupported(f'{type(s).__name__}.{n} with symbolic arguments')


def str_join(sep, it):
    segs = to_segs(it)
    if not all(isa(x, Elem) for x in segs):
        return vals.str_join(SStr(sterm(sep)), it)
    out = None
    for x in segs:
        v = resolve(x.v)
        if sterm(v) is None:
            raise TypeError('sequence item: expected str instance')
        out = v if out is None else out + sep + v
    return '' if out is None else out


# ------------------------------------------------------------- conversions
def _oneof(x, cs):
    r = zor(*[bt(isinstance_(x, c)) for c in cs])
    return mkbool(r)


def inst_pred(c):
    return z3.Function(f'inst_{c.__module__}.{c.__qualname__}', I, B)


@handles(isinstance)
def isinstance_(x, c):
    if isa(c, _types.UnionType):
        c = c.__args__
    if isa(c, tuple):
        return _oneof(x, c)
    if isa(x, SEnum):
        return _oneof2([isinstance(m, c) for m in x.members], x)
    if isa(x, SAny):
        if c in (Mlist, Mdict, Mset):
            c = {Mlist: list, Mdict: dict, Mset: set}[c]
        t = tag_cond(x.t, c, exact=False)
        if t is not None:
            return mkbool(t)
        import collections.abc as cabc
        if c in (cabc.Callable,):
            raise Unsupported('isinstance Callable')
        if isa(c, type) and issubclass(c, (MContainer, list, dict)):
            return False        # values drawn by contracts are plain containers
        o = Val.o(x.t)
        return mkbool(zand(Val.is_vobj(x.t), zor(KIND(o) == vals.K_OPAQUE, KIND(o) == vals.K_JOBJ,
                                                KIND(o) == vals.K_ENUM), inst_pred(c)(o)))
    if isa(x, SOpaque):
        if c is object:
            return True
        if tag_cond(Val.none, c, False) is not None:
            return False
        return mkbool(inst_pred(c)(x.o))
    if isa(x, Rec):
        h = x.__dict__['_r_attrs'].get('*isinstance*')
        if h is not None:
            r = h(c)
            if r is not None:
                return r
        k = x._r_class()
        if k is None:
            raise Unsupported('isinstance of a record')
        return issubclass(k, c)
    if isa(x, SType):
        return c is type or c is object
    if isa(x, (SBool, SInt, SFlt, SStr, SDate, SDateTime)):
        return issubclass(pytype(x), c) if isa(c, type) else False
    if isa(x, MContainer):
        if c is list:
            return isa(x, Mlist)
        if c is dict:
            return isa(x, Mdict)
        if c is set:
            return isa(x, Mset)
        import collections.abc as cabc
        if c in (cabc.Iterable, cabc.Sized, cabc.Container, cabc.Collection):
            return True
        if c in (cabc.Mapping, cabc.MutableMapping):
            return isa(x, Mdict)
        if c in (cabc.Sequence, cabc.MutableSequence):
            return isa(x, Mlist)
        return isinstance(x, c)
    if isa(x, Proxy):
        raise Unsupported(f'isinstance of {type(x).__name__}')
    if isa(c, type) and c in (Mlist, Mdict, Mset):
        return isa(x, (c, {Mlist: list, Mdict: dict, Mset: set}[c]))
    return isinstance(x, c)


def _oneof2(bs, x):
    return mkbool(zor(*[x.t == i for i, b in enumerate(bs) if b]))


@handles(issubclass)
def issubclass_(c, d):
    if isa(c, SType):
        c = pytype(resolve(c.v))
    return issubclass(c, d)


@handles(type)
def type_(x, *a):
    if a:
        return type(x, *[nativize(y) if isa(y, Mdict) else y for y in a])
    if isa(x, SAny):
        return SType(x)
    if isa(x, SEnum):
        return type(x.concretize())
    if isa(x, (Proxy, MContainer, Rec)):
        return pytype(x)
    return type(x)


@handles(callable)
def callable_(x):
    if isa(x, Rec):
        h = x.__dict__['_r_attrs'].get('*callable*')
        if h is None:
            return '__call__' in x.__dict__['_r_attrs']
        return h() if isa(h, _types.FunctionType) else h
    if isa(x, SAny):
        o = Val.o(x.t)
        return mkbool(zand(Val.is_vobj(x.t), KIND(o) == vals.K_OPAQUE,
                           z3.Function('callable', I, B)(o)))
    if isa(x, SOpaque):
        return mkbool(z3.Function('callable', I, B)(x.o))
    if isa(x, (Proxy, MContainer)):
        return False
    return callable(x)


@handles(len)
def len_(x):
    x = resolve(x)
    if isa(x, SStr):
        return x.length()
    if isa(x, (MContainer, DView, SRange)):
        f = type(x).__len__
        if isa(x, MContainer) and f not in (Mlist.__len__, Mdict.__len__, Mset.__len__):
            return f(x)
        return x.length()
    if isa(x, Rec):
        return getattr(x, '__len__')()
    if isa(x, (SInt, SFlt, SBool, SDate, SDateTime)):
        raise TypeError(f'object of type {pytype(x).__name__} has no len()')
    if isa(x, SOpaque):
        raise Unsupported('len of an opaque object')
    if isa(x, SIter):
        raise TypeError('object of type generator has no len()')
    return len(x)


@handles(bool)
def bool_(x=False):
    if isa(x, SBool):
        return x
    return truth(x)


@handles(list)
def list_(*a):
    if not a:
        return Mlist()
    return Mlist(a[0])


@handles(tuple)
def tuple_(*a):
    if not a:
        return ()
    segs = to_segs(a[0])
    if all(isa(s, Elem) for s in segs):
        return tuple(s.v for s in segs)
    raise Unsupported('symbolic tuple')


@handles(dict)
def dict_(*a, **k):
    return Mdict(*a, **k)


@handles(set)
def set_(*a):
    return Mset(*a)


@handles(frozenset)
def frozenset_(*a):
    return Mset(*a)


@handles(str)
def str_(*a, **k):
    if len(a) != 1 or k:
        return str(*a, **k)
    return fmt(a[0])


@handles(repr)
def repr_(x):
    if symbolic(x):
        raise Unsupported('repr')
    return repr(x)


@handles(int)
def int_(*a, **k):
    if len(a) == 1 and symbolic(a[0]):
        x = resolve(a[0])
        if isa(x, (SInt, SBool)):
            return mkint(num_term(x)[1])
        if isa(x, SFlt):
            return mkint(z3.Function('trunc', vals.FL, I)(x.t))
        if isa(x, SStr):
            f = z3.Function('int_ok', S, B)
            if not truth(mkbool(f(x.t))):
                raise ValueError('invalid literal for int()')
            return mkint(z3.Function('int_of', S, I)(x.t))
        if x is None or isa(x, (MContainer, SDate, SDateTime)):
            raise TypeError('int() argument must be a string or a number')
        if symbolic(x):
            raise Unsupported('int()')
        return int(x)
    return int(*a, **k)


@handles(float)
def float_(*a):
    if len(a) == 1 and symbolic(a[0]):
        x = resolve(a[0])
        n = num_term(x)
        if n is not None:
            if isa(x, float):
                return x
            return SFlt(vals.to_fl(n))
        if isa(x, SStr):
            f = z3.Function('float_ok', S, B)
            if not truth(mkbool(f(x.t))):
                raise ValueError('could not convert string to float')
            return SFlt(z3.Function('float_of', S, vals.FL)(x.t))
        if x is None or isa(x, (MContainer, SDate, SDateTime)):
            raise TypeError('float() argument must be a string or a number')
        if symbolic(x):
            raise Unsupported('float()')
        return float(x)
    return float(*a)


@handles(abs)
def abs_(x):
    x = resolve(x)
    if isa(x, SFlt):
        if truth(x < 0):
            return -x
        return x
    return abs(x)


import typing as _typing  # noqa: E402


@handles(_typing.cast)
def cast_(t, v):
    return v


@handles(round)
def round_(x, *a):
    x = resolve(x)
    if not symbolic(x) and not any(symbolic(y) for y in a):
        return round(x, *a)
    if isa(x, (SInt, SBool)) and not a:
        return mkint(num_term(x)[1])
    if isa(x, SFlt):
        if a:
            n = resolve(a[0])
            m = num_term(n)
            if m is None or not m[0]:
                raise Unsupported('round ndigits')
            return SFlt(z3.Function('fround_n', vals.FL, I, vals.FL)(x.t, m[1]))
        return mkint(z3.Function('fround', vals.FL, I)(x.t))
    n = num_term(x)
    if n is not None and n[0] and a:
        m = num_term(resolve(a[0]))
        if m is None or not m[0]:
            raise Unsupported('round ndigits')
        return mkint(z3.Function('iround_n', I, I, I)(n[1], m[1]))
    raise Unsupported('round')


import math as _math  # noqa: E402


def _mathfn(name, real):
    def h(x):
        y = resolve(x)
        if not symbolic(y):
            return real(y)
        if isa(y, (SInt, SBool)):
            return mkint(num_term(y)[1])
        if isa(y, SFlt):
            if truth(mkbool(z3.Not(vals.FL.is_fin(y.t)))):
                raise (OverflowError if not truth(mkbool(vals.FL.is_nan(y.t))) else ValueError)(
                    'cannot convert float')
            return mkint(z3.Function('f' + name, vals.FL, I)(y.t))
        raise Unsupported(f'math.{name}')
    CALLS[real] = h


@handles(_math.sqrt)
def sqrt_(x):
    y = resolve(x)
    if not symbolic(y):
        return _math.sqrt(y)
    n = num_term(y)
    if n is None:
        raise TypeError('must be real number')
    if truth(y < 0):
        raise ValueError('math domain error')
    core.ENG.approx = True
    return SFlt(z3.Function('fsqrt', vals.FL, vals.FL)(vals.to_fl(n)))


@handles(_b.pow)
def pow_(x, y, *m):
    x, y = resolve(x), resolve(y)
    if m or not (symbolic(x) or symbolic(y)):
        return _b.pow(x, y, *m)
    core.ENG.approx = True
    return x ** y


@handles(_re.sub)
def re_sub(pattern, repl, string, *a, **k):
    string = resolve(string)
    if not symbolic(string):
        return _re.sub(pattern, repl, string, *a, **k)
    if a or k or symbolic(pattern) or symbolic(repl) or not isa(repl, str) or not isa(pattern, str):
        raise Unsupported('re.sub')
    t = sterm(string)
    if t is None:
        raise TypeError('expected string or bytes-like object')
    core.ENG.assumptions.add('re.sub: a function of pattern, replacement and text')
    core.ENG.approx = True
    return mkstr(z3.Function('re_sub', S, S, S, S)(z3.StringVal(pattern), z3.StringVal(repl), t))


for _n in ('floor', 'ceil', 'trunc'):
    _mathfn(_n, getattr(_math, _n))


@handles(enumerate)
def enumerate_(it, start=0):
    si = as_iter(it)
    if si is None:
        return enumerate(it, start)
    return si.with_stage(('enum', start))


@handles(range)
def range_(*a):
    if not any(symbolic(x) for x in a):
        return range(*a)
    a = [resolve(x) for x in a]
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(*a)
    raise Unsupported('range step')


@handles(reversed)
def reversed_(x):
    if isa(x, SAny):
        x = resolve(x)
    if isa(x, Mlist):
        return x.__reversed__()
    if isa(x, (DView, Mdict)):
        return Mlist(x).__reversed__()
    return reversed(x)


@handles(map)
def map_(f, *its):
    if len(its) == 1:
        si = as_iter(its[0])
        if si is not None:
            return si.with_stage(('map', lambda v: call(f, v)))
    return (call(f, *xs) for xs in zip_(*its))


@handles(filter)
def filter_(f, it):
    g = (lambda v: v) if f is None else (lambda v: call(f, v))
    si = as_iter(it)
    if si is not None:
        return si.with_stage(('filter', g))
    return (x for x in it if truth(g(x)))


@handles(zip)
def zip_(*its, **k):
    sis = [as_iter(i) for i in its]
    if all(s is None for s in sis):
        return zip(*its, **k)
    outs = []
    for s, i in zip(sis, its):
        segs = to_segs(i)
        outs.append(segs)
    if all(all(isa(x, Elem) for x in o) for o in outs):
        return [tuple(x.v for x in t) for t in zip(*outs)]
    if len(outs) == 2 and all(len(o) == 1 and isa(o[0], Gen) and o[0].exact for o in outs):
        a, b = outs[0][0], outs[1][0]
        e = core.ENG
        n = seqs.zmin(z3.simplify(a.size()), z3.simplify(b.size()))
        e.replay_bound.append(n)

        def fn(t):
            return [(z3.BoolVal(True), [Elem((a.at(t), b.at(t)))])]
        return SIter([Gen(f'zip:{a.dom}:{b.dom}:{a.lo}:{b.lo}', z3.IntVal(0), n, fn, True)], [])
    raise Unsupported('zip of symbolic sequences')


@handles(any)
def any_(it):
    return PYLIB.any_(it)


@handles(all)
def all_(it):
    return PYLIB.all_(it)


@handles(next)
def next_(it, *d):
    if isa(it, (SIter, SAny)):
        return PYLIB.next_(it, *d)
    return next(it, *d)


@handles(iter)
def iter_(it, *a):
    if isa(it, SAny):
        it = resolve(it)
    if isa(it, (MContainer, DView, SRange)):
        return SIter(to_segs(it), [], it)
    if isa(it, SIter):
        return it
    return iter(it, *a)


@handles(sum)
def sum_(it, start=0):
    return PYLIB.sum_(it, start)


@handles(min)
def min_(*a, **k):
    return _minmax(min, PYLIB.min2, a, k)


@handles(max)
def max_(*a, **k):
    return _minmax(max, PYLIB.max2, a, k)


def _minmax(real, f2, a, k):
    if not any(deep_symbolic(x) for x in a):
        return real(*a, **k)
    if k or len(a) != 2:
        raise Unsupported('min/max')
    return f2(*a)


@handles(sorted)
def sorted_(it, *, key=None, reverse=False):
    r = Mlist(it)
    if r.concrete() and not any(deep_symbolic(s.v) for s in r.segs):
        return Mlist(sorted([s.v for s in r.segs], key=key, reverse=reverse))
    r.__dict__['segs'] = seqs.sorted_segs(r.segs, key, reverse)
    return r


@handles(_ft.reduce)
def reduce_(f, it, *init):
    return PYLIB.reduce_(f, it, *init)


@handles(hash)
def hash_(x):
    if symbolic(x):
        raise Unsupported('hash')
    return hash(x)


@handles(id)
def id_(x):
    if isa(x, Proxy):
        raise Unsupported('id')
    return id(x)


@handles(getattr)
def getattr_(o, n, *d):
    if isa(o, SAny):
        o = resolve(o)
    if isa(n, SAny):
        n = resolve(n)
    if isa(n, SStr):
        h = None
        if isa(o, Rec):
            h = o.__dict__['_r_attrs'].get('*getattr*')
        if h is None:
            raise Unsupported('getattr with a symbolic name')
        return h(n, *d)
    if isa(o, SOpaque):
        raise Unsupported('attribute of an opaque object')
    if d:
        if isa(o, (SBool, SInt, SFlt, SStr, SDate, SDateTime)):
            return d[0] if not hasattr(pytype(o), n) else getattr(o, n)
    return getattr(o, n, *d)


@handles(hasattr)
def hasattr_(o, n):
    if isa(o, SAny):
        o = resolve(o)
    if isa(n, (SStr, SAny)):
        n = resolve(n)
    if isa(o, Rec):
        h = o.__dict__['_r_attrs'].get('*hasattr*')
        if h is not None:
            r = h(n)
            if r is not None:
                return r
    if isa(n, SStr):
        raise Unsupported('hasattr with a symbolic name')
    if isa(o, (SBool, SInt, SFlt, SStr, SDate, SDateTime)):
        return hasattr(pytype(o), n)
    if isa(o, SOpaque):
        return mkbool(z3.Function('has_' + n, I, B)(o.o))
    if isa(o, (Mlist, Mdict, Mset)) and type(o) in (Mlist, Mdict, Mset):
        return hasattr(pytype(o), n)
    return hasattr(o, n)


@handles(setattr)
def setattr_fn(o, n, v):
    return setattr_(o, n, v)


@handles(delattr)
def delattr_fn(o, n):
    if symbolic(o) or symbolic(n):
        raise Unsupported('delattr')
    delattr(o, n)


@handles(_inspect.signature)
def signature_(f):
    if isa(f, Rec):
        h = f.__dict__['_r_attrs'].get('*signature*')
        if h is None:
            raise Unsupported('signature of a record')
        return h()
    return _inspect.signature(f)


def _re_hook(name):
    real = getattr(_re, name)

    def h(pat, s, *a, **k):
        s2 = resolve(s)
        pat = resolve(pat)
        if not symbolic(s2) and not symbolic(pat):
            return real(pat, s2, *a, **k)
        fl = 0
        if a or k:
            if len(a) == 1 and not k:
                fl = int(a[0])
            else:
                raise Unsupported('re flags')
        if isa(pat, _re.Pattern):
            fl |= pat.flags & ~32
            pat = pat.pattern
        ps, ss = sterm(pat), sterm(s2)
        if ss is None or ps is None:
            if isa(s2, (SOpaque,)):
                raise Unsupported('re on an opaque object')
            raise TypeError('expected string or bytes-like object')
        lang = rx.language(pat, name, fl) if isa(pat, str) else None
        lits = rx.contained(pat, fl) if isa(pat, str) and name == 'search' else None
        if lits is not None:
            c = z3.Or(*[z3.Contains(ss, z3.StringVal(x)) for x in lits])
        elif lang is not None:
            c = z3.InRe(ss, lang)
        else:
            c = z3.Function('re_' + name, S, I, S, B)(ps, z3.IntVal(fl), ss)
            core.ENG.approx = True
            core.ENG.assumptions.add('re: a match is a function of pattern, flags and text')
        if truth(mkbool(c)):
            return Rec('match', attrs={})
        return None
    CALLS[real] = h


for _n in ('search', 'match', 'fullmatch'):
    _re_hook(_n)


def uf_str(real, name):
    """A dependency function str -> str left uninterpreted on symbols."""
    f = z3.Function('lib_' + name, S, S)

    def h(s, *a, **k):
        s = resolve(s)
        if not symbolic(s) and not any(symbolic(x) for x in a):
            return real(s, *a, **k)
        if a or k:
            raise Unsupported(name)
        t = sterm(s)
        if t is None:
            raise Unsupported(name)
        core.ENG.assumptions.add(f'{name}: a function of its argument only')
        core.ENG.approx = True
        return mkstr(f(t))
    CALLS[real] = h


def register_libs():
    try:
        import inflection
    except ImportError:
        return
    for n in ('camelize', 'underscore', 'dasherize', 'pluralize', 'singularize', 'titleize'):
        real = getattr(inflection, n)
        f = z3.Function('lib_' + n, S, S)
        f2 = z3.Function('lib_' + n + '_2', S, B, S)

        def h(s, *a, real=real, n=n, f=f, f2=f2, **k):
            s = resolve(s)
            if not symbolic(s):
                return real(s, *a, **k)
            t = sterm(s)
            if t is None:
                raise Unsupported(n)
            core.ENG.assumptions.add(f'inflection.{n}: a function of its arguments only')
            core.ENG.approx = True
            args = list(a) + list(k.values())
            if not args:
                return mkstr(f(t))
            if len(args) == 1 and isa(args[0], bool):
                return mkstr(f2(t, z3.BoolVal(args[0])))
            raise Unsupported(n)
        CALLS[real] = h


register_libs()


# ------------------------------------------------------------ operators
def _ident(x, y):
    if core.ENG is None:
        return x is y
    if x is y:
        return True
    sx, sy = isa(x, (Proxy, Rec)), isa(y, (Proxy, Rec))
    if not sx and not sy:
        if isa(x, MContainer) and isa(y, MContainer) and x.src_oid is not None \
                and y.src_oid is not None:
            return mkbool(x.src_oid == y.src_oid)
        return x is y
    if isa(x, SType) or isa(y, SType):
        return vals.type_is(x, y)
    if isa(x, SEnum) or isa(y, SEnum):
        s, o = (x, y) if isa(x, SEnum) else (y, x)
        if isa(o, SEnum):
            return vals._eq(x, y)
        if isa(o, (Proxy, Rec)):
            return False
        return mkbool(zor(*[s.t == i for i, m in enumerate(s.members) if m is o]))
    if isa(x, Rec) or isa(y, Rec):
        return vals.rec_is(x, y)
    for a in (x, y):
        if isa(a, Poison):
            bool(a)
    if isa(x, SDateTime) or isa(y, SDateTime):
        if isa(x, SDateTime) and isa(y, SDateTime):
            if x.o is not None and y.o is not None:
                return mkbool(x.o == y.o)
            return False
        o = y if isa(x, SDateTime) else x
        if not isa(o, SAny):
            return False
    return mkbool(to_val(x) == to_val(y))


def is_(x, y):
    return _ident(x, y)


def isnot(x, y):
    return neg(_ident(x, y))


def in_(x, y):
    if core.ENG is None:
        return x in y
    if isa(y, SAny):
        y = resolve(y)
    if isa(y, SEnum):
        y = y.concretize()
    if y is None or isa(y, (SInt, SFlt, SBool, SDate, SDateTime)):
        raise TypeError('argument is not iterable')
    if isa(y, SStr):
        return y.contains(x)
    if isa(y, MContainer):
        f = type(y).__dict__.get('__contains__') or type(y).__contains__
        if isa(y, (Mdict, Mset)):
            return y.has(x)
        if isa(f, _types.FunctionType) and _in_package(f) and \
                not f.__module__.startswith('pvc'):
            return truth(f(y, x))
        b = seqs.keys_base(y)
        if b is not None and isa(x, (str, SStr)):
            y.read()
            return b.lookup(seqs.to_val(x))[0]
        return PYLIB.seq_contains(y, x)
    if isa(y, DView):
        return y.has(x)
    if isa(y, (SIter, SRange)):
        if isa(y, SRange):
            n = num_term(resolve(x))
            if n is None or not n[0]:
                raise Unsupported('in range')
            return mkbool(zand(y.lo <= n[1], n[1] < y.hi))
        return PYLIB.seq_contains(y, x)
    if isa(y, Rec):
        return getattr(y, '__contains__')(x)
    if not deep_symbolic(x) and not deep_symbolic(y):
        return x in y
    if isa(y, str):
        return SStr(z3.StringVal(y)).contains(x)
    if isa(y, _types.MappingProxyType):
        y = dict(y)
    if isa(y, (list, tuple, set, frozenset, dict)) or type(y).__name__ in (
            'dict_keys', 'dict_values'):
        if isa(y, (set, frozenset, dict)) and isa(resolve_c(x), MContainer):
            raise TypeError('unhashable type')
        rs = []
        for z in y:
            q = _eqx(x, z)
            if q is True:
                return True
            rs.append(bt(q))
        return mkbool(zor(*rs))
    if isa(y, type) and issubclass(y, _enum.Enum):
        return any(truth(is_(x, m)) for m in y)
    if type(y).__module__.split('.')[0] in PACKAGES:
        return x in y
    raise Unsupported(f'in {type(y).__name__}')


def resolve_c(x):
    """Resolve only when x may be a container."""
    if isa(x, SAny):
        o = Val.o(x.t)
        if core.ENG.decide(zand(Val.is_vobj(x.t), zor(KIND(o) == K_LIST, KIND(o) == K_DICT))):
            return resolve(x)
    return x


def notin(x, y):
    return neg(in_(x, y)) if core.ENG is not None else x not in y


def getitem(o, k):
    if core.ENG is None:
        return o[k]
    if isa(o, SAny):
        o = resolve(o)
    if isa(o, SEnum):
        o = o.concretize()
    if isa(o, SStr) or (isa(o, str) and _symkey(k)):
        if isa(o, str):
            o = SStr(z3.StringVal(o))
        if isa(k, slice):
            st = resolve(k.step)
            if st is not None and not (isa(st, int) and st == 1):
                if isa(st, int) and st == -1 and k.start is None and k.stop is None:
                    return mkstr(vals.struf('reverse', S, S)(o.t))
                raise Unsupported('string slice step')
            return o.getslice(k.start, k.stop)
        p = seqs.iz(k)
        n = z3.Length(o.t)
        if not core.ENG.decide(zand(p >= -n, p < n)):
            raise IndexError('string index out of range')
        return mkstr(z3.SubString(o.t, z3.If(p < 0, p + n, p), 1))
    if isa(o, MContainer):
        return o[k]
    if isa(o, (list, tuple)) and _symkey(k):
        r = Mlist(o)[k]
        if isa(o, tuple) and isa(k, slice):
            return tuple_(r)
        return r
    if isa(o, _types.MappingProxyType):
        o = dict(o)
    if isa(o, dict) and symbolic(k):
        return Mdict(o)[k]
    if isa(o, list) and isa(k, slice):
        return Mlist(o[k])
    if isa(o, Rec):
        return getattr(o, '__getitem__')(k)
    if isa(o, type) and issubclass(o, _enum.Enum) and symbolic(k):
        k = resolve(k)
        for n, m in o.__members__.items():
            if truth(_eqx(k, n)):
                return m
        raise KeyError(k)
    if o is None or isa(o, (SInt, SFlt, SBool, SDate, SDateTime)):
        raise TypeError('object is not subscriptable')
    if isa(o, SOpaque):
        raise Unsupported('subscript of an opaque object')
    return o[k]


def _symkey(k):
    if isa(k, slice):
        return any(symbolic(x) for x in (k.start, k.stop, k.step))
    return symbolic(k)


def setitem(o, k, v):
    if core.ENG is not None:
        if isa(o, SAny):
            o = resolve(o)
        if isa(o, (list, dict)) and not core.ENG.class_writes:
            raise Unsupported(f'mutation of a shared {type(o).__name__}')
        if isa(o, Rec):
            return getattr(o, '__setitem__')(k, v)
        if isa(o, Proxy):
            raise Unsupported('item assignment')
    o[k] = v


def delitem(o, k):
    if core.ENG is not None:
        if isa(o, SAny):
            o = resolve(o)
        if isa(o, (list, dict)) and not core.ENG.class_writes:
            raise Unsupported(f'mutation of a shared {type(o).__name__}')
        if isa(o, Rec):
            return getattr(o, '__delitem__')(k)
    del o[k]


def setattr_(o, n, v):
    e = core.ENG
    if e is None:
        setattr(o, n, v)
        return
    if isa(o, SAny):
        o = resolve(o)
    n = resolve(n)
    if isa(o, Rec):
        if isa(n, SStr):
            h = o.__dict__['_r_attrs'].get('*setattr*')
            if h is None:
                raise Unsupported('setattr with a symbolic name')
            h(n, v)
            return
        setattr(o, n, v)
        return
    if isa(o, Proxy):
        raise Unsupported(f'attribute assignment on {type(o).__name__}')
    sa = type(o).__setattr__
    if sa is not object.__setattr__:
        sub = e.contracts.get(sa)
        if sub is not None:
            sub(o, n, v)
            return
        if isa(sa, _types.FunctionType) and _in_package(sa):
            sa(o, n, v)
            return
    if isa(n, SStr):
        raise Unsupported('setattr with a symbolic name')
    note_write(o, n, v)
    setattr(o, n, v)


def note_write(o, n, v):
    """Attribute write on a real object inside a loop that did not create it."""
    e = core.ENG
    if isa(o, MContainer):
        u = o.uid
    else:
        r = e.objuid.get(id(o))
        if r is None or r[1] is not o:
            if isa(o, type) or isa(o, _types.ModuleType):
                if e.class_writes:
                    return
                if isa(o, type) and '<locals>' in o.__qualname__ and not e.loops \
                        and o.__module__.startswith('contracts'):
                    return           # a class the contract made for this path
                raise Unsupported('write to a class or module')
            if not e.loops:
                own(o)
                return
            u = 0
        else:
            u = r[0]
    for lp in e.loops:
        if lp.phase == 'summary' and u <= lp.uid0:
            d = getattr(o, '__dict__', {})
            if n in d and seqs._same(d[n], v):
                return
            raise Unsupported(f'a loop writes attribute {n} of an object it did not create')


@handles(object.__setattr__)
def obj_setattr(o, n, v):
    if isa(o, Rec):
        setattr(o, n, v)
        return
    if symbolic(n):
        raise Unsupported('setattr with a symbolic name')
    note_write(o, n, v)
    object.__setattr__(o, n, v)


# ------------------------------------------------------------- literals
def mklist(parts):
    if core.ENG is None:
        out = []
        for star, v in parts:
            if star:
                out.extend(v)
            else:
                out.append(v)
        return out
    r = Mlist()
    s = r.__dict__['segs']
    for star, v in parts:
        if star:
            s.extend(to_segs(v))
        else:
            s.append(Elem(v))
    return r


def mktuple(parts):
    out = []
    for star, v in parts:
        if star:
            out.extend(tuple_(v) if core.ENG is not None else v)
        else:
            out.append(v)
    return tuple(out)


def mkset(parts):
    if core.ENG is None:
        return set(v for st, x in parts for v in (x if st else (x,)))
    return Mset(mklist(parts))


def mkdict(parts):
    if core.ENG is None:
        d = {}
        for p in parts:
            if p[0]:
                d.update(p[1])
            else:
                d[p[1]] = p[2]
        return d
    r = Mdict()
    for p in parts:
        if p[0]:
            Mdict._update(r, p[1])
        else:
            if isa(p[1], (MContainer, list, dict)):
                raise TypeError('unhashable type')
            r.__dict__['segs'].append(Elem(('set', p[1], p[2])))
    return r


def comp(kind, nested, f, it, cond):
    if core.ENG is None:
        g = _native_comp(nested, f, it, cond)
        return {'list': list, 'set': set, 'dict': dict, 'gen': lambda x: x}[kind](g)
    if kind == 'list':
        return PYLIB.listcomp_flat(f, it, cond) if nested else PYLIB.listcomp(f, it, cond)
    if kind == 'dict':
        if nested:
            return Mdict(PYLIB.listcomp_flat(f, it, cond))
        return PYLIB.dictcomp(f, it, cond)
    if kind == 'set':
        return Mset(PYLIB.listcomp_flat(f, it, cond) if nested else PYLIB.listcomp(f, it, cond))
    # generator expression
    si = as_iter(it)
    if si is None:
        return _native_comp(nested, f, it, cond)
    if nested:
        return PYLIB.listcomp_flat(f, it, cond)
    if cond is not None:
        si = si.with_stage(('filter', cond))
    return si.with_stage(('map', f))


def _native_comp(nested, f, it, cond):
    for x in it:
        if cond is None or cond(x):
            if nested:
                yield from f(x)
            else:
                yield f(x)


def unpack(v, n):
    if core.ENG is None:
        return v
    if isa(v, SAny):
        v = resolve(v)
    if isa(v, Mlist):
        ln = len_(v)
        if not truth(ln == n):
            raise ValueError('unpack count')
        return [v[i] for i in range(n)]
    return v


def fmt(x, conv=-1, spec=None):
    if not symbolic(x) and not deep_symbolic(x):
        if conv == 114:
            return format(repr(x), spec or '')
        return format(str(x) if conv == 115 else x, spec or '') if spec or conv == 115 else str(x)
    if spec or conv not in (-1, 115):
        raise Unsupported('format spec')
    if isa(x, SEnum):
        return str(x.concretize())
    if isa(x, SStr):
        return x
    if isa(x, SAny):
        t = x.t
        if core.ENG.decide(Val.is_vstr(t)):
            return mkstr(Val.s(t))
        return mkstr(vals.STROF(t))
    if isa(x, SInt):
        return mkstr(z3.If(x.t >= 0, z3.IntToStr(x.t),
                           z3.Concat(z3.StringVal('-'), z3.IntToStr(-x.t))))
    if isa(x, (SBool,)):
        return 'True' if truth(x) else 'False'
    if isa(x, Rec) and '__str__' in x.__dict__['_r_attrs']:
        return getattr(x, '__str__')()
    if isa(x, SType):
        return str(pytype(resolve(x.v)))
    return mkstr(vals.STROF(to_val(x)))


def fstr(parts):
    if core.ENG is None:
        out = ''
        for p in parts:
            if isa(p, str):
                out += p
            else:
                v, c, sp = p
                if c == 114:
                    v = repr(v)
                elif c == 115:
                    v = str(v)
                elif c == 97:
                    v = ascii(v)
                out += format(v, sp or '')
        return out
    out = ''
    for p in parts:
        out = out + (p if isa(p, str) else fmt(*p))
    return out


def while_(c):
    if core.ENG is not None:
        e = core.ENG
        e.while_steps = getattr(e, 'while_steps', 0) + 1
        if e.while_steps > 20000:
            raise Unsupported('while loop')
        if e.loops or isa(c, Proxy):
            raise Unsupported('while loop with a symbolic condition')
    return c


def _load_pylib():
    global PYLIB
    import os
    from . import instr
    p = os.path.join(os.path.dirname(__file__), 'pylib_src.py')
    m = _types.ModuleType('pvc.pylib')
    m.__file__ = p
    m.__dict__['__name__'] = 'pvc.pylib'
    with open(p) as f:
        code = instr.instrument_source(f.read(), p)
    import sys
    sys.modules['pvc.hooks'] = sys.modules[__name__]
    PYLIB = m
    exec(code, m.__dict__)


_load_pylib()

CALLS[slice] = slice


@handles(divmod)
def divmod_(a, b):
    if not symbolic(a) and not symbolic(b):
        return divmod(a, b)
    return a // b, a % b


from . import dates as _dates     # noqa: E402,F401

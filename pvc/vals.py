"""Symbolic proxy values."""
from __future__ import annotations
import datetime as _dt
import enum as _enum
import z3
from . import core
from .core import isa, Unsupported, zand, zor

I = z3.IntSort()
B = z3.BoolSort()
S = z3.StringSort()

_F = z3.Datatype('FL')
_F.declare('fin', ('r', z3.RealSort()))
_F.declare('pinf')
_F.declare('ninf')
_F.declare('nan')
FL = _F.create()

_V = z3.Datatype('Val')
_V.declare('none')
_V.declare('vbool', ('b', B))
_V.declare('vint', ('i', I))
_V.declare('vflt', ('f', FL))
_V.declare('vstr', ('s', S))
_V.declare('vobj', ('o', I))
Val = _V.create()

KIND = z3.Function('kind', I, I)
K_LIST, K_DICT, K_TUPLE, K_SET, K_DATE, K_DATETIME, K_ENUM, K_OPAQUE, K_JOBJ = range(9)
KNAMES = {'list': K_LIST, 'dict': K_DICT, 'tuple': K_TUPLE, 'set': K_SET,
          'date': K_DATE, 'datetime': K_DATETIME, 'enum': K_ENUM,
          'opaque': K_OPAQUE, 'jobj': K_JOBJ}
OBJEQ = z3.Function('objeq', I, I, B)
DORD = z3.Function('date_ord', I, I)
DTV = z3.Function('dt_us', I, I)
DTA = z3.Function('dt_aware', I, B)
LLEN = z3.Function('llen', I, I)
LAT = z3.Function('lat', I, I, Val)
STROF = z3.Function('str_of', Val, S)
ISTR = z3.Function('int_str', I, S)
DAY_US = 86400 * 1000000


def eng():
    e = core.ENG
    if e is None:
        raise RuntimeError('no active engine')
    return e


def _unsup(name):
    def f(self, *a, **k):
        raise Unsupported(f'{type(self).__name__}.{name}')
    return f


class Proxy:
    """Base of all symbolic values: everything not modelled is Unsupported."""
    __slots__ = ()
    __pvc_proxy__ = True


for _n in ('lt le gt ge add radd sub rsub mul rmul truediv rtruediv floordiv '
           'rfloordiv mod rmod pow rpow neg pos abs invert and rand or ror xor '
           'rxor lshift rlshift rshift rrshift getitem setitem delitem contains iter '
           'len call int float index round trunc floor ceil enter exit bytes '
           'complex matmul reversed next bool').split():
    setattr(Proxy, f'__{_n}__', _unsup(f'__{_n}__'))


def _hash(self):
    raise Unsupported(f'hash of {type(self).__name__}')


Proxy.__hash__ = _hash


def _ga(self, name):
    if name.startswith('__') and name.endswith('__'):
        raise AttributeError(name)
    raise Unsupported(f'{type(self).__name__}.{name}')


Proxy.__getattr__ = _ga
Proxy.__str__ = _unsup('__str__')
Proxy.__format__ = _unsup('__format__')


class SBool(Proxy):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().decide(self.t)

    def __eq__(self, o):
        return _eq(self, o)

    def __ne__(self, o):
        return neg(_eq(self, o))

    def __invert__(self):
        raise Unsupported('~bool')

    def __and__(self, o):
        o = _tb(o)
        return SBool(zand(self.t, o))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(zor(self.t, _tb(o)))

    __ror__ = __or__
    __hash__ = _hash

    def __repr__(self):
        return f'SBool({self.t})'


def _tb(o):
    if isa(o, SBool):
        return o.t
    if isa(o, bool):
        return z3.BoolVal(o)
    raise Unsupported('bool op')


def mkbool(t):
    if isa(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def mkint(t):
    if isa(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkstr(t):
    if isa(t, str):
        return t
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return t.as_string() if '\\u' not in t.as_string() else SStr(t)
    return SStr(t)


def neg(x):
    if isa(x, bool):
        return not x
    if isa(x, SBool):
        return mkbool(z3.Not(x.t))
    if x is NotImplemented:
        return x
    raise Unsupported('not of non-bool')


# ------------------------------------------------------------------ numbers
def num_term(x):
    """(is_int, term) with term Int or FL."""
    if isa(x, bool):
        return True, z3.IntVal(int(x))
    if isa(x, int):
        return True, z3.IntVal(x)
    if isa(x, SInt):
        return True, x.t
    if isa(x, SBool):
        return True, z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isa(x, SFlt):
        return False, x.t
    if isa(x, float):
        return False, flt_const(x)
    return None


def flt_const(x):
    if x != x:
        return FL.nan
    if x == float('inf'):
        return FL.pinf
    if x == float('-inf'):
        return FL.ninf
    return FL.fin(z3.RealVal(x.as_integer_ratio()[0]) / z3.RealVal(x.as_integer_ratio()[1]))


def to_fl(n):
    isint, t = n
    return FL.fin(z3.ToReal(t)) if isint else t


def num_lt(a, b):
    if a[0] and b[0]:
        return a[1] < b[1]
    x, y = to_fl(a), to_fl(b)
    return zor(zand(FL.is_fin(x), FL.is_fin(y), FL.r(x) < FL.r(y)),
               zand(FL.is_ninf(x), z3.Or(FL.is_fin(y), FL.is_pinf(y))),
               zand(FL.is_fin(x), FL.is_pinf(y)))


def num_eq(a, b):
    if a[0] and b[0]:
        return a[1] == b[1]
    x, y = to_fl(a), to_fl(b)
    return zor(zand(FL.is_fin(x), FL.is_fin(y), FL.r(x) == FL.r(y)),
               zand(FL.is_ninf(x), FL.is_ninf(y)),
               zand(FL.is_pinf(x), FL.is_pinf(y)))


FLOP = {}


def flop(name, x, y):
    f = FLOP.setdefault(name, z3.Function('fl_' + name, FL, FL, FL))
    return SFlt(f(x, y))


INTOP = {}


def intop(name, x, y):
    f = INTOP.setdefault(name, z3.Function('int_' + name, I, I, I))
    return mkint(f(x, y))


class Num(Proxy):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _other(self, o):
        o = resolve(o)
        n = num_term(o)
        return n

    def __lt__(self, o):
        n = self._other(o)
        return NotImplemented if n is None else mkbool(num_lt(num_term(self), n))

    def __gt__(self, o):
        n = self._other(o)
        return NotImplemented if n is None else mkbool(num_lt(n, num_term(self)))

    def __le__(self, o):
        n = self._other(o)
        if n is None:
            return NotImplemented
        a = num_term(self)
        return mkbool(zor(num_lt(a, n), num_eq(a, n)))

    def __ge__(self, o):
        n = self._other(o)
        if n is None:
            return NotImplemented
        a = num_term(self)
        return mkbool(zor(num_lt(n, a), num_eq(a, n)))

    def __eq__(self, o):
        return _eq(self, o)

    def __ne__(self, o):
        return neg(_eq(self, o))

    __hash__ = _hash

    def __bool__(self):
        return not truth(mkbool(num_eq(num_term(self), (True, z3.IntVal(0)))))

    def __repr__(self):
        return f'{type(self).__name__}({self.t})'


def _arith(name, op):
    def fwd(self, o):
        return _ar(name, op, self, o)

    def rev(self, o):
        return _ar(name, op, o, self)
    return fwd, rev


def _ar(name, op, a, b):
    a, b = resolve(a), resolve(b)
    x, y = num_term(a), num_term(b)
    if x is None or y is None:
        if isa(a, (str, SStr)) or isa(b, (str, SStr)):
            q, n = (a, b) if isa(a, (str, SStr)) else (b, a)
            if name == 'mul' and num_term(n) is not None:
                return SStr(sterm(q)) * n
            raise Unsupported('string arithmetic')
        return NotImplemented
    if name in ('floordiv', 'mod', 'truediv'):
        if truth(mkbool(num_eq(y, (True, z3.IntVal(0))))):
            raise ZeroDivisionError('division by zero')
    if x[0] and y[0]:
        if op is not None:
            return mkint(op(x[1], y[1]))
        if name == 'truediv':
            return flop('truediv', to_fl(x), to_fl(y))
        if name == 'pow':
            return intop('pow', x[1], y[1])
    return flop(name, to_fl(x), to_fl(y))


def _fdiv(x, y):
    # python floor division from SMT (euclidean) division
    q = x / y
    r = x % y
    return z3.If(z3.And(y < 0, r != 0), q - 1, q)


def _fmod(x, y):
    r = x % y
    return z3.If(z3.And(y < 0, r != 0), r + y, r)


for _n, _op in (('add', lambda x, y: x + y), ('sub', lambda x, y: x - y),
                ('mul', lambda x, y: x * y), ('floordiv', _fdiv), ('mod', _fmod),
                ('truediv', None), ('pow', None)):
    _f, _r = _arith(_n, _op)
    setattr(Num, f'__{_n}__', _f)
    setattr(Num, f'__r{_n}__', _r)


class SInt(Num):
    __slots__ = ()

    def __neg__(self):
        return mkint(-self.t)

    def __abs__(self):
        return mkint(z3.If(self.t < 0, -self.t, self.t))

    def __pos__(self):
        return self


class SFlt(Num):
    __slots__ = ()

    def __neg__(self):
        return SFlt(z3.If(FL.is_fin(self.t), FL.fin(-FL.r(self.t)),
                          z3.If(FL.is_pinf(self.t), FL.ninf,
                                z3.If(FL.is_ninf(self.t), FL.pinf, FL.nan))))


# ------------------------------------------------------------------ strings
STRUF = {}


def struf(name, *sorts):
    eng().approx = True
    return STRUF.setdefault((name, len(sorts)), z3.Function('str_' + name, *sorts))


def sterm(x):
    if isa(x, str):
        return z3.StringVal(x)
    if isa(x, SStr):
        return x.t
    return None


class SStr(Proxy):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return _eq(self, o)

    def __ne__(self, o):
        return neg(_eq(self, o))

    __hash__ = _hash

    def __add__(self, o):
        o = resolve(o)
        t = sterm(o)
        if t is None:
            return NotImplemented
        return mkstr(z3.Concat(self.t, t))

    def __radd__(self, o):
        t = sterm(resolve(o))
        if t is None:
            return NotImplemented
        return mkstr(z3.Concat(t, self.t))

    def __bool__(self):
        return eng().decide(self.t != z3.StringVal(''))

    def __len__(self):
        raise Unsupported('native len of str')

    def length(self):
        return mkint(z3.Length(self.t))

    def startswith(self, p, *a):
        if a:
            raise Unsupported('startswith range')
        if isa(p, tuple):
            return mkbool(zor(*[_tb2(self.startswith(q)) for q in p]))
        p = resolve(p)
        t = sterm(p)
        if t is None:
            raise TypeError('startswith first arg must be str or a tuple of str')
        return mkbool(z3.PrefixOf(t, self.t))

    def endswith(self, p, *a):
        if a:
            raise Unsupported('endswith range')
        if isa(p, tuple):
            return mkbool(zor(*[_tb2(self.endswith(q)) for q in p]))
        p = resolve(p)
        t = sterm(p)
        if t is None:
            raise TypeError('endswith first arg must be str or a tuple of str')
        return mkbool(z3.SuffixOf(t, self.t))

    def __lt__(self, o):
        t = sterm(resolve(o))
        return NotImplemented if t is None else mkbool(self.t < t)

    def __le__(self, o):
        t = sterm(resolve(o))
        return NotImplemented if t is None else mkbool(self.t <= t)

    def __gt__(self, o):
        t = sterm(resolve(o))
        return NotImplemented if t is None else mkbool(t < self.t)

    def __ge__(self, o):
        t = sterm(resolve(o))
        return NotImplemented if t is None else mkbool(t <= self.t)

    def contains(self, o):
        t = sterm(resolve(o))
        if t is None:
            raise TypeError('in <string> requires string')
        return mkbool(z3.Contains(self.t, t))

    def getslice(self, lo, hi):
        """self[lo:hi] with optional symbolic int bounds, step 1"""
        n = z3.Length(self.t)

        def clip(v, d):
            if v is None:
                return d
            v = resolve(v)
            x = num_term(v)
            if x is None or not x[0]:
                raise TypeError('slice indices must be integers')
            x = x[1]
            y = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
            return y
        a = clip(lo, z3.IntVal(0))
        b = clip(hi, n)
        return mkstr(z3.SubString(self.t, a, z3.If(b > a, b - a, z3.IntVal(0))))

    def __getattr__(self, name):
        if name in ('isalpha', 'isdigit', 'isalnum', 'isnumeric', 'isdecimal',
                    'isspace', 'isupper', 'islower', 'istitle', 'isidentifier'):
            f = struf(name, S, B)
            return lambda: mkbool(f(self.t))
        if name in ('upper', 'lower', 'title', 'capitalize', 'swapcase', 'casefold'):
            f = struf(name, S, S)
            return lambda: mkstr(f(self.t))
        if name in ('strip', 'lstrip', 'rstrip'):
            def strip(*a):
                if a and a[0] is not None:
                    f2 = struf(name, S, S, S)
                    t = sterm(resolve(a[0]))
                    if t is None:
                        raise Unsupported('strip arg')
                    return mkstr(f2(self.t, t))
                return mkstr(struf(name, S, S)(self.t))
            return strip
        if name == 'replace':
            def replace(a, b):
                x, y = sterm(resolve(a)), sterm(resolve(b))
                if x is None or y is None:
                    raise TypeError('replace() argument must be str')
                return mkstr(struf('replace', S, S, S, S)(self.t, x, y))
            return replace
        if name == 'split':
            return lambda *a: str_split(self, *a)
        if name == 'join':
            return lambda it: str_join(self, it)
        if name == 'encode':
            return lambda *a: Rec('bytes', attrs={'*str*': self})
        return _ga(self, name)

    def __mul__(self, n):
        n = num_term(resolve(n))
        if n is None or not n[0]:
            raise TypeError("can't multiply sequence by non-int")
        r = struf('repeat', S, I, S)(self.t, n[1])
        eng().add(z3.Implies(n[1] <= 0, r == z3.StringVal('')))
        return mkstr(r)

    __rmul__ = __mul__

    def __repr__(self):
        return f'SStr({self.t})'


def str_split(s, sep=None, *a):
    from . import seqs
    if a:
        if a == (1,) and isa(sep, str) and sep:
            if not eng().decide(z3.Contains(s.t, z3.StringVal(sep))):
                return seqs.MList([s])
            ix = z3.IndexOf(s.t, z3.StringVal(sep), z3.IntVal(0))
            return seqs.MList([mkstr(z3.SubString(s.t, z3.IntVal(0), ix)),
                               mkstr(z3.SubString(s.t, ix + len(sep), z3.Length(s.t)))])
        raise Unsupported('split maxsplit')
    e = eng()
    e.approx = True
    if sep is None:
        o = struf('split_ws', S, I)(s.t)
    else:
        p = sterm(resolve(sep))
        if p is None:
            raise TypeError('must be str or None')
        if e.decide(p == z3.StringVal('')):
            raise ValueError('empty separator')
        o = struf('split', S, S, I)(s.t, p)
    e.add(z3.And(o >= 0, o < CONST_BASE, KIND(o) == K_LIST))
    if sep is not None:
        e.add(LLEN(o) >= 1)
        e.add((LLEN(o) == 1) == z3.Not(z3.Contains(s.t, p)))
        ix = z3.IndexOf(s.t, p, z3.IntVal(0))
        e.add(LAT(o, 0) == Val.vstr(z3.If(z3.Contains(s.t, p), z3.SubString(s.t, 0, ix), s.t)))
    r = obj_proxy(o)
    return seqs.MList(r)


def str_join(s, it):
    from . import seqs
    m = seqs.MList(it)
    segs = m.segs
    if all(isa(x, seqs.Elem) for x in segs):
        out = None
        for x in segs:
            t = sterm(resolve(x.v))
            if t is None:
                raise TypeError('sequence item: expected str instance')
            out = t if out is None else z3.Concat(out, s.t, t)
        return '' if out is None else mkstr(out)
    # a function of the separator and the sequence (its elements, in order)
    o = seqs.seq_key(m)
    if o is None:
        raise Unsupported('join of a symbolic sequence')
    return mkstr(struf('join', S, S, S)(s.t, o))


def _tb2(x):
    return x.t if isa(x, SBool) else z3.BoolVal(bool(x))


# -------------------------------------------------------------------- enums
class SEnum(Proxy):
    """A symbolic member of a concrete enum class (or of a list of values)."""
    __slots__ = ('members', 't')

    def __init__(self, members, t):
        self.members, self.t = list(members), t

    def __eq__(self, o):
        return _eq(self, o)

    def __ne__(self, o):
        return neg(_eq(self, o))

    __hash__ = _hash

    def concretize(self):
        for i, m in enumerate(self.members[:-1]):
            if eng().decide(self.t == i):
                return m
        return self.members[-1]

    def __bool__(self):
        return bool(self.concretize())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concretize(), name)

    def __repr__(self):
        return f'SEnum({self.t})'


# ---------------------------------------------------------------- date kinds
class SDate(Proxy):
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def _cmp(self, o, f):
        o = resolve(o)
        if isa(o, _dt.date) and not isa(o, _dt.datetime):
            return mkbool(f(DORD(self.o), z3.IntVal(o.toordinal())))
        if isa(o, SDate):
            return mkbool(f(DORD(self.o), DORD(o.o)))
        if isa(o, (SDateTime, _dt.datetime)):
            raise TypeError("can't compare datetime.datetime to datetime.date")
        if not isa(o, Proxy) or isa(o, (Num, SStr, SBool)):
            raise TypeError('not comparable with date')
        raise Unsupported('date comparison')

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return _eq(self, o)

    def __ne__(self, o):
        return neg(_eq(self, o))

    __hash__ = _hash

    def __bool__(self):
        return True


class SDateTime(Proxy):
    """us: microseconds since 0001-01-01 (local when naive, UTC when aware)."""
    __slots__ = ('us', 'aware', 'o')

    def __init__(self, us, aware, o=None):
        self.us, self.aware, self.o = us, aware, o

    def _cmp(self, o, f):
        o = resolve(o)
        o2 = dt_of(o)
        if o2 is None:
            if isa(o, (SDate, _dt.date)):
                raise TypeError("can't compare datetime.datetime to datetime.date")
            if not isa(o, Proxy) or isa(o, (Num, SStr, SBool)):
                raise TypeError('not comparable with datetime')
            raise Unsupported('datetime comparison')
        if not eng().decide(self.aware == o2.aware):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return mkbool(f(self.us, o2.us))

    __lt__ = SDate.__lt__
    __le__ = SDate.__le__
    __gt__ = SDate.__gt__
    __ge__ = SDate.__ge__

    def __eq__(self, o):
        return _eq(self, o)

    def __ne__(self, o):
        return neg(_eq(self, o))

    __hash__ = _hash

    def __bool__(self):
        return True


def dt_of(o):
    if isa(o, SDateTime):
        return o
    if isa(o, _dt.datetime):
        if o.tzinfo is None:
            us = (o - _dt.datetime.min)
            aw = False
        else:
            us = o - _dt.datetime.min.replace(tzinfo=_dt.timezone.utc)
            aw = True
        return SDateTime(z3.IntVal(us.days * DAY_US + us.seconds * 1000000 + us.microseconds),
                         z3.BoolVal(aw))
    return None


class SOpaque(Proxy):
    """An object about which nothing is known but its identity."""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __eq__(self, o):
        return _eq(self, o)

    def __ne__(self, o):
        return neg(_eq(self, o))

    __hash__ = _hash

    def __bool__(self):
        return eng().decide(z3.Function('obj_truth', I, B)(self.o))


# ---------------------------------------------------------------------- any
class SAny(Proxy):
    """A value of unknown type (a term of sort Val)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def is_none(self):
        return eng().decide(Val.is_none(self.t))

    def __eq__(self, o):
        return _eq(self, o)

    def __ne__(self, o):
        return neg(_eq(self, o))

    __hash__ = _hash

    def __bool__(self):
        return truth(resolve(self))

    def __repr__(self):
        return f'SAny({self.t})'

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__') and name not in (
                '__class__',):
            raise AttributeError(name)
        return getattr(resolve(self), name)

    def __getitem__(self, k):
        from . import hooks
        return hooks.getitem(resolve(self), k)

    def __iter__(self):
        return iter(resolve(self))


def _fwd(name):
    def f(self, *a):
        r = resolve(self)
        m = getattr(type(r), name, None)
        if m is None:
            raise TypeError(f'{type(r).__name__} has no {name}')
        return m(r, *a)
    return f


def _fwdcmp(op, sym):
    def f(self, o):
        r = resolve(self)
        o = resolve(o)
        if r is None or o is None:
            raise TypeError(f"'{sym}' not supported with NoneType")
        if not comparable(r, o):
            raise TypeError(f"'{sym}' not supported")
        return op(r, o)
    return f


def kindclass(x):
    from . import seqs
    if isa(x, (bool, int, float, Num, SBool)):
        return 'num'
    if isa(x, (str, SStr)):
        return 'str'
    if isa(x, (seqs.MList, list)):
        return 'list'
    if isa(x, (seqs.MDict, dict)):
        return 'dict'
    if isa(x, (SDate, SDateTime, _dt.date)):
        return 'date'
    return None


def comparable(a, b):
    ka, kb = kindclass(a), kindclass(b)
    if ka is None or kb is None or ka == 'dict':
        raise Unsupported('comparison of opaque values')
    return ka == kb


import operator as _op  # noqa: E402
for _n, _o, _s in (('lt', _op.lt, '<'), ('le', _op.le, '<='), ('gt', _op.gt, '>'), ('ge', _op.ge, '>=')):
    setattr(SAny, f'__{_n}__', _fwdcmp(_o, _s))


def _fwdar(op):
    def f(self, o):
        return op(resolve(self), resolve(o))

    def r(self, o):
        return op(resolve(o), resolve(self))
    return f, r


for _n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'truediv', 'pow'):
    _f, _r = _fwdar(getattr(_op, _n))
    setattr(SAny, f'__{_n}__', _f)
    setattr(SAny, f'__r{_n}__', _r)
SAny.__neg__ = lambda self: -resolve(self)
SAny.__abs__ = lambda self: abs(resolve(self))


def obj_proxy(o):
    """The proxy of object id o; forks on its kind."""
    from . import seqs
    e = eng()
    key = ('obj', o.sexpr())
    if key in e.objs:
        return e.objs[key]
    kind = KIND(o)
    if e.decide(kind == K_LIST):
        r = seqs.list_of_oid(o)
    elif e.decide(kind == K_DICT):
        r = seqs.dict_of_oid(o)
    elif e.decide(kind == K_DATE):
        r = SDate(o)
    elif e.decide(kind == K_DATETIME):
        r = SDateTime(DTV(o), DTA(o), o)
    elif e.decide(kind == K_TUPLE):
        raise Unsupported('symbolic tuple value')
    elif e.decide(kind == K_SET):
        raise Unsupported('symbolic set value')
    elif e.decide(kind == K_JOBJ):
        f = e.registry.get('jobj')
        if f is None:
            raise Unsupported('symbolic object value')
        r = f(o)
    else:
        r = SOpaque(o)
    e.objs[key] = r
    return r


def resolve(x):
    """Fork until the type of x is known."""
    if isa(x, SEnum):
        return x.concretize()
    if not isa(x, SAny):
        return x
    t = z3.simplify(x.t)
    e = eng()
    if z3.is_app(t) and t.num_args() <= 1:
        n = t.decl().name()
        if n == 'none':
            return None
        if n == 'vbool':
            return mkbool(t.arg(0))
        if n == 'vint':
            return mkint(t.arg(0))
        if n == 'vstr':
            return mkstr(t.arg(0))
        if n == 'vflt':
            return SFlt(t.arg(0))
        if n == 'vobj':
            return from_oid(t.arg(0))
    if e.decide(Val.is_none(t)):
        return None
    if e.decide(Val.is_vint(t)):
        return mkint(Val.i(t))
    if e.decide(Val.is_vstr(t)):
        return mkstr(Val.s(t))
    if e.decide(Val.is_vbool(t)):
        return mkbool(Val.b(t))
    if e.decide(Val.is_vflt(t)):
        return SFlt(Val.f(t))
    return from_oid(Val.o(t))


CONST_BASE = 10 ** 6


def from_oid(o):
    e = eng()
    o = z3.simplify(o)
    if z3.is_int_value(o):
        n = o.as_long()
        if n >= CONST_BASE:
            return e.oid_objs[n]
    return obj_proxy(o)


def oid_of_const(x):
    """A concrete Python object as an object id (distinct per object)."""
    e = eng()
    if not hasattr(e, 'oid_tab'):
        e.oid_tab, e.oid_objs = {}, {}
    k = id(x)
    if k not in e.oid_tab or e.oid_objs.get(e.oid_tab[k]) is not x:
        n = CONST_BASE + len(e.oid_objs)
        e.oid_tab[k] = n
        e.oid_objs[n] = x
    return z3.IntVal(e.oid_tab[k])


def to_val(x):
    """Any value as a Val term (objects by identity)."""
    from . import seqs
    if x is None:
        return Val.none
    if isa(x, SAny):
        return x.t
    if isa(x, SBool):
        return Val.vbool(x.t)
    if isa(x, bool):
        return Val.vbool(z3.BoolVal(x))
    if isa(x, SInt):
        return Val.vint(x.t)
    if isa(x, int) and not isa(x, _enum.Enum):
        return Val.vint(z3.IntVal(x))
    if isa(x, SFlt):
        return Val.vflt(x.t)
    if isa(x, float):
        return Val.vflt(flt_const(x))
    if isa(x, SStr):
        return Val.vstr(x.t)
    if isa(x, str) and not isa(x, _enum.Enum):
        return Val.vstr(z3.StringVal(x))
    if isa(x, (SDate, SOpaque)):
        return Val.vobj(x.o)
    if isa(x, SDateTime) and x.o is not None:
        return Val.vobj(x.o)
    if isa(x, SEnum):
        return to_val(x.concretize())
    if isa(x, seqs.MContainer):
        return Val.vobj(x.oid_term())
    if isa(x, Rec):
        return Val.vobj(x.oid_term())
    if isa(x, Proxy):
        raise Unsupported(f'{type(x).__name__} as value')
    return Val.vobj(oid_of_const(x))


def val_eq(a, b):
    """Python == on Val terms."""
    na = z3.Or(Val.is_vbool(a), Val.is_vint(a), Val.is_vflt(a))
    nb = z3.Or(Val.is_vbool(b), Val.is_vint(b), Val.is_vflt(b))

    def real(v):
        return z3.If(Val.is_vint(v), FL.fin(z3.ToReal(Val.i(v))),
                     z3.If(Val.is_vbool(v),
                           z3.If(Val.b(v), FL.fin(z3.RealVal(1)), FL.fin(z3.RealVal(0))),
                           Val.f(v)))
    return z3.simplify(zor(
        zand(Val.is_none(a), Val.is_none(b)),
        zand(Val.is_vint(a), Val.is_vint(b), Val.i(a) == Val.i(b)),
        zand(na, nb, real(a) == real(b), z3.Not(FL.is_nan(real(a)))),
        zand(Val.is_vstr(a), Val.is_vstr(b), Val.s(a) == Val.s(b)),
        zand(Val.is_vobj(a), Val.is_vobj(b),
             z3.Or(Val.o(a) == Val.o(b), objeq(Val.o(a), Val.o(b))))))


def objeq(a, b):
    return zand(OBJEQ(a, b), OBJEQ(b, a), KIND(a) == KIND(b))


def truth(x):
    """bool(x) with forking."""
    from . import seqs
    if isa(x, (bool, int, float, str, type(None))):
        return bool(x)
    if isa(x, (seqs.MContainer,)):
        return x.nonempty()
    return bool(x)


def _eq(a, b):
    """Python == with symbolic operands; a bool or SBool."""
    from . import seqs
    if a is b and not isa(a, (SFlt, SAny)):
        return True
    if isa(b, seqs.MContainer) or isa(a, seqs.MContainer):
        if isa(a, SAny) or isa(b, SAny):
            # compare by identity, or structurally once resolved
            x, y = (a, b) if isa(a, SAny) else (b, a)
            k = K_DICT if isa(y, seqs.MDict) else K_LIST
            if not eng().decide(z3.And(Val.is_vobj(x.t), KIND(Val.o(x.t)) == k)):
                return False
            return _eq(resolve(x), y)
        r = seqs.container_eq(a, b)
        return r
    if isa(a, SEnum) or isa(b, SEnum):
        if isa(a, SEnum) and isa(b, SEnum):
            if a.members == b.members:
                return mkbool(a.t == b.t)
            return _eq(a.concretize(), b)
        s, o = (a, b) if isa(a, SEnum) else (b, a)
        if isa(o, Proxy):
            return _eq(s.concretize(), o)
        return mkbool(zor(*[s.t == i for i, m in enumerate(s.members) if m == o]))
    if isa(a, Rec) or isa(b, Rec):
        return rec_eq(a, b)
    x, y = num_term(a), num_term(b)
    if x is not None and y is not None:
        return mkbool(num_eq(x, y))
    s, t = sterm(a), sterm(b)
    if s is not None and t is not None:
        return mkbool(s == t)
    if isa(a, SAny) or isa(b, SAny):
        o = b if isa(a, SAny) else a
        if isa(o, (list, dict)):
            x = a if isa(a, SAny) else b
            return _eq(resolve(x), o)
        return mkbool(val_eq(to_val(a), to_val(b)))
    if isa(a, (SDate, SDateTime)) or isa(b, (SDate, SDateTime)):
        return date_eq(a, b)
    if isa(a, SOpaque) or isa(b, SOpaque):
        return mkbool(val_eq(to_val(a), to_val(b)))
    if isa(a, SType) or isa(b, SType):
        return type_is(a, b)
    if isa(a, Proxy) and isa(b, Proxy):
        return False
    if isa(a, (Num, SBool, SStr)) or isa(b, (Num, SBool, SStr)):
        return False      # different builtin kinds never compare equal
    raise Unsupported(f'== of {type(a).__name__} and {type(b).__name__}')


def date_eq(a, b):
    if isa(a, SDateTime) or isa(b, SDateTime):
        x, y = dt_of(a), dt_of(b)
        if x is None or y is None:
            return False
        return mkbool(zand(x.aware == y.aware, x.us == y.us))

    def o(v):
        if isa(v, SDate):
            return DORD(v.o)
        if isa(v, _dt.date) and not isa(v, _dt.datetime):
            return z3.IntVal(v.toordinal())
        return None
    x, y = o(a), o(b)
    if x is None or y is None:
        return False
    return mkbool(x == y)


# ------------------------------------------------------------------- types
class SType(Proxy):
    """type(x) of a symbolic value."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type_is(self, o)

    def __ne__(self, o):
        return neg(type_is(self, o))

    __hash__ = _hash

    @property
    def __name__(self):
        r = pytype(resolve(self.v))
        return r.__name__

    def __bool__(self):
        return True


def pytype(x):
    """The Python class a resolved value has."""
    from . import seqs
    if isa(x, SBool):
        return bool
    if isa(x, SInt):
        return int
    if isa(x, SFlt):
        return float
    if isa(x, SStr):
        return str
    if type(x) is seqs.MList:
        return list
    if type(x) is seqs.MDict:
        return dict
    if type(x) is seqs.MSet:
        return set
    if isa(x, SDate):
        return _dt.date
    if isa(x, SDateTime):
        return _dt.datetime
    if isa(x, Rec):
        c = x._r_class()
        if c is None:
            raise Unsupported('type of record')
        return c
    if isa(x, SOpaque):
        raise Unsupported('type of opaque object')
    if isa(x, Proxy):
        raise Unsupported(f'type of {type(x).__name__}')
    return type(x)


def type_is(a, b):
    """type object identity with at least one SType."""
    if isa(a, SType) and isa(b, SType):
        return pytype(resolve(a.v)) is pytype(resolve(b.v))
    s, c = (a, b) if isa(a, SType) else (b, a)
    v = s.v
    if isa(v, SAny):
        t = tag_cond(v.t, c, exact=True)
        if t is not None:
            return mkbool(t)
    return pytype(resolve(v)) is c


def tag_cond(t, c, exact):
    """z3 condition that Val term t is an instance of class c (exact type)."""
    o = Val.o(t)
    isobj = Val.is_vobj(t)
    if c is type(None):
        return Val.is_none(t)
    if c is bool:
        return Val.is_vbool(t)
    if c is int:
        return Val.is_vint(t) if exact else zor(Val.is_vint(t), Val.is_vbool(t))
    if c is float:
        return Val.is_vflt(t)
    if c is str:
        return Val.is_vstr(t)
    if c is list:
        return zand(isobj, KIND(o) == K_LIST)
    if c is dict:
        return zand(isobj, KIND(o) == K_DICT)
    if c is tuple:
        return zand(isobj, KIND(o) == K_TUPLE)
    if c is set:
        return zand(isobj, KIND(o) == K_SET)
    if c is _dt.date:
        if exact:
            return zand(isobj, KIND(o) == K_DATE)
        return zand(isobj, zor(KIND(o) == K_DATE, KIND(o) == K_DATETIME))
    if c is _dt.datetime:
        return zand(isobj, KIND(o) == K_DATETIME)
    if c is object and not exact:
        return z3.BoolVal(True)
    return None


# ------------------------------------------------------------------ records
class Rec:
    """A record: an object standing for a collaborator described by a
    contract; its attributes are declared, anything else is out of reach."""
    __pvc_rec__ = True

    def __init__(self, tag, idx=(), cls=None, attrs=None, onset=None, oid=None):
        d = self.__dict__
        d['_r_tag'], d['_r_idx'], d['_r_cls'] = tag, tuple(idx), cls
        d['_r_attrs'] = dict(attrs or {})
        d['_r_cache'] = {}
        d['_r_onset'] = onset
        d['_r_oid'] = oid

    def _r_class(self):
        return self.__dict__['_r_cls']

    def oid_term(self):
        d = self.__dict__
        if d['_r_oid'] is None:
            if d['_r_idx']:
                f = z3.Function('oid_' + d['_r_tag'], *([I] * len(d['_r_idx'])), I)
                o = f(*[num_term(x)[1] for x in d['_r_idx']])
                d['_r_oid'] = o
            else:
                d['_r_oid'] = oid_of_const(self)
        return d['_r_oid']

    def __getattribute__(self, name):
        if name in ('_r_class', 'oid_term', '__dict__', '__pvc_rec__'):
            return object.__getattribute__(self, name)
        d = object.__getattribute__(self, '__dict__')
        if name == '__class__':
            c = d['_r_cls']
            return Rec if c is None else c
        attrs = d['_r_attrs']
        if name in attrs:
            c = d['_r_cache']
            if name not in c:
                v = attrs[name]
                if isa(v, Thunk):
                    v = v.fn()
                c[name] = v
            return c[name]
        if name.startswith('__') and name.endswith('__'):
            return object.__getattribute__(self, name)
        if attrs.get('*missing*') == 'AttributeError':
            raise AttributeError(name)
        if '*missing*' in attrs:
            raise AttributeError(name)
        raise Unsupported(f"record {d['_r_tag']} has no attribute {name}")

    def __setattr__(self, name, value):
        h = self.__dict__['_r_onset']
        if h is None:
            raise Unsupported(f"set {name} on record {self.__dict__['_r_tag']}")
        h(name, value)

    def __eq__(self, o):
        return _eq(self, o)

    def __ne__(self, o):
        return neg(_eq(self, o))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True

    def __repr__(self):
        return f"Rec({self.__dict__['_r_tag']}, {self.__dict__['_r_idx']})"


class Thunk:
    def __init__(self, fn):
        self.fn = fn


def rec_is(a, b):
    if a is b:
        return True
    if type(a) is Rec and type(b) is Rec:
        x, y = a.__dict__, b.__dict__
        if x['_r_tag'] != y['_r_tag'] or len(x['_r_idx']) != len(y['_r_idx']):
            return False
        return mkbool(zand(*[num_term(p)[1] == num_term(q)[1]
                             for p, q in zip(x['_r_idx'], y['_r_idx'])]))
    if isa(a, SAny) or isa(b, SAny):
        return mkbool(to_val(a) == to_val(b))
    return False


def rec_eq(a, b):
    for x, y in ((a, b), (b, a)):
        if type(x) is Rec:
            h = x.__dict__['_r_attrs'].get('*eq*')
            if h is not None:
                return h(x, y)
    return rec_is(a, b)

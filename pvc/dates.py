"""Symbolic dates: a date is its ordinal, a datetime its microseconds since
0001-01-01; year, month and day are uninterpreted functions of the ordinal with
the axioms a proof instantiates. An aware datetime is in UTC."""
import datetime as _dt
import z3
from . import core, vals, hooks
from .core import Unsupported, isa
from .vals import (SDate, SDateTime, DORD, DTV, DTA, KIND, I, B, S, DAY_US, mkint, mkbool, mkstr,
                   resolve, num_term, eng, sterm)
from .hooks import CALLS, symbolic

Y = z3.Function('d_year', I, I)
M = z3.Function('d_month', I, I)
D = z3.Function('d_day', I, I)
ORD = z3.Function('d_ord', I, I, I, I)
DIM = z3.Function('d_dim', I, I, I)
DOID = z3.Function('d_oid', I, I)
TOID = z3.Function('dt_oid', I, B, I)
ISO = z3.Function('dt_iso', I, B, S)
DISO = z3.Function('d_iso', I, S)
MAXORD = _dt.date.max.toordinal()


def note():
    eng().assumptions.add('dates: year, month, day and ordinal are related by the axioms of '
                          'pvc/dates.py only; aware datetimes are in UTC')
    eng().approx = True


def known(o):
    """Axioms of the ordinal o."""
    e = eng()
    e.add(z3.And(o >= 1, o <= MAXORD, Y(o) >= 1, Y(o) <= 9999, M(o) >= 1, M(o) <= 12, D(o) >= 1,
                 D(o) <= DIM(Y(o), M(o)), DIM(Y(o), M(o)) >= 28, DIM(Y(o), M(o)) <= 31,
                 ORD(Y(o), M(o), D(o)) == o))
    note()


def mkdate(o):
    e = eng()
    o = z3.simplify(o)
    k = DOID(o)
    e.add(z3.And(KIND(k) == vals.K_DATE, DORD(k) == o, k >= 0, k < vals.CONST_BASE))
    return SDate(k)


def mkdt(us, aware):
    e = eng()
    us = z3.simplify(us)
    k = TOID(us, aware)
    e.add(z3.And(KIND(k) == vals.K_DATETIME, DTV(k) == us, DTA(k) == aware, k >= 0,
                 k < vals.CONST_BASE))
    return SDateTime(us, aware, k)


def iterm(x):
    n = num_term(resolve(x))
    if n is None or not n[0]:
        raise TypeError('an integer is required')
    return n[1]


def ordinal(y, m, d):
    e = eng()
    y, m, d = iterm(y), iterm(m), iterm(d)
    note()
    if not e.decide(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1)):
        raise ValueError('date out of range')
    e.add(z3.And(DIM(y, m) >= 28, DIM(y, m) <= 31))
    if not e.decide(d <= DIM(y, m)):
        raise ValueError('day is out of range for month')
    o = ORD(y, m, d)
    e.add(z3.And(o >= 1, o <= MAXORD, Y(o) == y, M(o) == m, D(o) == d))
    return o


def tod(h, mi, s, us):
    e = eng()
    h, mi, s, us = iterm(h), iterm(mi), iterm(s), iterm(us)
    if not e.decide(z3.And(h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, us >= 0, us < 1000000)):
        raise ValueError('time out of range')
    return ((h * 60 + mi) * 60 + s) * 1000000 + us


def dord(self):
    return DORD(self.o) if isa(self, SDate) else z3.simplify(self.us / DAY_US) + 1


def parts(self):
    """(ordinal, microseconds of the day) of a datetime, with axioms."""
    e = eng()
    q = z3.Function('dt_q', I, I)(self.us)
    r = z3.Function('dt_r', I, I)(self.us)
    e.add(z3.And(self.us == (q - 1) * DAY_US + r, r >= 0, r < DAY_US, self.us >= 0))
    known(q)
    return q, r


def hms(r):
    return r / 3600000000, (r / 60000000) % 60, (r / 1000000) % 60, r % 1000000


def getattr_date(self, n):
    if n in ('year', 'month', 'day'):
        o = DORD(self.o)
        known(o)
        return mkint({'year': Y, 'month': M, 'day': D}[n](o))
    if n == 'replace':
        def replace(year=None, month=None, day=None):
            g = lambda v, k: getattr_date(self, k) if v is None else v
            return mkdate(ordinal(g(year, 'year'), g(month, 'month'), g(day, 'day')))
        return replace
    if n == 'toordinal':
        return lambda: mkint(DORD(self.o))
    if n == 'isoformat':
        note()
        return lambda: mkstr(DISO(DORD(self.o)))
    raise Unsupported(f'date.{n}')


def getattr_dt(self, n):
    e = eng()
    if n in ('year', 'month', 'day'):
        q, r = parts(self)
        return mkint({'year': Y, 'month': M, 'day': D}[n](q))
    if n in ('hour', 'minute', 'second', 'microsecond'):
        q, r = parts(self)
        return mkint(hms(r)[('hour', 'minute', 'second', 'microsecond').index(n)])
    if n == 'tzinfo':
        return _dt.timezone.utc if e.decide(self.aware) else None
    if n == 'replace':
        def replace(year=None, month=None, day=None, hour=None, minute=None, second=None,
                    microsecond=None, tzinfo=True):
            q, r = parts(self)
            h = hms(r)
            if year is None and month is None and day is None:
                o = q
            else:
                o = ordinal(mkint(Y(q)) if year is None else year,
                            mkint(M(q)) if month is None else month,
                            mkint(D(q)) if day is None else day)
            t = tod(mkint(h[0]) if hour is None else hour, mkint(h[1]) if minute is None else minute,
                    mkint(h[2]) if second is None else second,
                    mkint(h[3]) if microsecond is None else microsecond)
            aw = self.aware if tzinfo is True else aware_of(tzinfo)
            return mkdt((o - 1) * DAY_US + t, aw)
        return replace
    if n == 'date':
        def date():
            q, r = parts(self)
            return mkdate(q)
        return date
    if n == 'astimezone':
        def astimezone(tz):
            if tz is not _dt.timezone.utc or not e.decide(self.aware):
                raise Unsupported('astimezone')
            return self
        return astimezone
    if n == 'isoformat':
        def isoformat(*a):
            if a:
                raise Unsupported('isoformat arguments')
            note()
            return mkstr(ISO(self.us, self.aware))
        return isoformat
    raise Unsupported(f'datetime.{n}')


def aware_of(tz):
    tz = resolve(tz)
    if tz is None:
        return z3.BoolVal(False)
    if tz is _dt.timezone.utc:
        return z3.BoolVal(True)
    raise Unsupported('tzinfo')


SDate.__getattr__ = getattr_date
SDateTime.__getattr__ = getattr_dt
MAXUS = MAXORD * DAY_US


def _td(o):
    o = resolve(o)
    if not isa(o, _dt.timedelta):
        raise Unsupported('date arithmetic')
    return o


def dt_add(self, o, sg=1):
    o = _td(o)
    us = self.us + sg * ((o.days * 86400 + o.seconds) * 1000000 + o.microseconds)
    eng().add(self.us >= 0)
    eng().add(self.us < MAXUS)
    if not eng().decide(z3.And(us >= 0, us < MAXUS)):
        raise OverflowError('date value out of range')
    return mkdt(us, self.aware)


def d_add(self, o, sg=1):
    o = _td(o)
    n = DORD(self.o) + sg * o.days
    if not eng().decide(z3.And(n >= 1, n <= MAXORD)):
        raise OverflowError('date value out of range')
    return mkdate(n)


SDateTime.__add__ = dt_add
SDate.__add__ = d_add
SDateTime.__sub__ = lambda s, o: dt_add(s, o, -1)
SDate.__sub__ = lambda s, o: d_add(s, o, -1)


def sy(*a):
    return any(symbolic(x) for x in a)


@hooks.handles(_dt.date)
def date_(year, month=None, day=None):
    if not sy(year, month, day):
        return _dt.date(year, month, day)
    return mkdate(ordinal(year, month, day))


@hooks.handles(_dt.datetime)
def datetime_(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
    if not sy(year, month, day, hour, minute, second, microsecond, tzinfo):
        return _dt.datetime(year, month, day, hour, minute, second, microsecond, tzinfo)
    o = ordinal(year, month, day)
    return mkdt((o - 1) * DAY_US + tod(hour, minute, second, microsecond), aware_of(tzinfo))


@hooks.handles(_dt.datetime.combine)
def combine_(d, t):
    d = resolve(d)
    t = resolve(t)
    if not sy(d, t):
        return _dt.datetime.combine(d, t)
    if not isa(d, SDate) or not isa(t, _dt.time) or t.tzinfo is not None:
        raise Unsupported('combine')
    us = ((t.hour * 60 + t.minute) * 60 + t.second) * 1000000 + t.microsecond
    eng().add(z3.And(DORD(d.o) >= 1, DORD(d.o) <= MAXORD))
    return mkdt((DORD(d.o) - 1) * DAY_US + us, z3.BoolVal(False))


def _iso(real, name):
    def h(s):
        s = resolve(s)
        if not symbolic(s):
            return real(s)
        t = sterm(s)
        if t is None:
            raise TypeError('fromisoformat: argument must be str')
        note()
        if not eng().decide(z3.Function(name + '_ok', S, B)(t)):
            raise ValueError('Invalid isoformat string')
        if name == 'd_from':
            o = z3.Function('d_from', S, I)(t)
            eng().add(z3.And(o >= 1, o <= MAXORD))
            return mkdate(o)
        us = z3.Function('dt_from', S, I)(t)
        eng().add(z3.And(us >= 0, us < MAXUS))
        return mkdt(us, z3.Function('dt_from_aware', S, B)(t))
    CALLS[real] = h


_iso(_dt.date.fromisoformat, 'd_from')
_iso(_dt.datetime.fromisoformat, 'dt_from')

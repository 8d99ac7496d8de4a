"""C23: dates and datetimes survive JSON, and denote the same day and
instant."""
from __future__ import annotations
from datetime import date, datetime, timedelta, timezone
from contracts.base import *
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types
from jsonclasses.modifiers.date_modifier import DateModifier
from jsonclasses.modifiers.datetime_modifier import DatetimeModifier
from jsonclasses.modifiers.fmtd_modifier import FormatDatetimeModifier

OTHER = ('none', 'bool', 'int', 'float', 'list', 'dict', 'opaque')


def parsed(f, x):
    try:
        return f(x)
    except ValueError:
        return None


@contract('C23', 'date.input', covers=('text', 'bad text', 'date', 'other'))
def _(E):
    v = E.any('v', OTHER + ('str', 'date', 'datetime'))
    ctx = mkctx(E, v)
    out = E.call(DateModifier().transform, ctx)
    if isinstance(v, str):
        want = parsed(date.fromisoformat, v[:10])
        if rejects(E, out, 'transform'):
            E.check('reported only for a text that is no date', want is None)
            one_message(E, out, ctx)
            E.cover('bad text')
        else:
            E.check('the day the text names', want is not None and out.v == want and type(out.v) is date)
            E.cover('text')
        return
    E.check('returns', out.kind == 'ret')
    if isinstance(v, datetime):
        E.check('the day of the datetime', type(out.v) is date and out.v == v.date())
        E.cover('date')
    else:
        E.same('passed on', out.v, v)
        E.cover('other')


@contract('C23', 'datetime.input', covers=('text', 'bad text', 'date', 'other'))
def _(E):
    v = E.any('v', OTHER + ('str', 'date', 'datetime'))
    ctx = mkctx(E, v)
    out = E.call(DatetimeModifier().transform, ctx)
    if isinstance(v, str):
        want = parsed(datetime.fromisoformat, v.replace('Z', ''))
        if rejects(E, out, 'transform'):
            E.check('reported only for a text that is no datetime', want is None)
            one_message(E, out, ctx)
            E.cover('bad text')
        else:
            E.check('a datetime in UTC', want is not None and out.v.tzinfo is timezone.utc)
            E.check('the instant the text names', out.v == (
                want.replace(tzinfo=timezone.utc) if want.tzinfo is None else want))
            E.cover('text')
        return
    E.check('returns', out.kind == 'ret')
    if isinstance(v, date) and not isinstance(v, datetime):
        E.check('midnight UTC of the day', isinstance(out.v, datetime) and out.v == datetime(
            v.year, v.month, v.day, tzinfo=timezone.utc))
        E.cover('date')
    else:
        E.same('passed on', out.v, v)
        E.cover('other')


@contract('C23', 'date.output')
def _(E):
    v = E.any('v', ('none', 'date'))
    out = E.call(DateModifier().tojson, mkctx(E, v))
    E.check('returns', out.kind == 'ret')
    E.same('the text', out.v, None if v is None else v.isoformat() + 'T00:00:00.000Z')


@contract('C23', 'datetime.output')
def _(E):
    """The UTC time to the millisecond; a datetime without a zone is UTC."""
    v = E.any('v', ('none', 'datetime'))
    out = E.call(DatetimeModifier().tojson, mkctx(E, v))
    E.check('returns', out.kind == 'ret')
    E.same('the text', out.v, None if v is None else
           (v if v.tzinfo is None else v.astimezone(timezone.utc).replace(tzinfo=None)).isoformat()[:23] + 'Z')


@contract('C23', 'output.frame')
def _(E):
    """Texts and nulls pass through formatting's other stages."""
    v = E.any('v', ('none', 'bool', 'int', 'date', 'datetime', 'opaque'))
    f = FormatDatetimeModifier('%Y')
    E.same('input is left alone', f.transform(mkctx(E, v)), v)
    if v is None or isinstance(v, (bool, int)):
        E.same('passed on', f.tojson(mkctx(E, v)), v)


@jsonclass(class_graph='c23')
class DtA:
    d: date | None = types.date
    t: datetime | None = types.datetime
    ds: list[date] = types.listof(types.date)
    ts: dict[str, datetime] = types.dictof(types.datetime)
    f: datetime | None = types.datetime.fmtd('%Y-%m-%d %H:%M')


def rnd_date(E, n):
    return date(E.choice(n + 'y', [1, 4, 1000, 1900, 1970, 1999, 2000, 2020, 2024, 9999]), E.int(n + 'm', 1, 12),
                E.int(n + 'd', 1, 28))


def rnd_dt(E, n):
    z = E.choice(n + 'z', [None, 0, 60, -330, 345, 719, -719])
    d = rnd_date(E, n)
    if d.year in (1, 9999):
        z = None
    return datetime(d.year, d.month, d.day, E.int(n + 'h', 0, 23), E.int(n + 'i', 0, 59), E.int(n + 's', 0, 59),
                    E.choice(n + 'u', [0, 0, 1, 999, 1000, 500000, 999000, 999999]),
                    tzinfo=None if z is None else timezone(timedelta(minutes=z)))


def utc_ms(v):
    v = v.replace(tzinfo=timezone.utc) if v.tzinfo is None else v.astimezone(timezone.utc)
    return v.replace(microsecond=v.microsecond // 1000 * 1000)


@contract('C23', 'round.trip', native=True, n=800)
def _(E):
    """Whole objects, dates of all years, datetimes of all zones: JSON output
    reads back as the same day and instant, to the millisecond."""
    d, t, u = rnd_date(E, 'd'), rnd_dt(E, 't'), rnd_dt(E, 'u')
    o = DtA(d=d, t=t, ds=[d], ts={'k': u}, f=t)
    o.validate()
    j = o.tojson()
    E.check('date text', j['d'] == '%04d-%02d-%02dT00:00:00.000Z' % (d.year, d.month, d.day), detail=j['d'])
    w = utc_ms(t)
    frac = '.%03d' % (w.microsecond // 1000) if t.microsecond else ''
    E.check('datetime text', j['t'] == '%04d-%02d-%02dT%02d:%02d:%02d%sZ' % (
        w.year, w.month, w.day, w.hour, w.minute, w.second, frac), detail=f"{t} {j['t']}")
    p = DtA(**{k: v for k, v in j.items() if k != 'f'})
    E.check('the same day', p.d == d and list(p.ds) == [d])
    E.check('the same instant', p.t == w and p.ts['k'] == utc_ms(u), detail=f'{t} {p.t}')
    E.check('in UTC', p.t.utcoffset() == timedelta(0))
    E.check('formatted', j['f'] == w.strftime('%Y-%m-%d %H:%M'), detail=f"{t} {j['f']}")
    E.check('the same output again', p.tojson()['t'] == j['t'].replace('.000Z', 'Z') or p.tojson()['t'] == j['t'])
    off = E.choice('off', ['', 'Z', '+00:00', '+05:30', '-11:00'])
    if 4 < t.year < 9999:
        text = t.replace(tzinfo=None).isoformat() + off
        q = DtA(t=text).t
        want = t.replace(tzinfo=None).replace(tzinfo=timezone.utc)
        if off[:1] in ('+', '-'):
            sg = 1 if off[0] == '+' else -1
            want = want - sg * timedelta(hours=int(off[1:3]), minutes=int(off[4:6]))
        E.check('text with a zone', q == want and q.utcoffset() == timedelta(0), detail=f'{text} {q}')
    E.check('a date as datetime', DtA(t=d).t == datetime(d.year, d.month, d.day, tzinfo=timezone.utc))
    E.check('a datetime as date', DtA(d=t).d == t.date())
    for bad in ('nope', '2020-13-01', '2020-02-30T00:00:00Z', ''):
        for kw in ({'d': bad}, {'t': bad}, {'ds': [bad]}, {'ts': {'k': bad}}):
            out = E.call(DtA, **kw)
            E.check('bad text is reported', out.kind == 'exc' and isinstance(out.v, ValidationException), detail=repr(kw))

"""C07: every value transformer computes its documented function on the values
it is defined for and hands every other value through untouched."""
from contracts.base import *
from jsonclasses.modifiers import *
from math import ceil, floor, sqrt
from datetime import date, datetime, timedelta
from re import sub
import sys
from jsonclasses.fdef import FStore
from jsonclasses.objref import ObjRef
from jsonclasses.types import types

STANDINS = True     # some objects here only have what the code is known to ask

PLAIN = ('none', 'bool', 'int', 'float', 'str', 'list', 'dict', 'date', 'datetime')


def pform(E, p):
    k = E.choice('pform', [0, 1, 2, 3])
    if k == 0:
        return p
    if k == 1:
        return lambda: p
    if k == 2:
        return lambda o: p
    return lambda o, c: p


def transformer(name, mk, spec, vals=None, method='transform', **opts):
    """mk(E) -> (modifier, params); spec(v, *params): the result."""
    def fn(E):
        mod, ps = mk(E)
        v = E.any('v') if vals is None else vals(E)
        ctx = mkctx(E, v)
        want = E.call(spec, v, *ps)
        out = E.call(getattr(mod, method), ctx)
        if want.kind == 'exc':
            E.check('raises what the underlying operation raises',
                    out.kind == 'exc' and type(out.v) is type(want.v), incomplete=True)
            return
        E.check('returns a value', out.kind == 'ret', incomplete=True, detail=repr(out))
        E.same('result', out.v, want.v)
        E.check('the context is not changed', ctx.val is v)
    contract('C07', name, **opts)(fn)


def zero(cls):
    return lambda E: (cls(), ())


def nump(cls):
    def mk(E):
        p = E.num('p')
        return cls(pform(E, p)), (p,)
    return mk


def intp(cls):
    def mk(E):
        p = E.int('p')
        return cls(pform(E, p)), (p,)
    return mk


def strp(cls):
    def mk(E):
        p = E.str('p')
        return cls(pform(E, p)), (p,)
    return mk


def plainp(cls):
    def mk(E):
        p = E.any('p', PLAIN)
        return cls(pform(E, p)), (p,)
    return mk


def num(f):
    return lambda v, *p: f(v, *p) if is_num(v) else v


def txt(f):
    return lambda v, *p: f(v, *p) if isinstance(v, str) else v


transformer('abs', zero(AbsModifier), num(lambda v: abs(v)))
transformer('ceil', zero(CeilModifier), num(lambda v: ceil(v)))
transformer('floor', zero(FloorModifier), num(lambda v: floor(v)))
transformer('round', zero(RoundModifier), num(lambda v: round(v)))
transformer('add', nump(AddModifier), num(lambda v, p: p + v))
transformer('sub', nump(SubModifier), num(lambda v, p: v - p))
transformer('mul', nump(MulModifier), num(lambda v, p: p * v))
transformer('div', nump(DivModifier), num(lambda v, p: v / p))
transformer('mod', nump(ModModifier), num(lambda v, p: v % p))
transformer('lowerbond', nump(LowerbondModifier), num(lambda v, p: p if v < p else v))
transformer('upperbond', nump(UpperbondModifier), num(lambda v, p: p if v > p else v))
transformer('inverse', zero(InverseModifier), lambda v: not v if type(v) is bool else v)
transformer('len', zero(LenModifier), lambda v: len(v) if isinstance(v, list) or isinstance(v, str) else v)
transformer('reverse', zero(ReverseModifier),
            lambda v: v[::-1] if isinstance(v, list) or isinstance(v, str) else v)
transformer('tocap', zero(ToCapModifier), txt(lambda v: v.capitalize()))
transformer('tolower', zero(ToLowerModifier), txt(lambda v: v.lower()))
transformer('toupper', zero(ToUpperModifier), txt(lambda v: v.upper()))
transformer('totitle', zero(ToTitleModifier), txt(lambda v: v.title()))
transformer('trim', zero(TrimModifier), txt(lambda v: v.strip()))
transformer('tobool', zero(ToBoolModifier), lambda v: bool(v),
            lambda E: E.any('v', PLAIN))
transformer('tofloat', zero(ToFloatModifier),
            lambda v: float(v) if type(v) is bool or type(v) is str else v)
transformer('toint', zero(ToIntModifier),
            lambda v: int(v) if type(v) is bool or type(v) is str else v)
transformer('tostr', zero(ToStrModifier),
            lambda v: str(v) if type(v) is bool or is_num(v) else v)
transformer('tolist', zero(ToListModifier), lambda v: list(v) if type(v) is str else v)
transformer('wrapintolist', zero(WrapIntoListModifier), lambda v: None if v is None else [v])
transformer('truncate', intp(TruncateModifier),
            lambda v, p: v[:p] if isinstance(v, list) or isinstance(v, str) else v,
            lambda E: E.any('v', ('none', 'bool', 'int', 'float', 'str', 'list', 'date')))
transformer('append', plainp(AppendModifier),
            lambda v, p: v + [p] if isinstance(v, list) else v + str(p) if isinstance(v, str) else v)


def mk_prepend(E):
    p = E.str('p')
    return PrependModifier(pform(E, p)), (p,)


transformer('prepend', mk_prepend,
            lambda v, p: [p] + v if isinstance(v, list) else p + v if isinstance(v, str) else v)


def mk_insertat(E):
    p = E.str('p')
    i = E.int('i')
    return InsertAtModifier(p, pform(E, i)), (p, i)


transformer('insertat', mk_insertat, lambda v, p, i: v[:i] + [p] + v[i:] if isinstance(v, list)
            else v[:i] + p + v[i:] if isinstance(v, str) else v)


def mk_pad(cls):
    def mk(E):
        c = E.str('c')
        n = E.int('n')
        return cls(c, pform(E, n)), (c, n)
    return mk


transformer('padend', mk_pad(PadEndModifier), txt(lambda v, c, n: v + (n - len(v)) * c))
transformer('padstart', mk_pad(PadStartModifier), txt(lambda v, c, n: (n - len(v)) * c + v))


def mk_replace(cls):
    def mk(E):
        a = E.str('a')
        b = E.str('b')
        return cls(pform(E, a), b), (a, b)
    return mk


transformer('replace', mk_replace(ReplaceModifier), txt(lambda v, a, b: v.replace(a, b)))
transformer('split', strp(SplitModifier), txt(lambda v, p: v.split(p)))


def notlist(E):
    return E.any('v', ('none', 'bool', 'int', 'float', 'str', 'dict', 'date', 'opaque'))


transformer('join.other', strp(JoinModifier), lambda v, p: v, notlist)


@contract('C07', 'join')
def _(E):
    v = E.list('v', lambda e: e.str('x'))
    p = E.str('p')
    out = E.call(JoinModifier(pform(E, p)).transform, mkctx(E, v))
    E.check('returns', out.kind == 'ret', incomplete=True)
    E.same('result', out.v, p.join(v))


def mk_default(E):
    p = E.any('p', PLAIN)
    if E.choice('fn', [True, False]):
        return DefaultModifier(lambda: p), (p,)
    return DefaultModifier(p), (p,)


transformer('default', mk_default, lambda v, p: p if v is None else v)


def mk_at(E):
    i = E.int('i')
    return AtModifier(pform(E, i)), (i,)


transformer('at.list', mk_at, lambda v, i: None if v is None else v[i],
            lambda E: E.any('v', ('none', 'list')))


def mk_atkey(E):
    i = E.str('i')
    return AtModifier(pform(E, i)), (i,)


transformer('at.dict', mk_atkey, lambda v, i: None if v is None else v[i],
            lambda E: E.any('v', ('none', 'dict')))


def mk_fn(cls):
    def mk(E):
        f = E.uf('f')
        if E.choice('two', [True, False]):
            return cls(lambda v, c: f(v)), (f,)
        return cls(lambda v: f(v)), (f,)
    return mk


transformer('transform', mk_fn(TransformModifier), lambda v, f: None if v is None else f(v))
transformer('fmt', mk_fn(FmtModifier), lambda v, f: None if v is None else f(v), method='tojson')


def mk_map(cls, ret):
    def mk(E):
        f = E.uf('f', ret)
        return cls(lambda v: f(v)), (f,)
    return mk


transformer('map', mk_map(MapModifier, 'any'), lambda v, f: [f(x) for x in v] if isinstance(v, list) else v)
transformer('filter', mk_map(FilterModifier, 'bool'),
            lambda v, f: [x for x in v if f(x)] if isinstance(v, list) else v)
transformer('float', zero(FloatModifier), lambda v: float(v) if type(v) is int else v)
transformer('hexcolor', zero(HexColorModifier), txt(lambda v: v[1:] if v.startswith('#') else v))


@contract('C07', 'sqrt', covers=('neg', 'ok', 'other'))
def _(E):
    v = E.any('v')
    out = E.call(SqrtModifier().transform, mkctx(E, v))
    if not is_num(v):
        E.check('passes other values', out.kind == 'ret', incomplete=True)
        E.same('unchanged', out.v, v)
        E.cover('other')
    elif v < 0:
        E.check('negative numbers are rejected', out.kind == 'exc' and isinstance(out.v, ValidationException),
                incomplete=True)
        E.cover('neg')
    else:
        E.check('returns', out.kind == 'ret', incomplete=True)
        E.same('square root', out.v, sqrt(v))
        E.cover('ok')


@contract('C07', 'context.values')
def _(E):
    root, op, pi = E.obj(), E.obj(), E.any('passin')
    owner = E.obj()
    ctx = mkctx(E, E.any('v'), root=root, owner=owner, operator=op, passin=pi)
    E.check('this', ThisModifier().transform(ctx) is owner)
    E.check('getop', GetOpModifier().transform(ctx) is op)
    E.same('passin', PassinModifier().transform(ctx), pi)


# --- dates -----------------------------------------------------------------
def dates(name, cls, fdt, fd):
    def fn(E):
        v = E.any('v')
        out = E.call(cls().transform, mkctx(E, v))
        if type(v) is datetime:
            want = E.call(fdt, v)
        elif type(v) is date:
            want = E.call(fd, v)
        else:
            want = E.call(lambda: v)
        if want.kind == 'exc':
            E.check('out of range dates', out.kind == 'exc', incomplete=True)
            return
        E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
        E.same('result', out.v, want.v)
    contract('C07', name)(fn)


same_d = lambda d: d
dates('toboday', ToBoDayModifier, lambda d: d.replace(microsecond=0, second=0, minute=0, hour=0), same_d)
dates('tobohour', ToBoHourModifier, lambda d: d.replace(microsecond=0, second=0, minute=0), same_d)
dates('tobomin', ToBoMinModifier, lambda d: d.replace(microsecond=0, second=0), same_d)
dates('tobosec', ToBoSecModifier, lambda d: d.replace(microsecond=0), same_d)
dates('tobomon', ToBoMonModifier, lambda d: d.replace(microsecond=0, second=0, minute=0, hour=0, day=1),
      lambda d: d.replace(day=1))
dates('toboyear', ToBoYearModifier,
      lambda d: d.replace(microsecond=0, second=0, minute=0, hour=0, day=1, month=1),
      lambda d: d.replace(day=1, month=1))
dates('tonextday', ToNextDayModifier,
      lambda d: (d + timedelta(days=1)).replace(microsecond=0, second=0, minute=0, hour=0),
      lambda d: d + timedelta(days=1))
dates('tonexthour', ToNextHourModifier,
      lambda d: (d + timedelta(hours=1)).replace(microsecond=0, second=0, minute=0), same_d)
dates('tonextmin', ToNextMinModifier,
      lambda d: (d + timedelta(minutes=1)).replace(microsecond=0, second=0), same_d)
dates('tonextsec', ToNextSecModifier,
      lambda d: (d + timedelta(seconds=1)).replace(microsecond=0), same_d)
dates('tonextmon', ToNextMonModifier,
      lambda d: datetime(d.year + (1 if d.month == 12 else 0), 1 if d.month == 12 else d.month + 1, 1,
                         tzinfo=d.tzinfo),
      lambda d: date(d.year + (1 if d.month == 12 else 0), 1 if d.month == 12 else d.month + 1, 1))
dates('tonextyear', ToNextYearModifier, lambda d: datetime(d.year + 1, 1, 1, tzinfo=d.tzinfo),
      lambda d: date(d.year + 1, 1, 1))


# --- the rest ----------------------------------------------------------------
def small(E, x):
    if is_num(x):
        E.assume(x > -64 and x < 64)
    return x


def pow_mk(E):
    p = small(E, E.num('p'))
    E.assume(p > 0)
    return PowModifier(pform(E, p)), (p,)


transformer('pow', pow_mk, num(lambda v, p: pow(p, v)), lambda E: small(E, E.any('v')))


def replacer_mk(E):
    reg, rep = E.choice('reg', ['a', '[0-9]+', r'(\w)-', '', '^x|y$']), E.choice('rep', ['', 'z', 'aa', r'\g<0>'])
    return ReplacerModifier(pform(E, reg), pform(E, rep)), (reg, rep)


transformer('replacer', replacer_mk, txt(lambda v, reg, rep: sub(reg, rep, v)))


@contract('C07', 'fval', covers=('null', 'object', 'reference', 'value'))
def _(E):
    """The value of a field; for a reference that is not loaded, what it
    refers to."""
    cur, key = E.any('cur', ('none', 'int', 'str', 'bool')), E.any('key', ('none', 'int', 'str'))
    store = E.choice('store', list(FStore))
    name, refname = 'f', 'f_id'
    field = E.obj(fdef=E.obj(fstore=store, inst_cls=Far))

    class Host:
        def __getattribute__(self, n):
            if n == '__class__' or n == '__dict__':
                return object.__getattribute__(self, n)
            E.check('only the field and its reference key are read', n == name or n == refname)
            return cur if n == name else key

    def named(n):
        E.check('the field of that name', n == name)
        return field

    def strategy(f):
        E.check('the reference key of that field', f is field)
        return refname
    Host.cdef = E.obj(field_named=named, jconf=E.obj(ref_name_strategy=strategy))
    none = E.choice('null', [True, False])
    out = E.call(FValModifier(pform(E, name)).transform, mkctx(E, None if none else Host()))
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    if none:
        E.cover('null')
        E.check('null stays null', out.v is None)
    elif store != FStore.LOCAL_KEY or cur is not None:
        E.cover('object' if store == FStore.LOCAL_KEY else 'value')
        E.same('the value of the field', out.v, cur)
    elif key is None:
        E.check('no reference', out.v is None)
    else:
        E.cover('reference')
        E.check('a reference', type(out.v) is ObjRef)
        E.same('to the object with that key', [out.v.cls, out.v.id], ['Far', key])


class Far:
    pass


@contract('C07', 'fobj', covers=('null', 'there', 'fetched'))
def _(E):
    """The object of a field, which is fetched first when it is not there."""
    cur, later = E.any('cur', ('none', 'int', 'str', 'bool')), E.any('later', ('none', 'int', 'str'))
    name = 'f'
    asked = []

    class Host:
        def __getattribute__(self, n):
            if n == 'include' or n == '__class__' or n == '__dict__':
                return object.__getattribute__(self, n)
            E.check('that field is read', n == name)
            return cur if len(asked) == 0 else later

        def include(self, n):
            asked.append(n)
    none = E.choice('null', [True, False])
    out = E.call(FObjModifier(pform(E, name)).transform, mkctx(E, None if none else Host()))
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    if none:
        E.cover('null')
        E.check('null stays null', out.v is None)
        E.same('nothing fetched', asked, [])
    elif cur is not None:
        E.cover('there')
        E.same('the value', out.v, cur)
        E.same('nothing fetched', asked, [])
    else:
        E.cover('fetched')
        E.same('fetched', asked, [name])
        E.same('the fetched value', out.v, later)


class Tgt:
    pass


@contract('C07', 'assign')
def _(E):
    """Sets the named attribute of the value and hands the value on."""
    o = Tgt()
    o.a, o.b = E.any('a', PLAIN), E.any('b', PLAIN)
    a, b, p = o.a, o.b, E.any('p', PLAIN)
    form = E.choice('form', [0, 1, 2])
    E.assume(form != 0 or not callable(p))
    m = AssignModifier(E.choice('name', ['a', 'b']), [p, lambda: p, types.default(p)][form])
    n = m.name
    if form == 2:
        # a declaration is given the value itself
        q = (True, p)
        m = AssignModifier(n, types.transform(lambda v: (v is o, q[1])))
        p = q
    out = E.call(m.transform, mkctx(E, o))
    E.check('the value is handed on', out.kind == 'ret' and out.v is o, incomplete=True, detail=repr(out))
    E.same('set', getattr(o, n), p)
    E.same('nothing else', o.b if n == 'a' else o.a, b if n == 'a' else a)


@contract('C07', 'crossfetch', covers=('found', 'none'))
def _(E):
    """The object of the class whose key has the value of this object's."""
    asked = []
    found = E.obj(n='found') if E.choice('hit', [True, False]) else None

    class Q:
        @property
        def optional(self):
            return self

        def exec(self):
            return found

    class That:
        @classmethod
        def one(cls, **kw):
            asked.append(dict(kw))
            return Q()
    sv = E.any('sv', ('none', 'int', 'str'))

    class CD:
        cls = That

    def fetch(n):
        E.check('the class of that name', n == 'That')
        return CD
    graph = E.obj(fetch=fetch)

    class Par:
        cdef = E.obj(jconf=E.obj(cgraph=graph))
    par = Par()
    par.code = sv
    par.other = 'x'
    key = E.choice('key', [None, 'far_code'])
    m = CrossFetchModifier('That', 'code', key) if key is not None else CrossFetchModifier('That', 'code')
    out = E.call(m.transform, mkctx(E, E.any('v', ('none', 'str')), parent=par))
    E.same('asked for', asked, [{key or 'code': sv}])
    if found is None:
        E.cover('none')
        E.check('reported', out.kind == 'exc' and isinstance(out.v, ValidationException))
    else:
        E.cover('found')
        E.check('the found object', out.kind == 'ret' and out.v is found)


@contract('C07', 'uploader', covers=('null', 'function', 'named'))
def _(E):
    """What the function, or the uploader of that name, makes of the value."""
    v = E.any('v')
    up, f1, f2 = E.uf('up'), E.uf('f1'), E.uf('f2')
    seen = []

    class Up:
        def upload(self, x):
            return up(x)

    def req(n):
        E.check('the uploader of that name', n == 'pics')
        return Up()
    U = sys.modules['jsonclasses.modifiers.uploader_modifier']
    E.swap(U, request_uploader=req)
    form = E.choice('form', [0, 1, 2])

    def two(x, c):
        seen.append(c)
        return f2(x)
    ctx = mkctx(E, v)
    m = UploaderModifier(['pics', lambda x: f1(x), two][form])
    out = E.call(m.transform, ctx)
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    if v is None:
        E.cover('null')
        E.check('null stays null', out.v is None)
    elif form == 0:
        E.cover('named')
        E.same('uploaded', out.v, up(v))
    else:
        E.cover('function')
        E.same('made', out.v, f1(v) if form == 1 else f2(v))
    E.check('the context is handed over', all(c is ctx for c in seen))


@contract('C07', 'random', native=True, n=300)
def _(E):
    """Random values lie in the range, or in the alphabet, that is asked for."""
    a, b = E.int('a', -20, 20), E.int('b', -20, 20)
    out = E.call(RandomIntModifier(pform(E, a), pform(E, b)).transform, mkctx(E, None))
    if a < b:
        E.check('an int of the range', out.kind == 'ret' and type(out.v) is int and a <= out.v <= b)
    else:
        E.check('an empty range is reported', out.kind == 'exc' or a == b and out.v == a)
    x = E.call(RandomFloatModifier(pform(E, a), pform(E, b)).transform, mkctx(E, None))
    E.check('a float of the range', x.kind == 'ret' and min(a, b) <= x.v <= max(a, b))
    low = 'abcdefghijklmnopqrstuvwxyz'
    for cls, abc in ((RandomDigitsModifier, '0123456789'), (RandomAlnumsModifier, low + low.upper() + '0123456789'),
                     (RandomAlnumpuncsModifier, low + low.upper() + '0123456789' + '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')):
        n = E.int('n', 0, 9)
        t = E.call(cls(pform(E, n)).transform, mkctx(E, None))
        E.check('text of that length and alphabet', t.kind == 'ret' and type(t.v) is str and len(t.v) == n
                and all(ch in abc for ch in t.v), detail=repr(t))


@contract('C07', 'salt', native=True, n=2)
def _(E):
    """A salted text is a hash of it, and only of it, that checkpw accepts;
    anything else passes."""
    pw = E.choice('pw', ['', 'a', 'secret', 'é', 'a b'])
    h = SaltModifier().transform(mkctx(E, pw))
    h2 = SaltModifier().transform(mkctx(E, pw))
    E.check('salted', type(h) is str and h != pw and h != h2)
    for v in (None, 1, True, ['a']):
        E.check('other values pass', SaltModifier().transform(mkctx(E, v)) is v)
    chk = CheckpwModifier(types.passin)
    for given, ok in ((pw, True), (pw + 'x', False), (None, False), (5, False)):
        out = E.call(chk.validate, mkctx(E, h, passin=given))
        E.check('the password, and no other, is accepted', (out.kind == 'ret') == ok, detail=repr((pw, given, out)))
        if not ok:
            E.check('reported', isinstance(out.v, ValidationException))
    for v in (None, 5):
        out = E.call(chk.validate, mkctx(E, v, passin=pw))
        E.check('no hash, no match', out.kind == 'exc' and isinstance(out.v, ValidationException))

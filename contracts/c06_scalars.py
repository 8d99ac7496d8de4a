"""C06: every scalar rule accepts exactly the values its definition names."""
from contracts.base import *
from jsonclasses.modifiers import *
from jsonclasses.types import types
from datetime import date, datetime
from re import fullmatch, search, match as rmatch, IGNORECASE
from jsonclasses.fdef import FStore
from jsonclasses.objref import ObjRef
from jsonclasses.modifiers.cancu_modifier import CanCUModifier


def pform(E, p):
    """A rule parameter in every form a user may give it: a value, a function
    of nothing, of the owner, of the owner and the context."""
    k = E.choice('pform', [0, 1, 2, 3])
    if k == 0:
        return p
    if k == 1:
        return lambda: p
    if k == 2:
        return lambda o: p
    return lambda o, c: p


def verdict(name, mk, bad, vals=None, **opts):
    """mk(E) -> (modifier, params); bad(v, *params): v must be rejected."""
    def fn(E):
        mod, ps = mk(E)
        v = E.any('v') if vals is None else vals(E)
        ctx = mkctx(E, v)
        out = E.call(mod.validate, ctx)
        r = rejects(E, out)
        E.iff('rejected exactly when the rule is broken', r, bad(v, *ps))
        if r:
            one_message(E, out, ctx)
        E.cover('reject' if r else 'accept')
    opts.setdefault('covers', ('accept', 'reject'))
    contract('C06', name, **opts)(fn)


def zero(cls):
    return lambda E: (cls(), ())


def one(cls):
    def mk(E):
        p = E.num('p')
        return cls(pform(E, p)), (p,)
    return mk


def two(cls):
    def mk(E):
        p = E.num('p')
        q = E.num('q')
        return cls(pform(E, p), q), (p, q)
    return mk


def is_text(v):
    return isinstance(v, str)


verdict('min', one(MinModifier), lambda v, p: is_num(v) and not v >= p)
verdict('max', one(MaxModifier), lambda v, p: is_num(v) and not v <= p)
verdict('range', two(RangeModifier), lambda v, p, q: is_num(v) and (v < p or v > q))
verdict('gt', one(GtModifier), lambda v, p: is_num(v) and not v > p)
verdict('lt', one(LtModifier), lambda v, p: is_num(v) and not v < p)
verdict('even', zero(EvenModifier), lambda v: type(v) is int and not v % 2 == 0)
verdict('odd', zero(OddModifier), lambda v: type(v) is int and v % 2 == 0)
verdict('negative', zero(NegativeModifier), lambda v: is_num(v) and not v < 0)
verdict('positive', zero(PositiveModifier), lambda v: is_num(v) and not v > 0)
verdict('nonnegative', zero(NonnegativeModifier), lambda v: is_num(v) and not v >= 0)
verdict('nonpositive', zero(NonpositiveModifier), lambda v: is_num(v) and not v <= 0)
verdict('alnum', zero(AlnumModifier), lambda v: is_text(v) and not v.isalnum())
verdict('alpha', zero(AlphaModifier), lambda v: is_text(v) and not v.isalpha())
verdict('digit', zero(DigitModifier), lambda v: is_text(v) and not v.isdigit())
verdict('numeric', zero(NumericModifier), lambda v: is_text(v) and not v.isnumeric())
verdict('invalid', zero(InvalidModifier), lambda v: True, covers=('reject',))
verdict('present', zero(PresentModifier), lambda v: v is None)


def anyp(cls):
    def mk(E):
        p = E.any('p', ('none', 'bool', 'int', 'float', 'str', 'list', 'dict', 'date', 'datetime'))
        return cls(pform(E, p)), (p,)
    return mk


verdict('eq', anyp(EqModifier), lambda v, p: v is not None and not v == p)
verdict('neq', anyp(NeqModifier), lambda v, p: v == p)


def listp(cls):
    def mk(E):
        p = E.list_any('p')
        return cls(pform(E, p)), (p,)
    return mk


verdict('oneof', listp(OneOfModifier), lambda v, p: v is not None and v not in p)


def lengthy(v):
    return isinstance(v, list) or isinstance(v, str)


def intp(cls):
    def mk(E):
        p = E.int('p')
        return cls(pform(E, p)), (p,)
    return mk


def mk_length(E):
    p = E.int('p')
    q = E.int('q')
    if E.choice('single', [True, False]):
        return LengthModifier(pform(E, p)), (p, p)
    return LengthModifier(pform(E, p), q), (p, q)


verdict('minlength', intp(MinlengthModifier), lambda v, p: lengthy(v) and len(v) < p)
verdict('maxlength', intp(MaxlengthModifier), lambda v, p: lengthy(v) and len(v) > p)
verdict('length', mk_length, lambda v, p, q: lengthy(v) and not (len(v) >= p and len(v) <= q))


def mk_length_fns(E):
    p = E.int('p')
    q = E.int('q')
    return LengthModifier(lambda: p, lambda o: q), (p, q)


verdict('length.callables', mk_length_fns,
        lambda v, p, q: lengthy(v) and not (len(v) >= p and len(v) <= q))


def strp(cls):
    def mk(E):
        p = E.str('p')
        return cls(pform(E, p)), (p,)
    return mk


def texty(E):
    return E.any('v', ('none', 'bool', 'int', 'float', 'str', 'date', 'opaque'))


verdict('hasprefix.str', strp(HasPrefixModifier), lambda v, p: is_text(v) and not v.startswith(p), texty)
verdict('hassuffix.str', strp(HasSuffixModifier), lambda v, p: is_text(v) and not v.endswith(p), texty)
verdict('isprefixof.str', strp(IsPrefixOfModifier), lambda v, p: is_text(v) and not p.startswith(v), texty)
verdict('issuffixof.str', strp(IsSuffixOfModifier), lambda v, p: is_text(v) and not p.endswith(v), texty)


def prefix(a, b):
    """list a starts with list b"""
    return len(b) <= len(a) and a[:len(b)] == b


def suffix(a, b):
    return len(b) <= len(a) and a[len(a) - len(b):] == b


def lv(E):
    return E.list_any('v')


verdict('hasprefix.list', listp(HasPrefixModifier), lambda v, p: not prefix(v, p), lv)
verdict('hassuffix.list', listp(HasSuffixModifier), lambda v, p: not suffix(v, p), lv)
verdict('isprefixof.list', listp(IsPrefixOfModifier), lambda v, p: not prefix(p, v), lv)
verdict('issuffixof.list', listp(IsSuffixOfModifier), lambda v, p: not suffix(p, v), lv)


# --- dates -----------------------------------------------------------------
def moment(d):
    """The instant a date stands for: its midnight."""
    return d if type(d) is datetime else datetime.combine(d, datetime.min.time())


def date_rule(name, cls, bad):
    def fn(E):
        v = E.any('v', ('none', 'date', 'datetime'))
        p = E.any('p', ('date', 'datetime'))
        E.assume(not (type(v) is datetime and v.tzinfo is not None))
        E.assume(not (type(p) is datetime and p.tzinfo is not None))
        ctx = mkctx(E, v)
        out = E.call(cls(pform(E, p)).validate, ctx)
        r = rejects(E, out)
        E.iff('rejected exactly when the rule is broken', r, v is not None and bad(moment(v), moment(p)))
        if r:
            one_message(E, out, ctx)
        E.cover('reject' if r else 'accept')
    contract('C06', name, covers=('accept', 'reject'))(fn)


date_rule('after', AfterModifier, lambda v, p: not v > p)
date_rule('before', BeforeModifier, lambda v, p: not v < p)


# --- text patterns -----------------------------------------------------------
def pieces(E, parts):
    """Text; natively one put together from the parts that matter here."""
    if E.symbolic:
        return E.any('v')
    if E.choice('free', [True, False, False]):
        return E.any('v')
    return ''.join(E.list('w', lambda e: e.choice('p', parts)))


def pattern(name, mk, good, parts, **opts):
    def fn(E):
        mod, ps = mk(E)
        v = pieces(E, parts)
        ctx = mkctx(E, v)
        out = E.call(mod.validate, ctx)
        r = rejects(E, out)
        E.iff('rejected exactly when the text does not match', r, is_text(v) and not good(v, *ps))
        if r:
            one_message(E, out, ctx)
        E.cover('reject' if r else 'accept')
    opts.setdefault('covers', ('accept', 'reject'))
    contract('C06', name, n=600, **opts)(fn)


pattern('hexcolor', zero(HexColorModifier), lambda v: fullmatch('[0-9A-Fa-f]{6}', v) is not None,
        ['12', 'ab', 'AB', 'f', '00', 'g', '#', '\n', '123456', 'abcdef', '５'])
pattern('match', strp(MatchModifier), lambda v, p: search(p, v) is not None, ['a', 'b', '1'],
        vals=None)


@contract('C06', 'match.pattern', n=600)
def _(E):
    p = E.choice('p', ['^a', 'b$', 'a+', '[0-9]', 'ab', 'a.b', '^[ab]{1,3}$', '(ab|c)$'])
    v = pieces(E, ['a', 'b', 'ab', '1', 'c', '\n'])
    ctx = mkctx(E, v)
    r = rejects(E, E.call(MatchModifier(pform(E, p)).validate, ctx))
    E.iff('rejected exactly when the pattern is found nowhere', r, is_text(v) and search(p, v) is None)


EMAIL = r'\b[A-Za-z0-9._%+-]+@[A-Za-z0-9.-]+\.[A-Z|a-z]{2,}\b'
URL = (r'^(?:http|ftp)s?://(?:(?:[A-Z0-9](?:[A-Z0-9-]{0,61}[A-Z0-9])?\.)+'
       r'(?:[A-Z]{2,6}\.?|[A-Z0-9-]{2,}\.?)|localhost|\d{1,3}\.\d{1,3}\.\d{1,3}\.\d{1,3})'
       r'(?::\d+)?(?:/?|[/?]\S+)$')
SPECIAL = '!@#$&*`~()-_+=[]{}:;\'",<>.?\\|/'
pattern('email', zero(EmailModifier), lambda v: rmatch(EMAIL, v) is not None,
        ['a', 'Z9', '.', '_', '%', '+', '-', '@', '@', 'example', '.com', '.c', '.co', ' ', '\n', 'é'])
pattern('url', zero(UrlModifier), lambda v: rmatch(URL, v, IGNORECASE) is not None,
        ['http', 'https', 'ftp', 'ftps', 'HTTP', '://', '://', 'a', 'example', '.com', '.c', '-',
         'localhost', '127.0.0.1', ':80', '/', '?', 'x', ' ', '\n', 'http://a.com', 'ftp://localhost'],
        max_s=60)
SECUREPW = r'^(?=.*[A-Z])(?=.*[!@#$&*`~()\-_+=\[\]{}:;\'",<>.?\\|/])(?=.*[0-9])(?=.*[a-z]).*$'
pattern('securepw', zero(SecurepwModifier), lambda v: search(SECUREPW, v) is not None,
        ['a', 'A', '1', 'z', 'Z', '9', '0', 'é', '５', '\n'] + list(SPECIAL))


@contract('C06', 'securepw.meaning', native=True, n=600)
def _(E):
    v = pieces(E, ['a', 'A', '1', 'z', 'Z', '9', '0', 'é', '５', '%', '^', ' '] + list(SPECIAL))
    r = rejects(E, E.call(SecurepwModifier().validate, mkctx(E, v)))
    E.iff('an upper, a lower, a digit and a punctuation character', r, is_text(v) and '\n' not in v and not (
        any('A' <= c <= 'Z' for c in v) and any('a' <= c <= 'z' for c in v)
        and any('0' <= c <= '9' for c in v) and any(c in SPECIAL for c in v)))


# --- presence ---------------------------------------------------------------
@contract('C06', 'required.plain', covers=('accept', 'reject'))
def _(E):
    v = E.any('v')
    st = E.choice('store', [None, FStore.EMBEDDED, FStore.FOREIGN_KEY, FStore.TEMP])
    fdef = None if st is None else E.obj(fstore=st)
    ctx = mkctx(E, v, fdef=fdef)
    out = E.call(RequiredModifier().validate, ctx)
    r = rejects(E, out)
    E.iff('rejected exactly when absent (and held by this side)', r,
          v is None and st is not FStore.FOREIGN_KEY)
    if r:
        one_message(E, out, ctx)
    E.cover('reject' if r else 'accept')


@contract('C06', 'required.localkey', covers=('accept', 'reject'))
def _(E):
    v = E.any('v', ('none', 'opaque'))
    ref = E.any('ref', ('none', 'str', 'int'))
    field = E.obj(name='k')
    cdef = E.obj(jconf=E.obj(ref_name_strategy=lambda f: 'k_ref' if f is field else 'other'),
                 field_named=lambda n: field if n == 'k' else None)
    cls = type('Holder', (), {'cdef': cdef, '__is_jsonclass__': True})
    has = E.choice('has', [True, False])
    holder = E.obj(cls=cls, k_ref=ref) if has else E.rec('h', {'*missing*': True}, cls=cls)
    ctx = mkctx(E, v, fdef=E.obj(fstore=FStore.LOCAL_KEY), holder=holder)
    out = E.call(RequiredModifier().validate, ctx)
    r = rejects(E, out)
    E.iff('rejected exactly when neither the object nor its key is given', r,
          v is None and (not has or ref is None))
    if r:
        one_message(E, out, ctx)
    E.cover('reject' if r else 'accept')


@contract('C06', 'presentwith', covers=('accept', 'reject'))
def _(E):
    v, o = E.any('v'), E.any('o')
    ctx = mkctx(E, v, owner=E.obj(other=o))
    out = E.call(PresentWithModifier('other').validate, ctx)
    r = rejects(E, out)
    E.iff('required exactly when the other is present', r, v is None and o is not None)
    if r:
        one_message(E, out, ctx)
    E.cover('reject' if r else 'accept')


@contract('C06', 'presentwithout', covers=('accept', 'reject'))
def _(E):
    v, a, b = E.any('v'), E.any('a'), E.any('b')
    two = E.choice('two', [True, False])
    ctx = mkctx(E, v, owner=E.obj(a=a, b=b))
    out = E.call(PresentWithoutModifier(['a', 'b'] if two else 'a').validate, ctx)
    r = rejects(E, out)
    E.iff('required exactly when none of the others is present', r,
          v is None and a is None and (not two or b is None))
    if r:
        one_message(E, out, ctx)
    E.cover('reject' if r else 'accept')


# --- custom validators ---------------------------------------------------------
def message(out, ctx):
    return out.v.keypath_messages['k']


@contract('C06', 'validate.callable', covers=('accept', 'reject'))
def _(E):
    v = E.any('v')
    msg = E.choice('msg', [None, 'given'])
    res = E.any('res', ('none', 'bool', 'str'))
    ctx = mkctx(E, v)
    seen = []

    def f1(x):
        seen.append(x)
        return res

    def f2(x, c):
        seen.append(x)
        E.check('the context is handed over', c is ctx)
        return res
    out = E.call(ValidateModifier(E.choice('f', [f1, f2]), msg).validate, ctx)
    r = rejects(E, out)
    E.iff('rejected exactly when the function says no', r,
          v is not None and (res is False or isinstance(res, str)))
    if v is not None:
        E.same('called with the value', seen, [v])
    if r:
        one_message(E, out, ctx)
        want = msg if msg is not None else res if isinstance(res, str) else 'invalid value'
        E.same('message', message(out, ctx), want)
    E.cover('reject' if r else 'accept')


def fake_types(E, ctx_of, transform, bad):
    """A types chain with the given transform and verdict."""
    t = types.str
    t = t.__class__(t)

    def v(c):
        if bad(c.val):
            raise ValidationException({'inner': 'x'}, c.root)
    t.modifier = E.obj(transform=lambda c: transform(c.val), validate=v)
    return t


@contract('C06', 'validate.types', covers=('accept', 'reject'))
def _(E):
    v = E.any('v')
    msg = E.choice('msg', [None, 'given'])
    tr, bad = E.uf('tr'), E.uf('bad', 'bool')
    ctx = mkctx(E, v)
    out = E.call(ValidateModifier(fake_types(E, None, tr, bad), msg).validate, ctx)
    r = rejects(E, out)
    E.iff('rejected exactly when the chain rejects what it makes of the value', r, bad(tr(v)))
    if r:
        one_message(E, out, ctx)
        E.same('message', message(out, ctx), 'invalid value' if msg is None else msg)
    E.cover('reject' if r else 'accept')


@contract('C06', 'compare', covers=('accept', 'reject', 'noprev'))
def _(E):
    v, prev = E.any('v'), E.any('prev')
    res = E.any('res', ('none', 'bool', 'str'))
    has = E.choice('has', [True, False])
    seen = []

    def f2(a, b):
        seen.append((a, b))
        return res

    def f3(a, b, c):
        seen.append((a, b))
        return res
    parent = E.obj(previous_values={'k': prev} if has else {'j': prev})
    ctx = mkctx(E, v, parent=parent)
    out = E.call(CompareModifier(E.choice('f', [f2, f3])).validate, ctx)
    r = rejects(E, out)
    E.iff('rejected exactly when the comparison says no', r,
          has and (res is False or isinstance(res, str)))
    E.same('called with the old and the new value', seen, [(prev, v)] if has else [])
    if r:
        one_message(E, out, ctx)
        if isinstance(res, str):
            E.same('message', message(out, ctx), res)
    E.cover('reject' if r else 'accept' if has else 'noprev')


# --- permission ---------------------------------------------------------------
def permission(name, cls, applies):
    def fn(E):
        v = E.any('v')
        op = E.any('op', ('none', 'opaque'))
        new = E.bool('new')
        owner = E.obj(is_new=new)
        k = E.choice('form', [1, 2, 3, 4, 0])
        ctx = mkctx(E, v, owner=owner, operator=op)
        seen = []
        if k == 0:
            tr, bad = E.uf('tr'), E.uf('bad', 'bool')
            chk = fake_types(E, None, tr, bad)
            no = lambda: bad(tr(v))
        else:
            res = E.any('res', ('none', 'bool', 'str'))

            def rec(*a):
                seen.append(a)
                return res
            chk = [None, lambda o: rec(o), lambda o, w: rec(o, w), lambda o, w, x: rec(o, w, x),
                   lambda o, w, x, c: rec(o, w, x, c)][k]
            no = lambda: res is False or isinstance(res, str)
        out = E.call(cls(chk).validate, ctx)
        r = rejects(E, out)
        on = applies(new)
        E.iff('refused exactly when the operator is missing or not permitted', r,
              on and (op is None or no()))
        if k and on and op is not None:
            E.same('the checker sees the operator, owner, value, context', seen,
                   [(op, owner, v, ctx)[:k]])
        if r:
            one_message(E, out, ctx)
        E.cover('reject' if r else 'accept')
    contract('C06', name, covers=('accept', 'reject'))(fn)


permission('cancu', CanCUModifier, lambda new: True)
permission('canc', CanCModifier, lambda new: new)
permission('canu', CanUModifier, lambda new: not new)


@contract('C06', 'canr', covers=('shown', 'hidden'))
def _(E):
    v = E.any('v')
    op = E.any('op', ('none', 'opaque'))
    owner = E.obj(is_new=False)
    k = E.choice('form', [1, 2, 3, 4, 0])
    ctx = mkctx(E, v, owner=owner, operator=op)
    seen = []
    if k == 0:
        tr, bad = E.uf('tr'), E.uf('bad', 'bool')
        chk = fake_types(E, None, tr, bad)
        no = lambda: bad(tr(v))
    else:
        res = E.any('res', ('none', 'bool', 'str'))

        def rec(*a):
            seen.append(a)
            return res
        chk = [None, lambda o: rec(o), lambda o, w: rec(o, w), lambda o, w, x: rec(o, w, x),
               lambda o, w, x, c: rec(o, w, x, c)][k]
        no = lambda: res is False or isinstance(res, str)
    out = E.call(CanRModifier(chk).tojson, ctx)
    E.check('returns', out.kind == 'ret', incomplete=True)
    hide = op is None or no()
    E.same('the value, or nothing when not permitted', out.v, None if hide else v)
    E.cover('hidden' if hide else 'shown')


# --- objects -------------------------------------------------------------------
@contract('C06', 'isthis', covers=('accept', 'reject'))
def _(E):
    A = type('A', (), {})
    B = type('B', (), {})
    i, j = E.int('i'), E.int('j')
    owner = E.obj(cls=A, _id=i)
    other = E.obj(cls=E.choice('cls', [A, B]), _id=j)
    v = E.choice('v', [None, 0, 1])
    v = None if v is None else owner if v == 0 else other
    ctx = mkctx(E, v, owner=owner)
    out = E.call(IsThisModifier().validate, ctx)
    r = rejects(E, out)
    E.iff('accepted exactly for the owner, or an object of its class with its id', r,
          not (v is owner or (v is other and other.__class__ is A and i == j)))
    E.cover('reject' if r else 'accept')


@contract('C06', 'isobj', covers=('accept', 'reject'))
def _(E):
    A = type('A', (), {'__is_jsonclass__': True})
    B = type('B', (), {'__is_jsonclass__': True})

    def thing(n):
        i = E.any(n + 'id', ('int', 'str'))
        c = E.choice(n + 'cls', [A, B])
        if E.choice(n + 'ref', [True, False]):
            return ObjRef(c.__name__, i), c, i
        return E.obj(cls=c, _id=i), c, i
    a, ca, ia = thing('a')
    b, cb, ib = thing('b')
    n1, n2 = E.choice('n1', [True, False]), E.choice('n2', [True, False])
    g = E.obj(modifier=E.obj(transform=lambda c: None if n2 else b))
    ctx = mkctx(E, None if n1 else a)
    out = E.call(IsObjModifier(g).validate, ctx)
    r = rejects(E, out)
    E.iff('accepted exactly for the same class and id', r, not (
        not n1 and not n2 and ca is cb and ia == ib))
    E.cover('reject' if r else 'accept')


@contract('C06', 'isobjof', covers=('accept', 'reject'))
def _(E):
    A = type('A', (), {})
    A2 = type('A2', (A,), {})
    B = type('B', (), {})
    c = E.choice('c', [A, A2, B, None])
    v = None if c is None else E.obj(cls=c)
    cdef = E.obj(jconf=E.obj(cgraph=E.obj(fetch=lambda n: E.rec('cd', {'cls': A}) if n == 'A' else None)))
    owner = E.obj(cls=type('O', (), {'cdef': cdef}))
    ctx = mkctx(E, v, owner=owner)
    out = E.call(IsObjOfModifier(E.choice('by', [A, 'A'])).validate, ctx)
    r = rejects(E, out)
    E.iff('accepted exactly for instances of the class', r, not (c is A or c is A2))
    E.cover('reject' if r else 'accept')


# --- types ---------------------------------------------------------------------
def typerule(name, cls, good):
    def fn(E):
        v = E.any('v')
        ctx = mkctx(E, v, fdef=E.obj(raw_enum_output=None, fstore=FStore.EMBEDDED, raw_item_types=None))
        out = E.call(cls().validate, ctx)
        r = rejects(E, out)
        E.iff('rejected exactly when of another type', r, v is not None and not good(v))
        if r:
            one_message(E, out, ctx)
        E.cover('reject' if r else 'accept')
    contract('C06', name, covers=('accept', 'reject'))(fn)


typerule('type.int', IntModifier, lambda v: type(v) is int)
typerule('type.float', FloatModifier, lambda v: type(v) is float)
typerule('type.str', StrModifier, lambda v: type(v) is str)
typerule('type.bool', BoolModifier, lambda v: type(v) is bool)
typerule('type.date', DateModifier, lambda v: isinstance(v, date))
typerule('type.datetime', DatetimeModifier, lambda v: type(v) is datetime)

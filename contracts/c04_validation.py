"""C04: validation verdicts and the messages they report."""
from __future__ import annotations
from contracts.base import *
from jsonclasses.modifiers.listof_modifier import ListOfModifier
from jsonclasses.modifiers.dictof_modifier import DictOfModifier


def items_contract(E, mod, items, val):
    """Every item is validated by the item type, at its own key, as an item
    of this collection; failures are collected (all_fields) or the first one
    is reported."""
    bad = E.uf('bad', 'bool')
    msg = E.uf('msg', 'str')
    kp = E.uf('kp', 'str')
    root = E.obj(n='root')
    flag = E.choice('all_fields', [None, True, False])
    conf = E.bool('conf_all')
    owner = mkowner(E, E.obj(validate_all_fields=conf), n='owner')
    ifdef = E.obj(n='ifdef')

    def vitem(ictx):
        i = ictx.keypathr[-1]
        E.check('item context', ictx.fdef is ifdef and ictx.parent is ctx.val
                and ictx.root is root and ictx.owner is owner
                and ictx.fkeypathr[-1] == i and ictx.fkeypathr[0] == 'k'
                and len(ictx.fkeypathr) == 2)
        if bad(i, ictx.val):
            raise ValidationException({kp(i): msg(i, ictx.val)}, root)
    itypes = E.obj(fdef=ifdef, modifier=E.obj(validate=vitem))
    ctx = mkctx(E, val, root=root, owner=owner, fdef=E.obj(item_types=itypes),
                ctxcfg=CtxCfg(all_fields=flag))

    def spec():
        allf = conf if flag is None else flag
        msgs = {}
        for i, v in items():
            if bad(i, v):
                msgs[kp(i)] = msg(i, v)
                if not allf:
                    return msgs
        return msgs
    out = E.call(mod.validate, ctx)
    want = spec()
    if rejects(E, out):
        E.check('rejected only for an invalid item', bool(want))
        E.same('messages are those of the invalid items', out.v.keypath_messages, want)
        E.check('reported on the root object', out.v.root is root)
        E.cover('reject')
    else:
        E.check('accepted only when every item is valid', not bool(want))
        E.cover('accept')


@contract('C04', 'listof.validate.items', functions=['CollectionTypeModifier.validate'], covers=('accept', 'reject'))
def _(E):
    v = E.list_any('v')
    items_contract(E, ListOfModifier(E.obj()), lambda: enumerate(v), v)


@contract('C04', 'dictof.validate.items', covers=('accept', 'reject'))
def _(E):
    v = E.dict('v')
    items_contract(E, DictOfModifier(E.obj()), lambda: v.items(), v)


# ------------------------------------------------------------- exceptions
from jsonclasses.vmsgcollector import VMsgCollector


@contract('C04', 'vexc')
def _(E):
    """A validation error carries the messages and the root it is given."""
    E.drop_contract(ValidationException.__init__)
    n = E.choice('n', [0, 1, 2])
    d = {}
    for i in range(n):
        d[E.str(f'k{i}')] = E.str(f'm{i}')
    root = E.obj(n='root')
    out = E.call(ValidationException, d, root)
    E.check('made', out.kind == 'ret', incomplete=True)
    E.same('messages', [x for x in out.v.keypath_messages.items()], [x for x in d.items()])
    E.check('root', out.v.root is root)
    if not E.symbolic:
        for k, m in d.items():
            E.check('the text names each message', k in out.v.message and m in out.v.message)
            E.check('and is what is printed', str(out.v) == out.v.message)


@contract('C04', 'collector')
def _(E):
    """The collector keeps the latest message of every key path."""
    def some(n):
        d = {}
        for i in range(E.choice(n, [0, 1, 2])):
            d[E.str(f'{n}k{i}')] = E.str(f'{n}m{i}')
        return d
    a, b = some('a'), some('b')
    c = VMsgCollector()
    E.check('empty at first', not c.has_msgs)
    c.receive(a)
    c.receive(b)
    want = dict(a)
    want.update(b)
    E.same('all messages', [x for x in c.messages.items()], [x for x in want.items()])
    E.iff('has messages', c.has_msgs, len(a) > 0 or len(b) > 0)


# ------------------------------------------------------------------ union
from jsonclasses.modifiers.union_modifier import UnionModifier
from jsonclasses.modifiers.oneisvalid_modifier import OneIsValidModifier
from jsonclasses.types import types


class UT:
    """One of the types of a union."""

    def __init__(self, E, i, log):
        self.E, self.i, self.log = E, i, log
        self.fdef = E.obj(_cdef=None)
        self.modifier = self
        self.at = E.choice('at' + str(i), ['k', 'k.0'])     # where it finds fault

    def _see(self, what, ctx):
        self.E.check('in the definition of its own type', ctx.fdef is self.fdef)
        self.E.check('which belongs to a class', self.fdef._cdef is not None)
        self.log.append((what, self.i, ctx.val))

    def validate(self, ctx):
        self._see('validate', ctx)
        if self.E.uf('bad', 'bool')(self.i, ctx.val):
            raise ValidationException({self.at: 'm'}, ctx.root)

    def transform(self, ctx):
        self._see('transform', ctx)
        if self.E.uf('tbad', 'bool')(self.i, ctx.val):
            raise ValidationException({self.at: 'm'}, ctx.root)
        return self.E.uf('t')(self.i, ctx.val)

    def tojson(self, ctx):
        return self.E.uf('j')(self.i, ctx.val)

    def serialize(self, ctx):
        return self.E.uf('s')(self.i, ctx.val)


def union(E):
    log = []
    ts = [UT(E, i, log) for i in range(E.choice('n', [1, 2, 3]))]
    v = E.any('v')
    cdef = E.obj(n='cdef')
    owner = E.obj(cls=type('O', (), {'cdef': cdef}))
    ctx = mkctx(E, v, owner=owner, fdef=E.obj(raw_union_types=ts))
    bad = E.uf('bad', 'bool')
    ok = None
    if v is not None:
        for i in range(len(ts)):
            if ok is None and not bad(i, v):
                ok = i
    return UnionModifier([]), ts, v, ctx, ok


@contract('C04', 'union.validate', covers=('accept', 'reject'))
def _(E):
    """A union accepts null and what one of its types accepts."""
    m, ts, v, ctx, ok = union(E)
    out = E.call(m.validate, ctx)
    if v is None:
        E.check('null passes', not rejects(E, out))
        return
    E.iff('rejected exactly when no type accepts', rejects(E, out), ok is None)
    if ok is None:
        one_message(E, out, ctx)
    E.cover('reject' if ok is None else 'accept')


@contract('C04', 'union.transform', covers=('one', 'none'))
def _(E):
    """Input is transformed by the first type that can."""
    m, ts, v, ctx, _ = union(E)
    out = E.call(m.transform, ctx)
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    if v is None:
        E.check('null stays null', out.v is None)
        return
    tbad = E.uf('tbad', 'bool')
    for i in range(len(ts)):
        if not tbad(i, v):
            E.same('the first that can', out.v, E.uf('t')(i, v))
            E.cover('one')
            return
    E.same('else the value itself', out.v, v)
    E.cover('none')


@contract('C04', 'union.output')
def _(E):
    """Output is made by the first type that accepts the value."""
    m, ts, v, ctx, ok = union(E)
    for f, u in ((m.tojson, 'j'), (m.serialize, 's')):
        out = E.call(f, ctx)
        E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
        E.same('of the first type that accepts', out.v, None if ok is None else E.uf(u)(ok, v))


@contract('C04', 'oneisvalid', covers=('accept', 'reject'))
def _(E):
    """oneisvalid accepts when one of the validators accepts."""
    v = E.any('v')
    f = E.uf('f', 'bool')
    g = E.uf('g')
    n = E.choice('n', [1, 2, 3])
    subs, oks = [], []
    for i in range(n):
        form = E.choice(f'form{i}', ['one', 'two', 'types'])
        if form == 'one':
            subs.append(lambda x, i=i: None) if False else subs.append(mk1(g, i))
            r = g(i, v)
            oks.append(r is None or r is True)
        elif form == 'two':
            subs.append(mk2(E, g, i, v))
            r = g(i, v)
            oks.append(r is None or r is True)
        else:
            subs.append(types.validate(mk3(f, i)))
            oks.append(True if v is None else f(i, v))
    ctx = mkctx(E, v)
    out = E.call(OneIsValidModifier(subs).validate, ctx)
    acc = False
    for o in oks:
        if o:
            acc = True
            break
    E.iff('accepted exactly when one accepts', not rejects(E, out), acc)
    if not acc:
        one_message(E, out, ctx)
    E.cover('accept' if acc else 'reject')


def mk1(g, i):
    return lambda x: g(i, x)


def mk2(E, g, i, v):
    def two(x, ctx):
        E.same('the context holds the value', ctx.val, v)
        return g(i, x)
    return two


def mk3(f, i):
    return lambda x: f(i, x)


# --------------------------------------------------------------- objects
from jsonclasses.modifiers.instanceof_modifier import InstanceOfModifier
from jsonclasses.fdef import FStore, FType
from jsonclasses.keypath import initial_keypath


def obj_contract(E, inst):
    """The fields of an object are validated as fields of it, at their names;
    stored fields of an object that is not new only when modified; failures
    are collected (all_fields) or the first is reported; an object is
    validated once."""
    bad, msg, kp, fv = E.uf('bad', 'bool'), E.uf('msg', 'str'), E.uf('kp', 'str'), E.uf('fv')
    flag, conf = E.choice('all_fields', [(None, True), (None, False), (True, False), (False, True)])
    root = E.obj(n='root')

    def vfield(i, fdef):
        def v(c):
            E.check('field context', c.fdef is fdef and c.root is root
                    and len(c.keypathr) == 3 and c.keypathr[1] == 'k')
            E.same('field value', c.val, fv(c.keypathr[-1]))
            E.same('output name', c.fkeypathr[-1], ek(c.keypathr[-1]))
            if inst:
                E.check('an object field: the holder is the object', c.holder is owner)
            else:
                E.check('the owner is the object', c.owner is val)
            if bad(i):
                raise ValidationException({kp(i): msg(i)}, root)
        return v

    def mkf(e):
        i = e.idx[-1]
        i = E.own(i) if False else i
        fd = E.obj(fstore=e.choice('store', [FStore.EMBEDDED, FStore.LOCAL_KEY]),
                   ftype=FType.INSTANCE if inst else FType.STR)
        n = e.str('name')
        return e.rec('field', dict(name=n, fdef=fd, types=E.obj(modifier=E.obj(
            validate=vfield(n, fd)))))
    fields = E.recs('fields', mkf)
    # contract of initial_keypath: C16.keypath.parts
    ik = E.uf('initial', 'str') if E.symbolic else initial_keypath
    E.assume_contract(initial_keypath, ik)
    ek = E.uf('ek')
    cdef = E.obj(fields=fields, name='V', jconf=E.obj(validate_all_fields=conf, output_key_strategy=ek))
    V = type('V', (), {'cdef': cdef, '__is_jsonclass__': True})
    new = E.choice('new', [True, False])
    mods = [] if new else [E.str(f'mod{i}') for i in range(E.choice('nmods', [0, 2]))]
    val = E.obj(cls=V, **{'is_new': new, 'modified_fields': mods, '_id': None,
                          '*getattr*': lambda n: fv(n), '*isinstance*': lambda c: c is V or None})
    owner = mkowner(E, E.obj(output_key_strategy=ek), n='owner')
    ctx = mkctx(E, val, root=root, owner=owner, fdef=E.obj(inst_cls=V), ctxcfg=CtxCfg(all_fields=flag))
    out = E.call(InstanceOfModifier(V).validate, ctx)
    allf = conf if flag is None else flag

    def spec():
        msgs = {}
        firsts = [ik(m) for m in mods]
        for f in fields:
            if not (f.fdef.fstore is FStore.EMBEDDED and not new and f.name not in firsts):
                if bad(f.name):
                    msgs[kp(f.name)] = msg(f.name)
                    if not allf:
                        return msgs
        return msgs
    want = spec()
    if rejects(E, out):
        E.check('rejected only for an invalid field', bool(want))
        E.same('messages are those of the invalid fields', out.v.keypath_messages, want)
        E.check('reported on the root object', out.v.root is root)
        E.cover('reject')
    else:
        E.check('accepted only when every field is valid', not bool(want))
        E.cover('accept')
    again = E.call(InstanceOfModifier(V).validate, ctx)
    E.check('an object already visited is not validated again', again.kind == 'ret')


@contract('C04', 'object.validate.fields', covers=('accept', 'reject'), weight=9)
def _(E):
    obj_contract(E, False)


@contract('C04', 'object.validate.objects', covers=('accept', 'reject'), weight=9)
def _(E):
    obj_contract(E, True)


class NoV:
    pass


class Other:
    _id = None
    is_new = True


@contract('C04', 'object.validate.type')
def _(E):
    """Null passes, anything that is no object of the class is rejected."""
    v = E.any('v', ('none', 'bool', 'int', 'float', 'str', 'list', 'dict', 'date', 'datetime'))
    if E.choice('obj', [True, False]):
        v = Other()
    ctx = mkctx(E, v, fdef=E.obj(inst_cls=NoV))
    out = E.call(InstanceOfModifier(NoV).validate, ctx)
    E.iff('rejected', rejects(E, out), v is not None and not isinstance(v, NoV))
    if v is not None:
        one_message(E, out, ctx)


# ------------------------------------------------------------ end to end
from jsonclasses.jsonclass import jsonclass


@jsonclass(class_graph='c04')
class VSub:
    x: str = types.str.maxlength(2).required
    y: int | None = types.int.min(0)
    more: list[VSub] = types.listof('VSub')


@jsonclass(class_graph='c04')
class VTop:
    first_num: int = types.int.min(3).required
    names: list[str] = types.listof(types.str.maxlength(2).required)
    scores: dict[str, int] = types.dictof(types.int.min(0))
    grid: list[list[int]] = types.listof(types.listof(types.int.max(5)))
    sub: VSub = types.objof('VSub')
    subs: list[VSub] = types.listof('VSub')
    either: int | str | None
    one: int | None = types.int.oneisvalid([types.int.min(100), lambda v: v == 7])
    need: VSub = types.objof('VSub').required


@jsonclass(class_graph='c04', validate_all_fields=True)
class VAll:
    first_num: int = types.int.min(3).required
    sub: VSub = types.objof('VSub')
    names: list[str] = types.listof(types.str.maxlength(2).required)


def pick(E, n, *opts):
    return E.choice(n, opts)


def mksub(E, n, depth=0):
    s = VSub()
    s.x = pick(E, n + 'x', 'a', 'ab', 'abc', None)
    s.y = pick(E, n + 'y', None, 0, -1, 5)
    if depth < 2:
        k = E.choice(n + 'n', [None, 0, 1, 2])
        s.more = None if k is None else [mksub(E, f'{n}m{i}', depth + 1) for i in range(k)]
    return s


def sub_errs(s, p):
    r = []
    if s is None:
        return r
    if s.x is None or len(s.x) > 2:
        r.append(p + 'x')
    if s.y is not None and s.y < 0:
        r.append(p + 'y')
    for i, m in enumerate(s.more or []):
        r += sub_errs(m, f'{p}more.{i}.')
    return r


def top_errs(o):
    """field -> the key paths of its errors, in order"""
    r = {}
    r['first_num'] = ['firstNum'] if o.first_num is None or o.first_num < 3 else []
    r['names'] = [f'names.{i}' for i, v in enumerate(o.names or []) if v is None or len(v) > 2]
    r['scores'] = [f'scores.{k}' for k, v in (o.scores or {}).items() if v is not None and v < 0]
    r['grid'] = [f'grid.{i}.{j}' for i, l in enumerate(o.grid or []) for j, v in enumerate(l or [])
                 if v is not None and v > 5]
    r['sub'] = sub_errs(o.sub, 'sub.')
    r['subs'] = [e for i, s in enumerate(o.subs or []) for e in sub_errs(s, f'subs.{i}.')]
    r['either'] = ['either'] if isinstance(o.either, float) else []
    r['one'] = ['one'] if not (o.one is None or o.one >= 100 or o.one == 7) else []
    r['need'] = ['need'] if o.need is None else sub_errs(o.need, 'need.')
    return r


def fill(E, o):
    o.first_num = pick(E, 'a', 3, 2, None, 10)
    o.names = pick(E, 'nm', None, [], ['a', 'bcd'], ['abc', None, 'x', 'abcd'])
    o.scores = pick(E, 'sc', None, {}, {'u_v': -1, 'w': 2}, {'a': 1, 'b': -2, 'c': -3})
    o.grid = pick(E, 'gr', None, [[1, 6], [7]], [[], [5]], [[1], [2, 9]])
    o.sub = mksub(E, 's') if E.bool('hs') else None
    k = E.choice('ns', [None, 0, 1, 2])
    o.subs = None if k is None else [mksub(E, f's{i}') for i in range(k)]
    o.either = pick(E, 'e', None, 1, 'q', 2.5)
    o.one = pick(E, 'o', None, 7, 100, 8)
    o.need = mksub(E, 'n') if E.bool('hn') else None


@contract('C04', 'object', native=True, n=1200)
def _(E):
    """validate() reports exactly the invalid places: all of them on request,
    else the first; only modified stored fields of objects not new."""
    o = VTop()
    new = E.bool('new')
    if not new:
        o._mark_unmodified()
    fill(E, o)
    errs = top_errs(o)
    if not new:
        errs = {k: v for k, v in errs.items() if k in o.modified_fields}
    flat = [x for v in errs.values() for x in v]
    allf = E.choice('all', [None, True, False])
    out = E.call(o.validate, allf)
    if rejects(E, out):
        got = list(out.v.keypath_messages)
        if allf:
            E.same('every invalid place, nothing else', sorted(got), sorted(flat))
        else:
            E.same('the first invalid place', got, flat[:1])
        E.check('each with a message', all(isinstance(m, str) and m for m in
                                           out.v.keypath_messages.values()))
        E.check('on the root', out.v.root is o)
    else:
        E.same('nothing is invalid', flat, [])
        E.check('returns the object', out.v is o)
    E.iff('is_valid', o.is_valid, not flat)


@contract('C04', 'object.all', native=True, n=300)
def _(E):
    """The class default for all_fields applies when the call does not say."""
    o = VAll()
    o.first_num = pick(E, 'a', 3, 2, None)
    o.sub = mksub(E, 's') if E.bool('hs') else None
    o.names = pick(E, 'nm', None, [], ['a', 'bcd'], ['abc', None, 'x', 'abcd'])
    errs = (['firstNum'] if o.first_num is None or o.first_num < 3 else []) + sub_errs(o.sub, 'sub.') \
        + [f'names.{i}' for i, v in enumerate(o.names or []) if v is None or len(v) > 2]
    allf = E.choice('all', [None, True, False])
    out = E.call(o.validate, allf)
    E.iff('verdict', rejects(E, out), bool(errs))
    if errs:
        got = list(out.v.keypath_messages)
        if allf:
            E.same('all places', sorted(got), sorted(errs))
        elif allf is False:
            E.same('first place', got, errs[:1])
        else:
            E.check('more than the first place', set(got) <= set(errs) and errs[0] in got)
            if len([e for e in errs if '.' not in e]) == len(errs):
                E.same('all places', sorted(got), sorted(errs))


@jsonclass(class_graph='c04')
class CycA:
    id: int = types.int.primary.required
    v: int = types.int.min(0).required
    bs: list[CycB] = types.listof('CycB').linkedby('a')


@jsonclass(class_graph='c04')
class CycB:
    id: int = types.int.primary.required
    w: int = types.int.min(0).required
    a: CycA = types.objof('CycA').linkto


@contract('C04', 'object.cycle', native=True, n=200)
def _(E):
    """Linked objects are validated with the object, each once, in cycles
    too."""
    a = CycA(id=1, v=pick(E, 'v', 1, -1))
    bs = [CycB(id=i, w=pick(E, f'w{i}', 1, -1)) for i in range(E.int('n', 0, 3))]
    a.bs = bs
    st = E.choice('from', ['a'] + list(range(len(bs))))
    root = a if st == 'a' else bs[st]
    out = E.call(root.validate, True)
    bad = (a.v < 0) + sum(b.w < 0 for b in bs)
    E.iff('verdict', rejects(E, out), bad > 0)
    if bad:
        E.same('each invalid object once', len(out.v.keypath_messages), bad)
        if st == 'a':
            E.same('places', sorted(out.v.keypath_messages),
                   sorted((['v'] if a.v < 0 else []) + [f'bs.{i}.w' for i, b in enumerate(bs) if b.w < 0]))

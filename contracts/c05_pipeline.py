"""C05: a field's modifiers run in order, each on the result of the one
before, and validations happen at their stage."""
from __future__ import annotations
from contracts.base import *
from jsonclasses.modifiers.modifier import Modifier
from jsonclasses.modifiers.chained_modifier import ChainedModifier
from jsonclasses.modifiers.eager_modifier import EagerModifier
from jsonclasses.modifiers.preserialize_modifier import PreserializeModifier
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types
from jsonclasses.fdef import FStore, Nullability
from jsonclasses.modifiers.listof_modifier import ListOfModifier
from jsonclasses.modifiers.dictof_modifier import DictOfModifier
from jsonclasses.modifiers.instanceof_modifier import InstanceOfModifier


class Probe(Modifier):
    """A modifier that logs what it is asked, computes an arbitrary function
    of its number and the value, and rejects arbitrary values."""

    def __init__(self, E, i, log, fn, bad):
        self.E, self.i, self.log, self.fn, self.bad = E, i, log, fn, bad

    def act(self, what, ctx):
        self.log.append((what, self.i, ctx.val))
        return self.fn(what, self.i, ctx.val)

    def transform(self, ctx):
        return self.act('transform', ctx)

    def tojson(self, ctx):
        return self.act('tojson', ctx)

    def serialize(self, ctx):
        return self.act('serialize', ctx)

    def validate(self, ctx):
        self.log.append(('validate', self.i, ctx.val))
        if self.bad(self.i, ctx.val):
            raise ValidationException({ctx.sfkeypathr + str(self.i): 'm' + str(self.i)}, ctx.root)


class Par:
    __is_jsonclass__ = True

    def __init__(self):
        self.k = None


KINDS = ['p', 'E', 'S']       # probe, eager mark, preserialize mark


def setup(E, n=None):
    n = E.choice('n', [0, 1, 2, 3, 4, 5]) if n is None else n
    kinds = [E.choice(f'k{i}', KINDS) for i in range(n)]
    log = []
    fn, bad = E.uf('fn'), E.uf('bad', 'bool')
    vs = [EagerModifier() if k == 'E' else PreserializeModifier() if k == 'S'
          else Probe(E, i, log, fn, bad) for i, k in enumerate(kinds)]
    val = E.any('val', ('none', 'int', 'str'))
    last = None
    first = None
    for i, k in enumerate(kinds):
        if k == 'E':
            last = i
        if k == 'S' and first is None:
            first = i
    L = 0 if last is None else last
    P = n if first is None else first
    # eager marks after a preserialize mark have no defined meaning
    E.assume(L <= P)
    return kinds, vs, log, fn, bad, val, L, P


def check_log(E, log, want):
    E.check('the same steps in the same order', len(log) == len(want), detail=f'{log} {want}')
    for a, b in zip(log, want):
        E.check('step', a[0] == b[0] and a[1] == b[1], detail=f'{a} {b}')
        E.same('value the step works on', a[2], b[2])


@contract('C05', 'chain.transform', covers=('rejected', 'done'), weight=3)
def _(E):
    """Input: modifiers before the last eager mark transform and validate at
    once, those after it only transform; modifiers after a preserialize mark
    are left for saving."""
    kinds, vs, log, fn, bad, val, L, P = setup(E)
    ctx = mkctx(E, val)
    out = E.call(ChainedModifier(vs).transform, ctx)
    want, v, rej = [], val, None
    for i in range(P):
        if kinds[i] != 'p':
            continue
        want.append(('transform', i, v))
        v = fn('transform', i, v)
        if i < L:
            want.append(('validate', i, v))
            if bad(i, v):
                rej = i
                break
    check_log(E, log, want)
    if rej is not None:
        E.check('an eager failure stops the input', rejects(E, out, 'transform'))
        E.same('with its message', out.v.keypath_messages, {'k' + str(rej): 'm' + str(rej)})
        E.cover('rejected')
        return
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    E.same('the last result', out.v, v)
    E.cover('done')


@contract('C05', 'chain.validate', covers=('rejected', 'done'), weight=3)
def _(E):
    """Validation: the modifiers between the last eager mark and the first
    preserialize mark judge the value; all messages are collected on request,
    else the first failure ends it."""
    kinds, vs, log, fn, bad, val, L, P = setup(E)
    allf = E.choice('all', [True, False, None])
    ctx = mkctx(E, val, ctxcfg=CtxCfg(all_fields=allf))
    out = E.call(ChainedModifier(vs).validate, ctx)
    want, msgs = [], {}
    for i in range(L, P):
        if kinds[i] != 'p':
            continue
        want.append(('validate', i, val))
        if bad(i, val):
            msgs['k' + str(i)] = 'm' + str(i)
            if not allf:
                break
    check_log(E, log, want)
    if msgs:
        E.check('rejected', rejects(E, out))
        E.same('messages', out.v.keypath_messages, msgs)
        E.check('root', out.v.root is ctx.root)
        E.cover('rejected')
    else:
        E.check('accepted', out.kind == 'ret')
        E.cover('done')


@contract('C05', 'chain.tojson')
def _(E):
    kinds, vs, log, fn, bad, val, L, P = setup(E)
    out = E.call(ChainedModifier(vs).tojson, mkctx(E, val))
    want, v = [], val
    for i, k in enumerate(kinds):
        if k == 'p':
            want.append(('tojson', i, v))
            v = fn('tojson', i, v)
    check_log(E, log, want)
    E.check('returns', out.kind == 'ret', incomplete=True)
    E.same('the last result', out.v, v)


@contract('C05', 'chain.serialize', covers=('rejected', 'done'), weight=3)
def _(E):
    """Saving: every modifier serializes in order; those after the first
    preserialize mark validate their result at once, and it is stored in the
    object."""
    kinds, vs, log, fn, bad, val, L, P = setup(E)
    par = Par() if E.choice('objpar', [True, False]) else [0]
    ctx = mkctx(E, val, parent=par)
    out = E.call(ChainedModifier(vs).serialize, ctx)
    want, v, rej, stored = [], val, None, None
    for i, k in enumerate(kinds):
        if k == 'p':
            want.append(('serialize', i, v))
            v = fn('serialize', i, v)
            if i >= P:
                want.append(('validate', i, v))
                if bad(i, v):
                    rej = i
                    break
        if i >= P:
            stored = v
    check_log(E, log, want)
    if isinstance(par, Par):
        E.same('stored in the object', par.k, stored)
    if rej is not None:
        E.check('a failure stops the saving', rejects(E, out, 'serialize'))
        E.cover('rejected')
        return
    E.check('returns', out.kind == 'ret', incomplete=True)
    E.same('the last result', out.v, v)
    E.cover('done')


@contract('C05', 'chain.append')
def _(E):
    """Appending makes a new chain; the old one is unchanged."""
    n = E.choice('n', [0, 1, 2])
    m = E.choice('m', [0, 1, 2])
    a = [Modifier() for _ in range(n)]
    b = [Modifier() for _ in range(m)]
    c = ChainedModifier(list(a))
    d = c.append(*b)
    E.check('new chain', d is not c)
    E.same('old modifiers', list(c.vs), a)
    E.same('all modifiers', list(d.vs), a + b)


# ------------------------------------------------------------ end to end
TRACE = []


def t(n):
    def f(v):
        TRACE.append(n)
        return v + n if isinstance(v, str) else v
    return f


def ok(n, bad):
    def f(v):
        TRACE.append('?' + n)
        return bad not in v if isinstance(v, str) else True
    return f


@jsonclass(class_graph='c05')
class Pipe:
    id: int = types.int.primary.required
    plain: str | None = types.str.transform(t('a')).validate(ok('1', 'X')).validate(ok('2', 'Y'))
    eager: str | None = types.str.validate(ok('3', 'X')).transform(t('c')).validate(ok('4', 'Y')) \
        .transform(t('d')).validate(ok('5', 'Z'))
    pre: str | None = types.str.validate(ok('6', 'X')).setonsave(t('e')).validate(ok('7', 'Y')) \
        .setonsave(t('f')).validate(ok('8', 'Z'))


def run(E, f, *a, **k):
    del TRACE[:]
    out = E.call(f, *a, **k)
    E.check('only validation errors', out.kind == 'ret' or isinstance(out.v, ValidationException),
            detail=repr(out))
    return out, list(TRACE)


@contract('C05', 'pipeline', native=True, n=300)
def _(E):
    txt = E.choice('txt', ['', 'q', 'X', 'Y', 'Z', 'XY', 'XYZ'])
    f = E.choice('f', ['plain', 'eager', 'pre'])
    new = E.bool('new')
    if new:
        out, tr = run(E, lambda: Pipe(id=1, **{f: txt}))
    else:
        o = Pipe(id=1)
        o._mark_not_new()
        out, tr = run(E, lambda: o.set(**{f: txt}))
    if f == 'plain':
        E.same('input transforms in order', tr, ['a'])
        o = out.v
        E.same('value', o.plain, txt + 'a')
        out, tr = run(E, o.validate)
        E.iff('verdict', out.kind == 'exc', 'X' in txt or 'Y' in txt)
        E.same('validates in order, to the first failure', tr, ['?1'] if 'X' in txt else ['?1', '?2'])
    elif f == 'eager':
        if 'X' in txt or 'Y' in txt:
            E.check('eager failures are raised at input', out.kind == 'exc')
            E.same('at once, in order', tr, ['?3'] if 'X' in txt else ['?3', 'c', '?4'])
            return
        E.same('in order', tr, ['?3', 'c', '?4', 'd'])
        o = out.v
        E.same('value', o.eager, txt + 'cd')
        out, tr = run(E, o.validate)
        E.same('only the rules after the eager mark', tr, ['?5'])
        E.iff('verdict', out.kind == 'exc', 'Z' in txt)
    else:
        E.same('nothing at input', tr, [])
        o = out.v
        E.same('value', o.pre, txt)
        out, tr = run(E, o.validate)
        E.same('only the rules before the save stage', tr, ['?6'])
        E.iff('verdict', out.kind == 'exc', 'X' in txt)
        out, tr = run(E, o.save)
        if 'X' in txt:
            E.check('an invalid object is not saved', out.kind == 'exc' and tr == ['?6'])
            E.same('value untouched', o.pre, txt)
            return
        if 'Y' in txt:
            E.check('rejected at the save stage', out.kind == 'exc')
            E.same('in order', tr, ['?6', 'e', '?7'])
        elif 'Z' in txt:
            E.check('rejected at the save stage', out.kind == 'exc')
            E.same('in order', tr, ['?6', 'e', '?7', 'f', '?8'])
        else:
            E.check('saved', out.kind == 'ret')
            E.same('in order', tr, ['?6', 'e', '?7', 'f', '?8'])
            E.same('value', o.pre, txt + 'ef')


# ------------------------------------------------- save time modifiers
from jsonclasses.modifiers.setonsave_modifier import SetOnSaveModifier
from jsonclasses.modifiers.fsetonsave_modifier import FSetOnSaveModifier
from jsonclasses.modifiers.onsave_modifier import OnSaveModifier
from jsonclasses.modifiers.onupdate_modifier import OnUpdateModifier
from jsonclasses.modifiers.onwrite_modifier import OnWriteModifier


@contract('C05', 'setonsave')
def _(E):
    v = E.any('v')
    f = E.uf('f')
    mod = E.choice('mod', [SetOnSaveModifier, FSetOnSaveModifier])
    form = E.choice('form', [0, 1, 'types'])
    if form == 'types':
        ty = types.transform(lambda x: f(x))
        setter = ty
        want = f(v) if v is not None else None
    elif form == 0:
        setter, want = (lambda: f()), f()
    else:
        setter, want = (lambda x: f(x)), f(v)
    m = mod(setter)
    out = E.call(m.serialize, mkctx(E, v))
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    E.same('the value at saving', out.v, want)
    E.same('input is left alone', m.transform(mkctx(E, v)), v)
    fd = types.str.fdef
    m.define(fd)
    E.iff('forced', fd.force_set_on_save, mod is FSetOnSaveModifier)


def cb(log, n):
    return {0: lambda: log.append(()), 1: lambda a: log.append((a,)),
            2: lambda a, b: log.append((a, b)), 3: lambda a, b, c: log.append((a, b, c))}[n]


@contract('C05', 'onsave')
def _(E):
    v = E.any('v')
    n = E.choice('n', [0, 1])
    log = []
    ctx = mkctx(E, v)
    out = E.call(OnSaveModifier(cb(log, n)).serialize, ctx)
    E.check('returns', out.kind == 'ret', incomplete=True)
    E.same('value unchanged', out.v, v)
    E.check('called once', len(log) == 1)
    E.same('with', list(log[0]), [v][:n])


@contract('C05', 'onwrite', covers=('called', 'not'))
def _(E):
    """Called when the field has a new value: on new objects and when the
    field is among the modified ones."""
    v = E.any('v')
    n = E.choice('n', [0, 1, 2])
    new = E.bool('new')
    mods = E.list('mods', lambda e: e.str('m'))
    log = []
    ctx = mkctx(E, v, parent=E.obj(is_new=new, modified_fields=mods))
    out = E.call(OnWriteModifier(cb(log, n)).serialize, ctx)
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    E.same('value unchanged', out.v, v)
    if new or 'k' in mods:
        E.check('called once', len(log) == 1)
        if n:
            E.same('with the value', log[0][0], v)
        if n == 2:
            E.check('and the context', log[0][1] is ctx)
        E.cover('called')
    else:
        E.check('not called', len(log) == 0)
        E.cover('not')


@contract('C05', 'onupdate', covers=('called', 'not'))
def _(E):
    """Called with the previous and the new value when the field's value was
    replaced."""
    v = E.any('v')
    n = E.choice('n', [0, 1, 2, 3])
    prev = E.dict('prev')
    log = []
    ctx = mkctx(E, v, parent=E.obj(previous_values=prev))
    out = E.call(OnUpdateModifier(cb(log, n)).serialize, ctx)
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    E.same('value unchanged', out.v, v)
    if 'k' in prev:
        E.check('called once', len(log) == 1)
        if n == 1:
            E.same('with the value', log[0][0], v)
        if n >= 2:
            E.same('with the previous value', log[0][0], prev['k'])
            E.same('and the value', log[0][1], v)
        if n == 3:
            E.check('and the context', log[0][2] is ctx)
        E.cover('called')
    else:
        E.check('not called', len(log) == 0)
        E.cover('not')


SAVES = []


@jsonclass(class_graph='c05')
class SvA:
    id: int = types.int.primary.required
    a: int | None
    s: int | None = types.int.setonsave(lambda: SAVES.append('s') or 7)
    f: int | None = types.int.fsetonsave(lambda: SAVES.append('f') or 8)
    t: int | None = types.int.temp
    b: SvB = types.objof('SvB').linkto


@jsonclass(class_graph='c05')
class SvB:
    id: int = types.int.primary.required
    x: int | None = types.int.setonsave(lambda v: SAVES.append('x') or (v or 0) + 1)
    as_: list[SvA] = types.listof('SvA').linkedby('b')


@contract('C05', 'save.stage', native=True, n=300)
def _(E):
    """Saving runs the save-time setters of new and modified objects, the
    forced ones always, over the linked objects, each object once."""
    a1, a2, b = SvA(id=1), SvA(id=2), SvB(id=1)
    objs = [a1, a2, b]
    if E.bool('l1'):
        a1.b = b
    if E.bool('l2'):
        a2.b = b
    linked1, linked2 = a1.b is b, a2.b is b
    st = []
    for i, o in enumerate(objs):
        s = E.choice(f'st{i}', ['new', 'clean', 'mod'])
        st.append(s)
        if s != 'new':
            o._mark_unmodified()
        if s == 'mod':
            if o is b:
                o.x = 40
            else:
                o.a = 9
    old = (a1.s, a2.s, b.x or 0)
    a1.t = 3
    if st[0] == 'clean':
        st[0] = 'mod'
    del SAVES[:]
    a1.save(skip_validation=True)
    reach = [a1] + ([b] if linked1 else []) + ([a2] if linked1 and linked2 else [])
    dirty = {id(o): s != 'clean' for o, s in zip(objs, st)}
    E.same('s', SAVES.count('s'), sum(dirty[id(o)] for o in reach if o is not b))
    E.same('f always', SAVES.count('f'), sum(1 for o in reach if o is not b))
    E.same('x', SAVES.count('x'), 1 if b in reach and dirty[id(b)] else 0)
    for o in (a1, a2):
        E.same('s set', o.s, 7 if o in reach and dirty[id(o)] else None)
        E.same('f set', o.f, 8 if o in reach else None)
    E.same('x set', b.x or 0, old[2] + (1 if b in reach and dirty[id(b)] else 0))


# ------------------------------------------------------ items of collections
def items_stage(E, mod, stage, val, want, null):
    """Every item is run through the item type, once, at its own key, as an
    item of this collection; the results stand in the items' places."""
    f = E.uf('f')
    root = E.obj(n='root')
    owner = mkowner(E, E.obj(n='conf'), n='owner')
    ifdef = E.obj(n='ifdef')

    def item(ictx):
        i = ictx.keypathr[-1]
        E.check('item context', ictx.fdef is ifdef and ictx.parent is ctx.val
                and ictx.root is root and ictx.owner is owner
                and ictx.fkeypathr[-1] == i and ictx.fkeypathr[0] == 'k'
                and len(ictx.fkeypathr) == 2)
        return f(i, ictx.val)
    itypes = E.obj(fdef=ifdef, modifier=E.obj(**{stage: item}))
    fdef = E.obj(item_types=itypes, collection_nullability=null, use_join_table=False,
                 fstore=E.choice('store', [FStore.EMBEDDED, FStore.FOREIGN_KEY, FStore.TEMP]))
    ctx = mkctx(E, val, root=root, owner=owner, fdef=fdef)
    out = E.call(getattr(mod, stage), ctx)
    E.check('returns', out.kind == 'ret', incomplete=True)
    return out.v, f


@contract('C05', 'listof.items')
def _(E):
    v = E.list_any('v')
    stage = E.choice('stage', ['transform', 'tojson', 'serialize'])
    r, f = items_stage(E, ListOfModifier(E.obj()), stage, v, None, Nullability.NULLABLE)
    E.same('the items', r, [f(i, x) for i, x in enumerate(v)])
    E.check('a new list', r is not v)


@contract('C05', 'dictof.items')
def _(E):
    v = E.dict_any('v')
    stage = E.choice('stage', ['transform', 'tojson', 'serialize'])
    r, f = items_stage(E, DictOfModifier(E.obj()), stage, v, None, Nullability.NULLABLE)
    E.same('the items', r, {k: f(k, x) for k, x in v.items()})
    E.check('a new dict', r is not v)


@contract('C05', 'collections.other')
def _(E):
    """null is left, or made the empty collection where the field may not be
    null; what is no collection of the kind is passed on."""
    cls, kind = E.choice('kind', [(ListOfModifier, 'list'), (DictOfModifier, 'dict')])
    v = E.any('v', ('none', 'bool', 'int', 'float', 'str', 'dict' if kind == 'list' else 'list', 'date', 'opaque'))
    stage = E.choice('stage', ['transform', 'tojson', 'serialize'])
    null = E.choice('null', [Nullability.NULLABLE, Nullability.NONNULL, Nullability.UNDEFINED])
    r, f = items_stage(E, cls(E.obj()), stage, v, None, null)
    if v is None and stage == 'transform' and null == Nullability.NONNULL:
        E.same('the empty collection', r, [] if kind == 'list' else {})
    else:
        E.same('passed on', r, v)


# ------------------------------------------------------------ saving objects
@contract('C05', 'object.serialize', covers=('run', 'left'))
def _(E):
    """At saving, every stored field of a new or modified object is run
    through its definition once and takes the result; of an unmodified one
    the references, objects and forced fields. An object met before, and a
    reference known by its key only, are left."""
    f = E.uf('f')
    n = E.choice('fields', [1, 2])
    new, mod = E.choice('status', [(True, False), (False, True), (False, False)])
    names = ['a', 'b'][:n]
    made = {}
    for x in names:
        made[x] = E.choice('kind ' + x, ['plain', 'calc', 'ref', 'inst', 'forced', 'key', 'keyonly'])
    log = []

    def field(x):
        k = made[x]
        store = {'calc': FStore.CALCULATED, 'key': FStore.LOCAL_KEY, 'keyonly': FStore.LOCAL_KEY}.get(
            k, FStore.EMBEDDED)
        fd = E.obj(is_ref=k in ('ref', 'key', 'keyonly'), is_inst=k == 'inst', force_set_on_save=k == 'forced',
                   fstore=store)

        def ser(c):
            E.check('the field context', c.fdef is fd and c.keypathr[-1] == x and c.val == vals[x])
            log.append(x)
            return f(x, c.val)
        return E.obj(name=x, fdef=fd, types=E.obj(modifier=E.obj(serialize=ser)))
    vals = {x: None if made[x] == 'keyonly' else E.any('v' + x, ('int', 'str')) for x in names}
    sets = []

    def onset(x, v):
        sets.append((x, v))
    fields = [field(x) for x in names]
    cdef = E.obj(fields=fields, name='O', primary_field=None, jconf=E.obj(
        ref_name_strategy=lambda fl: fl.name + '_id', output_key_strategy=lambda n: n))
    cls = type('O', (), {'cdef': cdef, '__is_jsonclass__': True})
    attrs = {x: vals[x] for x in names}
    attrs.update({x + '_id': 'key' for x in names})
    o = E.obj(cls=cls, cdef=cdef, is_new=new, is_modified=mod, _id='1', **attrs)
    ctx = mkctx(E, o, root=o, owner=o, parent=o)
    out = E.call(InstanceOfModifier(cls).serialize, ctx)
    E.check('returns the object', out.kind == 'ret' and out.v is o, incomplete=True)
    due = [x for x in names if made[x] not in ('calc', 'keyonly') and
           (new or mod or made[x] != 'plain')]
    E.same('each once', sorted(log), sorted(due))
    for x in names:
        E.same('the value', getattr(o, x), f(x, vals[x]) if x in due else vals[x])
    del log[:]
    out = E.call(InstanceOfModifier(cls).serialize, ctx)
    E.check('not again', out.kind == 'ret' and out.v is o and len(log) == 0)
    E.cover('run' if due else 'left')

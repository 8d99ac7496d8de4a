"""C01: input reaches exactly the fields it may write."""
from __future__ import annotations
from typing import Any
from contracts.base import *
from jsonclasses.modifiers.instanceof_modifier import InstanceOfModifier
from jsonclasses.modifiers.listof_modifier import ListOfModifier
from jsonclasses.modifiers.dictof_modifier import DictOfModifier
from jsonclasses.fdef import FStore, FType, WriteRule, Nullability, Strictness
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types


def transform_contract(E, fill, strict=False):
    """Every field the input names, and may write, is set to its transformed
    value; no other field is touched, except that a new object has its other
    fields filled with their defaults."""
    hascur, curtxt, tr = E.uf('hascur', 'bool'), E.uf('curtxt', 'str'), E.uf('transformed')

    def cur(n):
        return curtxt(n) if hascur(n) else None
    writes = E.log()
    root = E.obj(n='root')

    def tfield(fdef):
        def t(c):
            E.check('the field is transformed by its own definition', c.fdef is fdef and c.root is root)
            E.check('as a field of the object', c.owner is dest)
            E.same('at its place', c.keypathr, ['top', 'k', c.keypathr[-1]])
            return tr(c.keypathr[-1], c.val)
        return t

    def mkf(e):
        n = e.str('name')
        fd = E.obj(write_rule=e.choice('rule', list(WriteRule)),
                   fstore=e.choice('store', [FStore.EMBEDDED, FStore.TEMP, FStore.CALCULATED]),
                   ftype=FType.STR, is_ref=False)
        return e.rec('field', dict(name=n, json_name=e.str('jname'), fdef=fd, default=e.any('default', ('none', 'int', 'str')),
                                   types=E.obj(modifier=E.obj(transform=tfield(fd)))))
    fields = E.recs('fields', mkf)
    ek = E.uf('ek')
    names = set()
    cdef = E.obj(fields=fields, name='D', primary_field=None, available_names=names,
                 jconf=E.obj(strict_input=False, output_key_strategy=ek))
    D = type('D', (), {'cdef': cdef, '__is_jsonclass__': True})
    dest = E.obj(cls=D, **{'_id': None, 'cdef': cdef, '*getattr*': lambda n: cur(n),
                           '*setattr*': lambda n, v: writes.add(n, v)})
    val = E.dict('val')
    owner = mkowner(E, E.obj(output_key_strategy=ek), n='owner')
    ctx = mkctx(E, val, root=root, owner=owner, original=dest,
                fdef=E.obj(inst_cls=D, strictness=Strictness.UNDEFINED),
                ctxcfg=CtxCfg(fill_dest_blanks=fill))
    before = dict(val)
    out = E.call(InstanceOfModifier(D).transform, ctx)
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    E.check('the object itself', out.v is dest)
    want = E.log()
    for f in fields:
        given = f.json_name in val or f.name in val
        inp = val.get(f.json_name)
        if inp is None:
            inp = val.get(f.name)
        rule = f.fdef.write_rule
        may = given
        if rule is WriteRule.NO_WRITE:
            may = False
        if rule is WriteRule.WRITE_ONCE and cur(f.name) is not None:
            may = False
        if rule is WriteRule.WRITE_NONNULL and inp is None:
            may = False
        if f.fdef.fstore is not FStore.CALCULATED:
            if may:
                want.add(f.name, tr(f.name, inp))
            elif fill:
                want.add(f.name, f.default if f.default is not None else tr(f.name, None))
    E.same('the fields written, and their values', writes, want)
    E.same('the input is unchanged', [x for x in val.items()], [x for x in before.items()])


@contract('C01', 'input.set')
def _(E):
    transform_contract(E, False)


@contract('C01', 'input.new')
def _(E):
    transform_contract(E, True)


@contract('C01', 'input.other')
def _(E):
    """Null input keeps the object; what is no dict is passed through to
    validation unless there is an object already."""
    v = E.any('v', ('none', 'bool', 'int', 'float', 'str', 'list', 'date', 'datetime', 'opaque'))
    orig = E.obj(n='orig') if E.choice('has', [True, False]) else None
    ctx = mkctx(E, v, original=orig, fdef=E.obj(inst_cls=int, strictness=Strictness.UNDEFINED))
    out = E.call(InstanceOfModifier('x').transform, ctx)
    E.check('returns', out.kind == 'ret', incomplete=True)
    if orig is not None:
        E.check('the object', out.v is orig)
    else:
        E.same('the value', out.v, v)


# ------------------------------------------ real classes, arbitrary values
@jsonclass(class_graph='c01')
class WrA:
    id: int = types.int.primary.required
    free: str | None
    ro: str | None = types.str.readonly
    once: str | None = types.str.writeonce
    nonnull: str | None = types.str.writenonnull
    once_def: str | None = types.str.writeonce.default('d')
    ro_def: str | None = types.str.readonly.default('e')
    internal: str | None = types.str.readonly.writeonly
    tags: list[str] = types.listof(str).readonly
    ro_map: dict[str, str] = types.dictof(str).writeonce
    lst: list[str] = types.listof(str)
    eq: int = 5


SC = ('none', 'int', 'str')


def spec_apply(cur, data):
    """The model: what set(**data) makes of the current values."""
    r = dict(cur)
    for k, v in data.items():
        if k in ('ro', 'ro_def', 'internal', 'tags'):
            continue
        if k in ('once', 'once_def', 'ro_map') and r[k] is not None:
            continue
        if k == 'nonnull' and v is None:
            continue
        r[k] = 'd' if k == 'once_def' and v is None else v
    return r


TXT = ['free', 'ro', 'once', 'nonnull', 'once_def', 'ro_def', 'internal', 'eq']


@contract('C01', 'real.new')
def _(E):
    """Construction from input, then set, for all text, number and null
    values."""
    data = {}
    for k in E.choice('keys', [TXT, [], *[[k] for k in TXT]]):
        data[k] = E.any(k, ('none', 'str'))
    out = E.call(lambda: WrA(id=1, **data))
    E.check('made', out.kind == 'ret', incomplete=True, detail=repr(out))
    base = dict(free=None, ro=None, once=None, nonnull=None, once_def=None, ro_def=None,
                internal=None, eq=None)
    want = spec_apply(base, data)
    if want['once_def'] is None:
        want['once_def'] = 'd'
    want['ro_def'] = 'e'
    if 'eq' not in data:
        want['eq'] = 5
    for k in TXT:
        E.same(k, getattr(out.v, k), want[k])


@contract('C01', 'real.set', covers=('ok',))
def _(E):
    which = E.choice('which', TXT)
    other = E.choice('other', ['free', 'once', 'ro_def'])
    cur = {k: E.any('c_' + k, ('none', 'str')) if k in (which, other) else 'x' for k in TXT}
    o = WrA(id=1)
    o.update(**cur)
    for k in TXT:
        E.same('update writes every field', getattr(o, k), cur[k])
    data = {which: E.any('n_' + which, SC)}
    out = E.call(lambda: o.set(**data))
    E.check('returns the object', out.kind == 'ret' and out.v is o, detail=repr(out))
    want = spec_apply(cur, data)
    for k in TXT:
        E.same(k, getattr(o, k), want[k])
    E.cover('ok')


@contract('C01', 'real.history', native=True, n=400)
def _(E):
    """Histories of set calls, plain keys, camelized keys and key paths."""
    o = WrA(id=1)
    cur = {k: getattr(o, k) for k in TXT + ['tags', 'ro_map', 'lst']}
    E.same('defaults', cur, dict(free=None, ro=None, once=None, nonnull=None, once_def='d', ro_def='e',
                                 internal=None, eq=5, tags=None, ro_map=None, lst=None))
    if E.bool('fill'):
        cur.update(tags=['t'], lst=['a', 'b'], ro='R')
        o.update(tags=['t'], lst=['a', 'b'], ro='R')
    for i in range(E.int('n', 1, 6)):
        k = E.choice(f'k{i}', TXT + ['tags', 'ro_map', 'lst', 'paths'])
        if k == 'paths':
            p = E.choice(f'p{i}', ['tags.0', 'ro_map.x', 'lst.0', 'tags[0]', 'lst[1]'])
            f = p.replace('[', '.').split('.')[0]
            if cur[f] is None:
                continue
            o.set(**{p: f'v{i}'})
            if f == 'lst':
                cur['lst'] = list(cur['lst'])
                cur['lst'][int(p[4])] = f'v{i}'
        else:
            v = E.choice(f'v{i}', [None, 'x', 'y', ''])
            if k in ('tags', 'lst'):
                v = None if v is None else [v, 'z']
            elif k == 'ro_map':
                v = None if v is None else {'x': v}
            jk = E.choice(f'j{i}', [k, ''.join(w if j == 0 else w.title() for j, w in enumerate(k.split('_')))])
            o.set(**{jk: v})
            cur = spec_apply(cur, {k: v})
        for f, v in cur.items():
            got = getattr(o, f)
            E.same(f, got if not isinstance(got, (list, dict)) else type(v)(got), v)


@jsonclass(class_graph='c01')
class WrSub:
    id: int = types.int.primary.required
    once: str | None = types.str.writeonce
    ro: str | None = types.str.readonly.default('R')
    val: str | None


@jsonclass(class_graph='c01')
class WrTop:
    a: WrSub
    b: WrSub
    subs: list[WrSub]
    ro_sub: WrSub = types.objof('WrSub').readonly


@contract('C01', 'real.nested', native=True, n=300)
def _(E):
    """Write rules hold in nested input; the same object given twice keeps
    what it has."""
    def sub(n):
        d = {'id': E.choice(n + 'id', [1, 2])}
        for k in ('once', 'ro', 'val'):
            if E.bool(n + k):
                d[k] = E.choice(n + k + 'v', ['p', 'q'])
        return d
    a, b = sub('a'), sub('b')
    t = WrTop(a=a, b=b, ro_sub={'id': 9})
    E.check('a readonly object is not made', t.ro_sub is None)
    E.iff('one object per key', t.a is t.b, a['id'] == b['id'])
    m = {}
    for d in (a, b):
        o = m.setdefault(d['id'], {'once': None, 'ro': 'R', 'val': None})
        if o['once'] is None:
            o['once'] = d.get('once')
        if 'val' in d:
            o['val'] = d['val']
    for d, o in ((a, t.a), (b, t.b)):
        for k in ('once', 'ro', 'val'):
            E.same(k, getattr(o, k), m[d['id']][k])


@jsonclass(class_graph='c01')
class WrUser:
    id: int = types.int.primary.required
    posts: list[WrPost] = types.listof('WrPost').linkedby('author')


@jsonclass(class_graph='c01')
class WrPost:
    id: int = types.int.primary.required
    author: WrUser = types.objof('WrUser').linkto
    ro_author: WrUser = types.objof('WrUser').linkto.readonly
    once_author: WrUser = types.objof('WrUser').linkto.writeonce


WrPost.cdef.available_names, WrUser.cdef.available_names


@contract('C01', 'real.refkeys')
def _(E):
    """Reference keys obey the write rules of their field."""
    p = WrPost(id=1)
    x, y = E.any('x', ('int', 'str')), E.any('y', ('int', 'str'))
    camel = E.choice('camel', [True, False])

    def give(name, v):
        parts = (name + '_id').split('_')
        key = parts[0] + ''.join(q.title() for q in parts[1:]) if camel else name + '_id'
        p.set(**{key: v})
    give('author', x)
    E.same('free', p.author_id, x)
    give('author', y)
    E.same('free again', p.author_id, y)
    give('ro_author', x)
    E.check('readonly', p.ro_author_id is None)
    give('once_author', x)
    E.same('once', p.once_author_id, x)
    give('once_author', y)
    E.same('not twice', p.once_author_id, x)


@contract('C01', 'update.names')
def _(E):
    """update writes exactly the given fields, and refuses unknown names
    without writing anything."""
    o = WrA(id=1, free='f')
    v = E.any('v', SC)
    k = E.choice('k', ['free', 'ro', 'once', 'internal', 'nope', 'onceDef', '_x', 'tags_ids'])
    bad = k in ('nope', 'onceDef', '_x', 'tags_ids')
    out = E.call(lambda: o.update(**{'once_def': 'w', k: v}))
    if bad:
        E.check('refused', out.kind == 'exc' and isinstance(out.v, ValueError))
        E.same('nothing written', o.once_def, 'd')
    else:
        E.check('returns the object', out.kind == 'ret' and out.v is o)
        E.same('written', getattr(o, k), v)
        E.same('written', o.once_def, 'w')


@jsonclass(class_graph='c01k')
class WrLeaf:
    free: Any
    other: Any
    ro: Any = types.any.readonly.default('R')
    once: Any = types.any.writeonce
    up: str | None = types.str.toupper
    sub: WrLeaf | None
    ro_sub: WrLeaf | None = types.objof('WrLeaf').readonly


@jsonclass(class_graph='c01k')
class WrDeep:
    leaf: WrLeaf
    once_leaf: WrLeaf = types.objof('WrLeaf').writeonce
    lst: list[Any]
    mp: dict[str, Any]
    leaves: list[WrLeaf]
    named: dict[str, WrLeaf]
    rows: list[list[Any]]
    maps: dict[str, list[Any]]
    ro_lst: list[Any] = types.listof(types.any).readonly
    none: WrLeaf | None
    none_lst: list[Any] | None
    none_mp: dict[str, Any] | None


for _c in (WrDeep, WrLeaf):
    # names and types are resolved once, at first use
    _c.cdef.available_names
    for _f in _c.cdef.fields:
        _t = _f.fdef
        while _t.ftype in (FType.LIST, FType.DICT):
            _t = _t.item_types.fdef


def leaf_state(o):
    return None if o is None else [o.free, o.other, o.ro, o.once, o.up, leaf_state(o.sub), leaf_state(o.ro_sub)]


def deep_state(o):
    return {'leaf': leaf_state(o.leaf), 'once_leaf': leaf_state(o.once_leaf), 'lst': list(o.lst), 'mp': dict(o.mp),
            'leaves': [leaf_state(x) for x in o.leaves], 'named': {k: leaf_state(x) for k, x in o.named.items()},
            'rows': [list(x) for x in o.rows], 'maps': {k: list(x) for k, x in o.maps.items()},
            'ro_lst': list(o.ro_lst), 'none': o.none, 'none_lst': o.none_lst, 'none_mp': o.none_mp}


def deep_make():
    def leaf(n, sub=None, ro_sub=None):
        o = WrLeaf(free=n, other=n + 'o', up='u')
        if sub is not None:
            o.sub = sub
        if ro_sub is not None:
            o.ro_sub = ro_sub
        return o
    inner = leaf('in')
    inner.once = 'set'
    o = WrDeep(leaf=leaf('l', inner, leaf('ros')), lst=[1, 2], mp={'a': 1, '0': 2},
               leaves=[leaf('l0', leaf('s0')), leaf('l1')], named={'a': leaf('na'), 'b': leaf('nb')},
               rows=[[1, 2], [3, 4]], maps={'a': [1, 2], 'b': [3, 4]})
    o.once_leaf = leaf('once')
    o.ro_lst = [1, 2]
    return o


# key path -> where it is in the state, or None when nothing is written
PLACES = {
    'leaf.free': ('leaf', 0), 'leaf.other': ('leaf', 1), 'leaf.ro': None, 'leaf.once': ('leaf', 3),
    'leaf.sub.free': ('leaf', 5, 0), 'leaf.sub.ro': None, 'leaf.sub.once': None, 'leaf.ro_sub.free': None,
    'once_leaf.free': None, 'lst.0': ('lst', 0), 'lst.1': ('lst', 1), 'mp.a': ('mp', 'a'), 'mp.new': ('mp', 'new'),
    'mp.0': ('mp', '0'), 'leaves.0.free': ('leaves', 0, 0), 'leaves.1.other': ('leaves', 1, 1),
    'leaves.1.ro': None, 'leaves.0.sub.free': ('leaves', 0, 5, 0), 'named.a.free': ('named', 'a', 0),
    'named.b.other': ('named', 'b', 1), 'named.b.ro': None, 'rows.0.1': ('rows', 0, 1), 'rows.1.0': ('rows', 1, 0),
    'maps.a.0': ('maps', 'a', 0), 'maps.b.1': ('maps', 'b', 1), 'ro_lst.0': None,
    'none.free': ValueError, 'none_lst.0': ValueError, 'none_mp.a': ValueError, 'leaves.0.ro_sub.free': None,
}


@contract('C01', 'keypath.places')
def _(E):
    """Input by key path writes the named place and no other; not one that,
    or the way to which, may not be written; a place that is not there is
    reported."""
    o = deep_make()
    k = E.choice('k', sorted(PLACES))
    v = E.any('v', SC)
    want = deep_state(o)
    place = PLACES[k]
    out = E.call(lambda: o.set(**{k: v}))
    if place is ValueError:
        E.check('reported', out.kind == 'exc' and isinstance(out.v, ValueError), detail=repr(out))
    else:
        E.check('returns the object', out.kind == 'ret' and out.v is o, detail=repr(out))
        if place is not None:
            d = want
            for p in place[:-1]:
                d = d[p]
            d[place[-1]] = v
    E.same('exactly that place', deep_state(o), want)


@jsonclass(class_graph='c01o')
class WrOnceMp:
    mp: dict[str, Any] | None = types.dictof(types.any).writeonce


for _f in WrOnceMp.cdef.fields:
    _f.fdef.item_types


@contract('C01', 'keypath.once')
def _(E):
    """A writeonce collection that is set, if empty, is not written into."""
    o = WrOnceMp()
    was = E.choice('was', [None, {}, {'b': 1}])
    o.mp = was
    out = E.call(lambda: o.set(**{'mp.a': E.any('v', SC)}))
    if was is None:
        E.check('reported', out.kind == 'exc' and isinstance(out.v, ValueError), detail=repr(out))
    else:
        E.check('returns the object', out.kind == 'ret' and out.v is o, detail=repr(out))
    E.same('nothing is written', None if o.mp is None else dict(o.mp), was)


@contract('C01', 'keypath.transformed')
def _(E):
    """Fields named by key path get their transformed value."""
    o = WrDeep(leaf=WrLeaf(up='a', sub=WrLeaf(up='b')), leaves=[WrLeaf(up='c')])
    s = E.str('s')
    k = E.choice('k', ['leaf.up', 'leaf.sub.up', 'leaves.0.up'])
    o.set(**{k: s})
    E.same('transformed', [o.leaf.up, o.leaf.sub.up, o.leaves[0].up],
           [s.upper() if k == 'leaf.up' else 'A', s.upper() if k == 'leaf.sub.up' else 'B',
            s.upper() if k == 'leaves.0.up' else 'C'])


@jsonclass(class_graph='c01j')
class WrClub:
    id: str = types.str.primary.required
    members: list[WrMember] = types.listof('WrMember').linkedthru('clubs')


@jsonclass(class_graph='c01j')
class WrMember:
    id: str = types.str.primary.required
    clubs: list[WrClub] = types.listof('WrClub').linkedthru('members')


for _c in (WrClub, WrMember):
    _c.cdef.available_names
    for _f in _c.cdef.fields:
        _f.fdef.is_ref, _f.foreign_field, _f.fdef.item_types


@contract('C01', 'join.keys')
def _(E):
    """Items {'_add': key} and {'_del': key} in the input of a relationship
    through a table are kept, in order, as keys to link and to unlink; the
    other items are the objects."""
    c = WrClub(id='c')
    n = E.choice('n', [0, 1, 2, 3])
    add, rem, objs, items = [], [], [], []
    for i in range(n):
        k = E.str(f'k{i}')
        what = E.choice(f'what{i}', ['_add', '_del', 'object', 'both'])
        if what == 'object':
            items.append({'id': 'm' + str(i)})
            objs.append('m' + str(i))
        elif what == 'both':
            items.append({'_del': 'x', '_add': k})
            add.append(k)
        else:
            items.append({what: k})
            (add if what == '_add' else rem).append(k)
    out = E.call(lambda: c.set(members=items))
    E.check('returns the object', out.kind == 'ret' and out.v is c, detail=repr(out))
    E.same('the keys to link', c._link_keys, {'members': add} if add else {})
    E.same('the keys to unlink', c._unlink_keys, {'members': rem} if rem else {})
    E.same('the objects', [m.id for m in c.members], objs)
    for m in c.members:
        E.check('linked', len(m.clubs) == 1 and m.clubs[0] is c)

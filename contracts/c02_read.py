"""C02: output shows exactly what may be read."""
from __future__ import annotations
from typing import Any
from contracts.base import *
from jsonclasses.modifiers.instanceof_modifier import InstanceOfModifier
from jsonclasses.fdef import FStore, FType, ReadRule
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types


def output_contract(E, stores, partial=False, chains=([],), paths=(['a'],), foreign=False, nulls=None, inst=True,
                    rules=tuple(ReadRule), ignore=(True, False)):
    """The JSON object has, in field order, for every field that may be read
    its reference key and its value; nothing else."""
    tj, cur, keyname = E.uf('tojson'), E.uf('current'), E.uf('refkey', 'str')
    outname = E.uf('outname', 'str')
    root = E.obj(n='root')
    fdef_here = E.obj(n='fdef of the context')

    def tfield(n, fd):
        def t(c):
            E.check('the field is output by its own definition', c.fdef is fd and c.root is root)
            E.check('in an object field the object is the owner', (c.owner is c.val) if inst else c.owner is owner)
            E.same('the classes above', c.idchain, [*chain, 'D'])
            E.same('at its place', c.keypathr, [*path, n])
            E.check('with the settings', c.ctxcfg is cfg)
            return tj(n, c.val)
        return t

    def mkf(e):
        n = e.str('name')
        fd = E.obj(read_rule=e.choice('rule', list(rules)), fstore=e.choice('store', stores),
                   ftype=FType.INSTANCE if inst else FType.LIST)
        if foreign:
            ff = e.choice('foreign', [None, E.obj(fdef=fdef_here, name='zz'),
                                      E.obj(fdef=fd, name='a'), E.obj(fdef=fd, name='zz')])
        else:
            ff = None
        return e.rec('field', dict(name=n, json_name=e.str('jname'), fdef=fd, foreign_field=ff,
                                   types=E.obj(fdef=fd, modifier=E.obj(tojson=tfield(n, fd)))))
    fields = E.recs('fields', mkf)
    picks = [E.str('p1'), E.str('p2')] if partial else None
    on, onull = E.choice('nulls', nulls or [(None, True), (None, False), (True, False), (False, True)])
    cdef = E.obj(fields=fields, name='D', primary_field=None,
                 jconf=E.obj(output_null=onull, output_key_strategy=lambda k: outname(k),
                             ref_name_strategy=lambda f: keyname(f.name)))
    D = type('D', (), {'cdef': cdef, '__is_jsonclass__': True})
    val = E.obj(cls=D, cdef=cdef, is_partial=partial, _partial_picks=picks, _id=None,
                **{'*getattr*': lambda n: cur(n)})
    owner = mkowner(E, E.obj(output_key_strategy=lambda k: outname(k)), n='owner')
    ign = E.choice('ignore_writeonly', list(ignore))
    rr = E.choice('reverse', [True, False]) if foreign else False
    cfg = CtxCfg(ignore_writeonly=ign, reverse_relationship=rr, output_null=on)
    chain = E.choice('chain', list(chains))
    path = E.choice('path', list(paths))
    ctx = mkctx(E, val, root=root, owner=owner, fdef=fdef_here, ctxcfg=cfg, keypath=path, idchain=chain)
    out = E.call(InstanceOfModifier(D).tojson, ctx)
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    nulls = onull if on is None else on
    want = {}
    for f in fields:
        hidden = f.fdef.read_rule is ReadRule.NO_READ and not ign
        shown = not hidden and f.fdef.fstore is not FStore.TEMP
        if partial and f.name not in picks:
            shown = False
        if shown and f.fdef.fstore is FStore.LOCAL_KEY:
            key = cur(keyname(f.name))
            if nulls or key is not None:
                want[outname(keyname(f.name))] = key
        if f.fdef.fstore is FStore.LOCAL_KEY or f.fdef.fstore is FStore.FOREIGN_KEY:
            if 'D' in chain:
                shown = False
            ff = f.foreign_field
            if not rr and ff is not None:
                if ff.fdef is fdef_here or (len(path) > 1 and ff.name == path[-2]):
                    shown = False
        if shown:
            j = tj(f.name, cur(f.name))
            if nulls or j is not None:
                want[f.json_name] = j
    E.same('the JSON object', out.v, want)


N1, N2 = [(None, True)], [(None, False)]


@contract('C02', 'output.plain')
def _(E):
    output_contract(E, [FStore.EMBEDDED, FStore.TEMP, FStore.CALCULATED], inst=E.choice('object', [True, False]))


@contract('C02', 'output.partial')
def _(E):
    output_contract(E, [FStore.EMBEDDED, FStore.TEMP], partial=True, nulls=N2)


@contract('C02', 'output.partial.refs')
def _(E):
    output_contract(E, [FStore.EMBEDDED, FStore.LOCAL_KEY], partial=True, nulls=N2, ignore=[False])


@contract('C02', 'output.refs')
def _(E):
    """Below an object of the same class, no references."""
    output_contract(E, list(FStore), chains=[['C'], ['D', 'C']], nulls=[(None, True), (None, False)])


@contract('C02', 'output.refs.lists')
def _(E):
    output_contract(E, list(FStore), chains=[[], ['C', 'D']], nulls=N2, inst=False)


@contract('C02', 'output.reverse')
def _(E):
    """The way back along a relation is not output unless asked for."""
    output_contract(E, [FStore.LOCAL_KEY, FStore.FOREIGN_KEY], foreign=True, nulls=N2,
                    rules=[ReadRule.UNLIMITED], ignore=[False],
                    paths=[['a'], ['a', 'b'], ['q', 'a']])


@contract('C02', 'output.null')
def _(E):
    out = E.call(InstanceOfModifier('x').tojson, mkctx(E, None))
    E.check('null', out.kind == 'ret' and out.v is None)


# ------------------------------------------ real classes, arbitrary values
@jsonclass(class_graph='c02')
class RdA:
    id: int = types.int.primary.required
    plain: str | None
    two_words: str | None
    wo: str | None = types.str.writeonly
    internal: str | None = types.str.readonly.writeonly
    tmp: str | None = types.str.temp
    calc: str | None = types.str.getter(lambda o: o.plain)
    calc_wo: str | None = types.str.getter(lambda o: o.plain).writeonly
    items: list[str] = types.listof(types.str.nullable)


@jsonclass(class_graph='c02', output_null=True, output_key_strategy='identical')
class RdB:
    id: int = types.int.primary.required
    plain: str | None
    two_words: str | None
    wo: str | None = types.str.writeonly


TXT = ['plain', 'two_words', 'wo', 'internal', 'tmp']


@contract('C02', 'real.output')
def _(E):
    """Every option, all text and null values."""
    o = RdA(id=1)
    cur = {k: E.any(k, ('none', 'str')) if k in ('plain', 'wo', 'tmp') else 'x' for k in TXT}
    cur['id'] = 1
    o.update(**cur)
    kw = E.choice('options', [{}, {'ignore_writeonly': True}, {'output_null': True},
                              {'output_null': False, 'ignore_writeonly': False},
                              {'output_null': True, 'ignore_writeonly': True}])
    mode = E.choice('part', ['all', 'pick', 'omit', 'pick, omit'])
    names = ['id', *TXT, 'calc', 'calc_wo', 'items']
    if mode == 'pick':
        given = E.choice('picked', [['plain'], ['wo', 'id'], ['two_words', 'tmp', 'calc'], []])
        o.pick(given)
        names = [n for n in names if n in given]
    if mode == 'omit':
        given = E.choice('omitted', [['plain'], ['wo', 'calc'], []])
        E.check('omit returns', E.call(o.omit, given).kind == 'ret')
        names = [n for n in names if n not in given]
    if mode == 'pick, omit':
        first = E.choice('picked', [['plain', 'calc', 'id', 'wo'], ['plain', 'two_words']])
        given = E.choice('omitted', [['plain'], []])
        o.pick(first)
        E.check('omit returns', E.call(o.omit, given).kind == 'ret')
        names = [n for n in names if n in first and n not in given]
        E.same('what was given is unchanged', first[0], 'plain')
    out = E.call(lambda: o.tojson(**kw))
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    want = {}
    for n in names:
        if n == 'tmp':
            continue
        if n in ('wo', 'internal', 'calc_wo') and not kw.get('ignore_writeonly'):
            continue
        v = cur['plain'] if n in ('calc', 'calc_wo') else cur.get(n)
        if v is None and not kw.get('output_null'):
            continue
        want[{'two_words': 'twoWords', 'calc_wo': 'calcWo'}.get(n, n)] = v
    E.same('the JSON object', out.v, want)
    for k in TXT:
        E.same('the object is unchanged', getattr(o, k), cur[k])
    if mode != 'all':
        E.same('another object is whole', sorted(RdA(id=2, plain='x').tojson(output_null=True)),
               sorted(['id', 'plain', 'twoWords', 'calc', 'items']))


@contract('C02', 'real.class.settings')
def _(E):
    o = RdB(id=1)
    cur = {k: E.any(k, ('none', 'str')) for k in ('plain', 'two_words', 'wo')}
    o.update(**cur)
    E.same('nulls and plain names', o.tojson(), {'id': 1, 'plain': cur['plain'], 'two_words': cur['two_words']})
    want = {'id': 1}
    for k in ('plain', 'two_words'):
        if cur[k] is not None:
            want[k] = cur[k]
    E.same('the option overrides the class', o.tojson(output_null=False), want)


@jsonclass(class_graph='c02')
class RdUser:
    id: int = types.int.primary.required
    name: str | None
    secret: str | None = types.str.writeonly
    posts: list[RdPost] = types.listof('RdPost').linkedby('author')
    hidden_posts: list[RdPost] = types.listof('RdPost').linkedby('hidden_author').writeonly


@jsonclass(class_graph='c02')
class RdPost:
    id: int = types.int.primary.required
    title: str | None
    author: RdUser = types.objof('RdUser').linkto
    hidden_author: RdUser = types.objof('RdUser').linkto.writeonly
    notes: dict[str, str] = types.dictof(types.str.nullable)


RdUser.cdef.available_names, RdPost.cdef.available_names


def spec_user(u, ign, rr, null, chain, back):
    r = {'id': u.id, 'name': u.name}
    if ign:
        r['secret'] = u.secret
    for f, jn, fb in (('posts', 'posts', 'author'), ('hidden_posts', 'hiddenPosts', 'hidden_author')):
        if f == 'hidden_posts' and not ign:
            continue
        if 'RdUser' in chain or (back == fb and not rr):
            continue
        v = getattr(u, f)
        r[jn] = None if v is None else [spec_post(p, ign, rr, null, [*chain, 'RdUser'], f) for p in v]
    return r if null else {k: v for k, v in r.items() if v is not None}


def spec_post(p, ign, rr, null, chain, back):
    r = {'id': p.id, 'title': p.title}
    for f, jn, fb in (('author', 'author', 'posts'), ('hidden_author', 'hiddenAuthor', 'hidden_posts')):
        if f == 'hidden_author' and not ign:
            continue
        r[jn + 'Id'] = getattr(p, f + '_id')
        if 'RdPost' in chain or (back == fb and not rr):
            continue
        v = getattr(p, f)
        r[jn] = None if v is None else spec_user(v, ign, rr, null, [*chain, 'RdPost'], f)
    r['notes'] = None if p.notes is None else dict(p.notes)
    return r if null else {k: v for k, v in r.items() if v is not None}


def rows(x):
    if isinstance(x, dict):
        return {k: rows(v) for k, v in x.items()}
    if isinstance(x, list):
        return [rows(v) for v in x]
    return x


@contract('C02', 'real.graph', native=True, n=500)
def _(E):
    """Relations: what is output of a graph of users and posts."""
    users = [RdUser(id=i, name=E.choice(f'n{i}', [None, 'N']), secret='s') for i in range(2)]
    posts = []
    for i in range(E.int('np', 0, 3)):
        p = RdPost(id=10 + i, title=E.choice(f't{i}', [None, 'T']))
        p.author = E.choice(f'a{i}', [None, *users])
        p.hidden_author = E.choice(f'h{i}', [None, *users])
        if E.bool(f'k{i}'):
            p.set(author_id=5) if p.author is None else None
        p.notes = E.choice(f'no{i}', [None, {}, {'aB_c': 'x', 'n': None}])
        posts.append(p)
    ign, rr = E.bool('ign'), E.bool('rr')
    null = E.choice('null', [None, True, False])
    for u in users:
        j = u.tojson(ignore_writeonly=ign, reverse_relationship=rr, output_null=null)
        E.same('user', rows(j), spec_user(u, ign, rr, null, [], None))
    for p in posts:
        j = p.tojson(ignore_writeonly=ign, reverse_relationship=rr, output_null=null)
        E.same('post', rows(j), spec_post(p, ign, rr, null, [], None))

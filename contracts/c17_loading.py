"""C17: loading a relation asks the store for exactly the related objects and
leaves the marks of the object alone."""
from __future__ import annotations
from typing import Any
from contracts.base import *
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types


@jsonclass(class_graph='c17')
class LdUser:
    pk: str = types.str.primary.required
    name: str | None
    tags: dict[str, list[str]] | None
    # the key is here
    best: LdPost | None = types.objof('LdPost').linkto
    likes: list[LdTag] = types.listof('LdTag').linkto
    # the key is there
    profile: LdProfile | None = types.objof('LdProfile').linkedby('user')
    posts: list[LdPost] = types.listof('LdPost').linkedby('author')
    # the keys are in a table between
    groups: list[LdGroup] = types.listof('LdGroup').linkedthru('users')


@jsonclass(class_graph='c17')
class LdPost:
    pk: str = types.str.primary.required
    author: LdUser | None = types.objof('LdUser').linkto
    best_of: LdUser | None = types.objof('LdUser').linkedby('best')


@jsonclass(class_graph='c17')
class LdTag:
    pk: str = types.str.primary.required
    users: list[LdUser] = types.listof('LdUser').linkedby('likes')


@jsonclass(class_graph='c17')
class LdProfile:
    pk: str = types.str.primary.required
    user: LdUser | None = types.objof('LdUser').linkto


@jsonclass(class_graph='c17')
class LdGroup:
    pk: str = types.str.primary.required
    users: list[LdUser] = types.listof('LdUser').linkedthru('groups')


@jsonclass(class_graph='c17', ref_name_strategy=lambda f: 'key_of_' + f.name)
class LdFrom:
    pk: str = types.str.primary.required
    near: LdTo | None = types.objof('LdTo').linkto
    nears: list[LdTo] = types.listof('LdTo').linkto
    own: LdTo | None = types.objof('LdTo').linkedby('owner')
    owns: list[LdTo] = types.listof('LdTo').linkedby('owner_of')
    thru: list[LdTo] = types.listof('LdTo').linkedthru('froms')


@jsonclass(class_graph='c17', ref_name_strategy=lambda f: f.name + '_there')
class LdTo:
    pk: str = types.str.primary.required
    owner: LdFrom | None = types.objof('LdFrom').linkto
    owner_of: LdFrom | None = types.objof('LdFrom').linkto
    near_of: LdFrom | None = types.objof('LdFrom').linkedby('near')
    nears_of: list[LdFrom] = types.listof('LdFrom').linkedby('nears')
    froms: list[LdFrom] = types.listof('LdFrom').linkedthru('thru')


CLASSES = (LdFrom, LdTo, LdUser, LdPost, LdTag, LdProfile, LdGroup)
for _c in CLASSES:
    # names and types are resolved once, at first use
    _c.cdef.available_names
    for _f in _c.cdef.fields:
        _f.fdef.is_ref, _f.foreign_field, _f.fdef.item_types


class Query:
    def __init__(self, log, what, arg, result):
        self.log, self.what, self.arg, self.result = log, what, arg, result

    @property
    def optional(self):
        return self

    def exec(self):
        self.log.append((self.what, self.arg))
        return self.result


def store(E, log, result):
    """What is asked of the store is logged, with the class asked."""
    for c in CLASSES:
        E.swap(c, id=staticmethod(lambda k, c=c: Query(log, c.__name__ + '.id', k, result)),
               ids=staticmethod(lambda k, c=c: Query(log, c.__name__ + '.ids', k, result)),
               one=staticmethod(lambda c=c, **k: Query(log, c.__name__ + '.one', dict(k), result)),
               find=staticmethod(lambda c=c, **k: Query(log, c.__name__ + '.find', dict(k), result)))


def persisted(o):
    o._mark_not_new()
    return o


@contract('C17', 'include', covers=('best', 'likes', 'profile', 'posts', 'groups', 'author', 'users', 'user'))
def _(E):
    """include asks for the objects with the key, or the keys, kept here, or
    for those that keep this object's key; sets them; and marks nothing."""
    key = E.str('key')
    far = E.str('far')
    E.assume(key != far)
    modified = E.choice('modified', [None, 'name', 'tags.a'])
    case = E.choice('case', ['best', 'likes', 'profile', 'posts', 'groups', 'author', 'users', 'user', 'tagged'])
    log = []
    n = E.choice('n', [0, 1, 2])
    far2 = E.str('far2')
    E.assume(far2 != far and far2 != key)
    fars = [far, far2][:n]
    if case in ('best', 'likes', 'profile', 'posts', 'groups'):
        o = persisted(LdUser(pk=key, name='a', tags={'a': ['b']}))
        cls = {'best': LdPost, 'likes': LdTag, 'profile': LdProfile, 'posts': LdPost, 'groups': LdGroup}[case]
    elif case == 'author':
        o, cls = persisted(LdPost(pk=key)), LdUser
    elif case == 'users':
        o, cls = persisted(LdGroup(pk=key)), LdUser
    elif case == 'tagged':
        o, cls = persisted(LdTag(pk=key)), LdUser
    else:
        o, cls = persisted(LdProfile(pk=key)), LdUser
    name = 'users' if case == 'tagged' else case
    single = case in ('best', 'profile', 'author', 'user')
    if case in ('best', 'author', 'user'):
        o.update(**{name + '_id': far})
        want = (cls.__name__ + '.id', far)
    elif case == 'likes':
        o.update(like_ids=list(fars))
        want = ('LdTag.ids', list(fars))
    elif case == 'profile':
        want = ('LdProfile.one', {'user_id': key})
    elif case == 'posts':
        want = ('LdPost.find', {'author_id': [key]})
    elif case == 'groups':
        want = ('LdGroup.find', {'user_ids': [key]})
    elif case == 'tagged':
        want = ('LdUser.find', {'like_ids': [key]})
    else:
        want = ('LdUser.find', {'group_ids': [key]})
    o._is_modified = False
    o._modified_fields = set()
    if case in ('best', 'likes', 'profile', 'posts', 'groups'):
        if modified == 'name':
            o.name = 'b'
        elif modified == 'tags.a':
            o.tags['a'].append('c')
    marks = (o.is_modified, o.modified_fields)
    result = persisted(cls(pk=far)) if single else [persisted(cls(pk=f)) for f in fars]
    store(E, log, result)
    out = E.call(o.include, name)
    E.check('returns the object', out.kind == 'ret' and out.v is o, detail=repr(out))
    E.same('asked once, for the related objects', log, [want])
    got = getattr(o, name)
    if single:
        E.check('set', got is result)
    else:
        E.check('as many', len(got) == len(result))
        for i in range(len(result)):
            E.check('set, in order', got[i] is result[i])
    E.same('nothing is marked', (o.is_modified, o.modified_fields), marks)
    E.cover(name)


@contract('C17', 'names', covers=('near', 'nears', 'own', 'owns', 'thru', 'near_of', 'nears_of', 'froms'))
def _(E):
    """The name of a key is the one the class that keeps it gives it."""
    key = E.str('key')
    far = E.str('far')
    E.assume(key != far)
    log = []
    name = E.choice('name', ['near', 'nears', 'own', 'owns', 'thru', 'near_of', 'nears_of', 'froms'])
    here, there = (LdFrom, LdTo) if name in ('near', 'nears', 'own', 'owns', 'thru') else (LdTo, LdFrom)
    o = persisted(here(pk=key))
    single = name in ('near', 'own', 'near_of')
    some = E.choice('some', [True, False])
    x = persisted(there(pk=far))
    result = (x if some else None) if single else ([x] if some else [])
    want = {'near': ('LdTo.id', far), 'nears': ('LdTo.ids', [far]), 'own': ('LdTo.one', {'owner_there': key}),
            'owns': ('LdTo.find', {'owner_of_there': [key]}), 'thru': ('LdTo.find', {'froms_there': [key]}),
            'near_of': ('LdFrom.one', {'key_of_near': key}), 'nears_of': ('LdFrom.find', {'key_of_nears': [key]}),
            'froms': ('LdFrom.find', {'key_of_thru': [key]})}[name]
    if name == 'near':
        o.key_of_near = far
    elif name == 'nears':
        o.key_of_nears = [far]
    o._is_modified = False
    o._modified_fields = set()
    store(E, log, result)
    out = E.call(o.include, name)
    E.check('returns the object', out.kind == 'ret' and out.v is o, detail=repr(out))
    E.same('asked once, by the right name', log, [want])
    got = getattr(o, name)
    if single:
        E.check('set', got is result)
    else:
        E.check('set', len(got) == len(result) and (not some or got[0] is x))
    E.same('nothing is marked', (o.is_modified, len(o.modified_fields)), (False, 0))
    E.cover(name)


@contract('C17', 'unknown')
def _(E):
    """A field that is not there is reported, and nothing is asked."""
    o = persisted(LdUser(pk='a'))
    log = []
    store(E, log, None)
    out = E.call(o.include, E.choice('n', ['nope', 'best_id', '']))
    E.check('reported', out.kind == 'exc' and isinstance(out.v, ValueError))
    E.same('nothing asked', log, [])


@contract('C17', 'restore')
def _(E):
    """restore and delete reach the store once and answer with the object;
    complete does so for partial objects only."""
    o = persisted(LdUser(pk='a', name=E.str('n')))
    log = []
    partial = E.choice('partial', [True, False])
    o._is_partial = partial
    E.swap(LdUser, _orm_restore=lambda self: log.append(('restore', self)),
           _orm_complete=lambda self: log.append(('complete', self)),
           _orm_delete=lambda self, no_raise=False: log.append(('delete', self)))
    what = E.choice('what', ['restore', 'complete', 'delete'])
    out = E.call(getattr(o, what))
    E.check('answers with the object', out.kind == 'ret' and (out.v is o or what == 'delete' and out.v is None))
    E.check('asked', len(log) == (0 if what == 'complete' and not partial else 1))
    for w, x in log:
        E.check('that, of this object', w == what and x is o)

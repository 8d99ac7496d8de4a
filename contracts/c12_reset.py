"""C12: previous values are the persisted ones, and reset brings them back."""
from __future__ import annotations
from typing import Any
from contracts.base import *
from contracts.c11_tracking import SC, LOPS, DOPS, snap, rnd_val, rnd_op, containers, marks
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types
from jsonclasses.excs import JSONClassResetError, JSONClassResetNotEnabledError
from jsonclasses.modifiers.compare_modifier import CompareModifier


@jsonclass(class_graph='c12', reset_all_fields=True)
class RsA:
    a: Any
    b: Any
    tmp: str | None = types.str.temp
    calc: str | None = types.str.getter(lambda o: o.b).setter(lambda v, o: setattr(o, 'b', v))
    lst: list[Any] = types.listof(types.any)
    mp: dict[str, Any] = types.dictof(types.any)


@jsonclass(class_graph='c12')
class RsF:
    """Without reset_all_fields: only marked fields keep their values."""
    a: Any = types.any.compare(lambda o, n: True)
    b: Any
    lst: list[Any] = types.listof(types.any).compare(lambda o, n: True)
    lst2: list[Any] = types.listof(types.any)
    mp: dict[str, Any] = types.dictof(types.any).compare(lambda o, n: True)
    mp2: dict[str, Any] = types.dictof(types.any)


@jsonclass(class_graph='c12', reset_all_fields=True)
class RsOne:
    id: str = types.str.primary.required
    name: Any
    other: RsTwo | None = types.objof('RsTwo').linkto


@jsonclass(class_graph='c12', reset_all_fields=True)
class RsTwo:
    id: str = types.str.primary.required
    one: RsOne | None = types.objof('RsOne').linkedby('other')


for _c in (RsA, RsF, RsOne, RsTwo):
    _c.cdef.available_names, _c.cdef.calc_field_names


def persisted(cls, **kw):
    o = cls()
    o.update(**kw)
    o._mark_not_new()
    return o


@contract('C12', 'previous.id')
def _(E):
    """The previous id is the persisted one, whatever it is now."""
    x, y, z = E.str('x'), E.str('y'), E.str('z')
    o = persisted(RsOne, id=x, name='n')
    E.same('unchanged', o._previous_id, x)
    if E.choice('name', [True, False]):
        o.name = 'm'
        E.same('unchanged', o._previous_id, x)
    o.id = y
    E.same('after one change', o._previous_id, x)
    o.id = z
    E.same('after two', o._previous_id, x)
    o._mark_unmodified()
    E.same('saved', o._previous_id, z)
    n = RsOne(id=x)
    n.id = y
    E.same('of a new object', n._previous_id, y)
    E.check('without a primary field', persisted(RsA, a=1)._previous_id is None)


@contract('C12', 'previous')
def _(E):
    """The first change keeps the value before it; later ones do not."""
    x, y, z = E.any('x', SC), E.any('y', SC), E.any('z', SC)
    f = E.choice('field', ['a', 'tmp', 'calc'])
    t = 'b' if f == 'calc' else f
    o = persisted(RsA, **{'a': 1, 'b': 2, 'tmp': 't', t: x})
    setattr(o, f, y)
    setattr(o, f, z)
    if y == x and z == y:
        E.same('no previous value', [k for k in o.previous_values], [])
    else:
        E.same('the field', [k for k in o.previous_values], [t])
        E.check('the persisted value', o.previous_values[t] == x)
    o.reset()
    E.check('reset brings it back', getattr(o, t) == x)
    for n, v in (('a', 1), ('b', 2), ('tmp', 't')):
        if n != t:
            E.same('the other fields', getattr(o, n), v)
    marks(E, o, [])
    E.check('no previous values', len(o.previous_values) == 0)


@contract('C12', 'previous.new')
def _(E):
    """New objects keep no previous values."""
    o = RsA()
    o.update(a=E.any('x', SC), lst=[1], mp={'k': 1})
    o.a = E.any('y', SC)
    o.lst.append(1)
    o.mp['k'] = 2
    o.lst = [3]
    o.mp = {}
    E.check('no previous values', len(o.previous_values) == 0)


@contract('C12', 'previous.collections')
def _(E):
    """A collection, at any nesting, is kept whole as it was before the
    first change; it is a copy, with no owner."""
    x = E.any('x', SC)
    where = E.choice('where', ['lst', 'lst.0', 'lst.1.w', 'mp', 'mp.q'])
    o = persisted(RsA, lst=[7, 8] if where == 'lst' else [[7, 8], {'w': [7, 8]}],
                  mp={'j': 0, 'k': 1} if where == 'mp' else {'q': [7, 8]})
    before = {'lst': snap(o.lst), 'mp': snap(o.mp)}
    f = 'mp' if where.startswith('mp') else 'lst'
    if where == 'mp':
        op = E.choice('op', sorted(DOPS) + ['assign', 'null'])
        c = o.mp
    else:
        op = E.choice('op', sorted(LOPS) + ['assign', 'null'])
        c = (o.lst if where == 'lst' else o.lst[0] if where == 'lst.0' else
             o.lst[1]['w'] if where == 'lst.1.w' else o.mp['q'])
    if op == 'assign':
        setattr(o, f, [x] if f == 'lst' else {'n': x})
    elif op == 'null':
        setattr(o, f, None)
    else:
        (DOPS if where == 'mp' else LOPS)[op](c, x)
    if getattr(o, f) is not None:
        # a second change
        if f == 'lst':
            o.lst.append(x)
        else:
            o.mp['z'] = x
    E.same('the field', [k for k in o.previous_values], [f])
    E.check('the persisted value', plain(o.previous_values[f]) and o.previous_values[f] == before[f])
    o.reset()
    E.check('reset brings it back', o.lst == before['lst'] and o.mp == before['mp'])
    E.check('it is tracked again', o.lst.owner is o and o.mp.owner is o)
    marks(E, o, [])
    E.check('no previous values', len(o.previous_values) == 0)
    o.lst.append(5)
    marks(E, o, ['lst'])
    E.same('a reset object can be reset again', [k for k in o.previous_values], ['lst'])
    o.reset()
    E.check('reset brings it back', o.lst == before['lst'] and o.mp == before['mp'])


def plain(v):
    """A collection with no owner at any level."""
    if isinstance(v, list):
        return not hasattr(v, 'owner') and all([plain(i) for i in v])
    if isinstance(v, dict):
        return not hasattr(v, 'owner') and all([plain(v[i]) for i in v])
    return True


@contract('C12', 'marked')
def _(E):
    """Without reset_all_fields the marked fields keep their values."""
    x, y = E.any('x', SC), E.any('y', SC)
    o = persisted(RsF, a=x, b=x, lst=[x], lst2=[x], mp={'k': x}, mp2={'k': x})
    o.b = y
    o.lst2.append(y)
    o.mp2['z'] = y
    E.check('an unmarked field keeps none', len(o.previous_values) == 0)
    how = E.choice('how', ['assign', 'in place'])
    o.a = y
    if how == 'assign':
        o.lst = [y, 1]
        o.mp = {'z': y}
    else:
        o.lst.append(y)
        o.mp['z'] = y
    E.same('the marked ones do', sorted([k for k in o.previous_values]),
           (['lst', 'mp'] if y == x else ['a', 'lst', 'mp']))
    E.check('values', (y == x or o.previous_values['a'] == x) and o.previous_values['lst'] == [x]
            and o.previous_values['mp'] == {'k': x})


@contract('C12', 'refused')
def _(E):
    """A refused reset changes nothing."""
    x, y = E.any('x', SC), E.any('y', SC)
    cls = E.choice('class', [RsA, RsF])
    o = cls()
    o.update(a=x, b=1)
    new = E.choice('new', [True, False])
    if not new:
        E.assume(cls is RsF)
        o._mark_not_new()
    o.a = y
    fields, prev = sorted(o.modified_fields), [(k, o.previous_values[k]) for k in o.previous_values]
    out = E.call(o.reset)
    E.check('refused', out.kind == 'exc' and isinstance(
        out.v, JSONClassResetError if cls is RsA else JSONClassResetNotEnabledError))
    E.check('the value stays', o.a == y)
    E.same('the marks stay', sorted(o.modified_fields), fields)
    E.iff('is_modified', o.is_modified, len(fields) > 0)
    E.same('the previous values stay', [(k, o.previous_values[k]) for k in o.previous_values], prev)
    E.iff('is_new', o.is_new, new)


@contract('C12', 'reference')
def _(E):
    """An object reference is brought back, with its key."""
    a, b, c = RsTwo(id='a'), RsTwo(id='b'), RsOne(id='1')
    start = E.choice('start', [None, a])
    c.other = start
    for v in (a, b, c):
        v._mark_not_new()
    c.other = E.choice('first', [None, b])
    c.other = E.choice('second', [None, a, b])
    E.check('previous', ('other' not in c.previous_values) or c.previous_values['other'] is start)
    c.reset()
    E.check('the object', c.other is start)
    E.same('the key', c.other_id, None if start is None else 'a')
    E.check('the way back', b.one is None and a.one is (None if start is None else c))
    marks(E, c, [])


@contract('C12', 'complete')
def _(E):
    """complete() fetches a partial object's missing fields and changes no
    mark; after it the object is still tracked."""
    x, y = E.any('x', SC), E.any('y', SC)
    o = persisted(RsA, a=x, b=1)
    part = E.choice('partial', [True, False])
    o._is_partial = part
    called = []

    def orm(self):
        called.append(1)
        self.b = 'fetched'
        self.tmp = 'fetched'
        self._modified_fields.add('b')
    E.swap(RsA, _orm_complete=orm)
    mod = E.choice('modified', [True, False])
    if mod:
        o.a = 'changed'
        E.assume(not (x == 'changed'))
    r = o.complete()
    E.check('itself', r is o)
    E.same('fetched', len(called), 1 if part else 0)
    marks(E, o, ['a'] if mod else [])
    o.lst = [y]
    marks(E, o, ['a', 'lst'] if mod else ['lst'])
    E.same('fields', o.b, 'fetched' if part else 1)


@contract('C12', 'compare', covers=('compared', 'unchanged'))
def _(E):
    """A compare rule is given the persisted and the current value, and is
    not asked about an unchanged field."""
    x, y, z = E.any('x', SC), E.any('y', SC), E.any('z', SC)
    ans = E.any('answer', ('none', 'bool', 'str'))
    seen = []
    three = E.choice('three', [True, False])
    if three:
        def f(o, n, c):
            seen.append((o, n))
            E.check('the context', c is ctx)
            return ans
    else:
        def f(o, n):
            seen.append((o, n))
            return ans
    o = persisted(RsA, a=x, b=1)
    o.a = y
    o.a = z
    m = CompareModifier(f)
    ctx = mkctx(E, o.a, root=o, owner=o, parent=o, keypath=('a',))
    out = E.call(m.validate, ctx)
    rej = rejects(E, out)
    if y == x and z == y:
        E.check('not asked', len(seen) == 0 and not rej)
        E.cover('unchanged')
    else:
        E.check('asked once, with both values', len(seen) == 1 and seen[0][0] == x and seen[0][1] == z)
        E.iff('the verdict', rej, ans is not True and ans is not None)
        if rej:
            E.same('the message', out.v.keypath_messages['a'],
                   'compare failed' if ans is False else ans)
        E.cover('compared')


FL = ['a', 'b', 'tmp', 'lst', 'mp']


@contract('C12', 'histories', native=True, n=1200)
def _(E):
    """Random histories: reset always brings the persisted values back."""
    cls = RsA
    o = cls()
    o.update(a=rnd_val(E, 'a'), lst=[rnd_val(E, f'l{i}') for i in range(E.int('nl', 0, 3))],
             mp={c: rnd_val(E, 'm' + c) for c in 'ab'[:E.int('nm', 0, 2)]}, b=1, tmp='t')
    o._mark_not_new()
    start = {f: snap(getattr(o, f)) for f in FL}
    for rnd in range(2):
        for i in range(E.int(f'n{rnd}', 0, 6)):
            n = f'{rnd}.{i}'
            f = E.choice(f'f{n}', FL)
            cs = containers(getattr(o, f), [])
            if cs and E.bool(f'in{n}'):
                rnd_op(E, f'op{n}', cs[E.int(f'c{n}', 0, len(cs) - 1)])
            else:
                setattr(o, f, {'lst': lambda: [rnd_val(E, f'v{n}')], 'mp': lambda: {'z': rnd_val(E, f'v{n}')}}.get(
                    f, lambda: rnd_val(E, f'v{n}'))())
            for k in o.previous_values:
                E.check('previous value', o.previous_values[k] == start[k] and plain(o.previous_values[k]),
                        detail=f'{k}: {o.previous_values[k]!r} for {start[k]!r}')
        if E.choice(f'end{rnd}', ['reset', 'reset', 'persist']) == 'reset':
            o.reset()
            for g in FL:
                E.check('reset', snap(getattr(o, g)) == start[g], detail=f'{g} {getattr(o, g)!r} for {start[g]!r}')
                for c in containers(getattr(o, g), []):
                    E.check('owned', getattr(c, 'owner', None) is o)
        else:
            o._mark_unmodified()
            start = {f: snap(getattr(o, f)) for f in FL}
        E.check('unmodified', not o.is_modified and not o.modified_fields and not o.previous_values)

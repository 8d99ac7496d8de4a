"""C11: every change of a persisted object is recorded, at its field."""
from __future__ import annotations
from typing import Any
from contracts.base import *
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types
from jsonclasses.keypath import initial_keypath, concat_keypath


@jsonclass(class_graph='c11')
class TrA:
    a: Any
    b: Any
    tmp: str | None = types.str.temp
    calc: str | None = types.str.getter(lambda o: o.b).setter(lambda v, o: setattr(o, 'b', v))
    lst: list[Any] = types.listof(types.any)
    mp: dict[str, Any] = types.dictof(types.any)


@jsonclass(class_graph='c11', reset_all_fields=True)
class TrR:
    a: Any
    b: Any
    tmp: str | None = types.str.temp
    calc: str | None = types.str.getter(lambda o: o.b).setter(lambda v, o: setattr(o, 'b', v))
    lst: list[Any] = types.listof(types.any)
    mp: dict[str, Any] = types.dictof(types.any)


for _c in (TrA, TrR):
    _c.cdef.available_names, _c.cdef.calc_field_names

SC = ('none', 'bool', 'int', 'str')


def fresh(E, cls=None, **kw):
    o = (cls or E.choice('class', [TrA, TrR]))()
    o.update(**kw)
    return o


def marks(E, o, fields):
    """Exactly these key paths are recorded."""
    E.same('the recorded changes', sorted(o.modified_fields), sorted(fields))
    E.iff('is_modified', o.is_modified, len(fields) > 0)


@contract('C11', 'new')
def _(E):
    """A new object records nothing."""
    o = fresh(E, a=E.any('x', SC), lst=[1], mp={'k': 1})
    o.a = E.any('y', SC)
    o.lst.append(E.any('z', SC))
    o.mp['k'] = 2
    o.tmp = 'q'
    marks(E, o, [])
    E.check('no previous values', len(o.previous_values) == 0)
    o._mark_not_new()
    marks(E, o, [])


@contract('C11', 'assign', covers=('changed', 'equal'))
def _(E):
    """Assigning a different value is a change of that field alone;
    assigning an equal one is none."""
    x, y, z = E.any('x', SC), E.any('y', SC), E.any('z', SC)
    f = E.choice('field', ['a', 'tmp', 'calc'])
    o = fresh(E, a=0, b=x, tmp=x) if f != 'a' else fresh(E, a=x, b=1, tmp='t')
    if f == 'a':
        o.update(a=x)
    o._mark_not_new()
    t = 'b' if f == 'calc' else f
    setattr(o, f, y)
    changed = not (y == x)
    E.check('the value', getattr(o, t) == y)
    marks(E, o, [t] if changed else [])
    setattr(o, f, z)
    changed = changed or not (z == y)
    E.check('the value', getattr(o, t) == z)
    marks(E, o, [t] if changed else [])
    E.same('persisted changes', sorted(o.persisted_modified_fields), [t] if changed and t != 'tmp' else [])
    E.cover('changed' if changed else 'equal')


@contract('C11', 'assign.collections')
def _(E):
    o = fresh(E, a=None, lst=[1], mp={'k': 1})
    o._mark_not_new()
    x = E.any('x', SC)
    what = E.choice('what', ['list', 'dict', 'same list', 'same dict', 'null', 'any list', 'any dict'])
    if what == 'list':
        o.lst = [x, 2]
        marks(E, o, ['lst'])
        o.lst.append(x)
        marks(E, o, ['lst'])
        E.same('the value', [v for v in o.lst], [x, 2, x])
    elif what == 'dict':
        o.mp = {'j': x}
        marks(E, o, ['mp'])
        E.same('the value', o.mp['j'], x)
    elif what == 'same list':
        o.lst = [1]
        marks(E, o, [])
    elif what == 'same dict':
        o.mp = {'k': 1}
        marks(E, o, [])
    elif what == 'null':
        o.lst = None
        marks(E, o, ['lst'])
    elif what == 'any list':
        o.a = [x]
        marks(E, o, ['a'])
        o.a.append(x)
        marks(E, o, ['a'])
    else:
        o.a = {'q': x}
        marks(E, o, ['a'])
        o.a['r'] = x
        marks(E, o, ['a'])


LOPS = {
    'append': lambda l, x: l.append(x),
    'extend': lambda l, x: l.extend([x, 5]),
    'insert': lambda l, x: l.insert(0, x),
    'setitem': lambda l, x: l.__setitem__(0, x),
    'delitem': lambda l, x: l.__delitem__(0),
    'pop': lambda l, x: l.pop(),
    'clear': lambda l, x: l.clear(),
    'reverse': lambda l, x: l.reverse(),
    'remove': lambda l, x: l.remove(7),
    'iadd': lambda l, x: l.__iadd__([x]),
    'sort': lambda l, x: l.sort(key=lambda v: -v),
}
DOPS = {
    'setitem': lambda d, x: d.__setitem__('k', x),
    'setnew': lambda d, x: d.__setitem__('n', x),
    'delitem': lambda d, x: d.__delitem__('k'),
    'pop': lambda d, x: d.pop('k'),
    'clear': lambda d, x: d.clear(),
    'update': lambda d, x: d.update({'n': x}),
    'setdefault': lambda d, x: d.setdefault('n', x),
    'popitem': lambda d, x: d.popitem(),
}


@contract('C11', 'list.inplace')
def _(E):
    """Every way of changing a list in place, at every nesting."""
    x = E.any('x', SC)
    place, path = E.choice('place', [('lst', 'lst'), ('lst0', 'lst.0'), ('mpk', 'mp.q'), ('deep', 'lst.1.w')])
    o = fresh(E, lst=[7, 8] if place == 'lst' else [[7, 8], {'w': [7, 8]}], mp={'q': [7, 8]})
    new = E.choice('new', [False, True])
    if not new:
        o._mark_not_new()
    lst = (o.lst if place == 'lst' else o.lst[0] if place == 'lst0' else
           o.mp['q'] if place == 'mpk' else o.lst[1]['w'])
    op = E.choice('op', sorted(LOPS))
    LOPS[op](lst, x)
    marks(E, o, [] if new else [path])
    E.check('no previous values of new objects', not new or len(o.previous_values) == 0)
    want = [7, 8]
    LOPS[op](want, x)
    E.same('the list', [v for v in lst], [v for v in want])


@contract('C11', 'dict.inplace')
def _(E):
    x = E.any('x', SC)
    place, path = E.choice('place', [('mp', 'mp'), ('lst0', 'lst.0'), ('mpk', 'mp.q')])
    o = fresh(E, lst=[{'j': 0, 'k': 1}], mp={'j': 0, 'k': 1} if place == 'mp' else {'q': {'j': 0, 'k': 1}})
    new = E.choice('new', [False, True])
    if not new:
        o._mark_not_new()
    d = o.mp if place == 'mp' else o.lst[0] if place == 'lst0' else o.mp['q']
    op = E.choice('op', sorted(DOPS))
    DOPS[op](d, x)
    marks(E, o, [] if new else [path])
    E.check('no previous values of new objects', not new or len(o.previous_values) == 0)
    want = {'j': 0, 'k': 1}
    DOPS[op](want, x)
    E.same('the dict', [(k, d[k]) for k in d], [(k, want[k]) for k in want])


@jsonclass(class_graph='c11')
class LkA:
    pk: str = types.str.primary.required
    one: LkB | None = types.objof('LkB').linkto
    ones: list[LkC] = types.listof('LkC').linkto
    many: list[LkD] = types.listof('LkD').linkedby('a')
    thru: list[LkE] = types.listof('LkE').linkedthru('as_')
    lone: LkF | None = types.objof('LkF').linkto


@jsonclass(class_graph='c11')
class LkB:
    pk: str = types.str.primary.required
    a: LkA | None = types.objof('LkA').linkedby('one')


@jsonclass(class_graph='c11')
class LkC:
    pk: str = types.str.primary.required
    a: list[LkA] = types.listof('LkA').linkedby('ones')


@jsonclass(class_graph='c11')
class LkD:
    pk: str = types.str.primary.required
    a: LkA | None = types.objof('LkA').linkto


@jsonclass(class_graph='c11')
class LkE:
    pk: str = types.str.primary.required
    as_: list[LkA] = types.listof('LkA').linkedthru('thru')


@jsonclass(class_graph='c11')
class LkF:
    pk: str = types.str.primary.required


for _c in (LkA, LkB, LkC, LkD, LkE, LkF):
    _c.cdef.available_names
    for _f in _c.cdef.fields:
        _f.fdef.is_ref, _f.foreign_field, _f.fdef.item_types

OTHER = {'one': LkB, 'ones': LkC, 'many': LkD, 'thru': LkE, 'lone': LkF}
BACK = {'one': 'a', 'ones': 'a', 'many': 'a', 'thru': 'as_', 'lone': None}


def aset(o, f, v):
    setattr(o, f, v)


OBJOPS = {'assign': lambda a, f, x, y: aset(a, f, y), 'unassign': lambda a, f, x, y: aset(a, f, None),
          'key': lambda a, f, x, y: aset(a, f + '_id', 'other'),
          'nokey': lambda a, f, x, y: aset(a, f + '_id', None)}
LISTOPS = {'assign': lambda a, f, x, y: aset(a, f, [y]), 'empty': lambda a, f, x, y: aset(a, f, []),
           'append': lambda a, f, x, y: getattr(a, f).append(y),
           'remove': lambda a, f, x, y: getattr(a, f).remove(x),
           'del': lambda a, f, x, y: getattr(a, f).__delitem__(0),
           'pop': lambda a, f, x, y: getattr(a, f).pop(),
           'clear': lambda a, f, x, y: getattr(a, f).clear(),
           'set': lambda a, f, x, y: getattr(a, f).__setitem__(0, y),
           'reverse': lambda a, f, x, y: getattr(a, f).reverse()}
KEYOPS = {'keys': lambda a, f, x, y: aset(a, 'one_ids', ['other']),
          'nokeys': lambda a, f, x, y: aset(a, 'one_ids', []),
          'key append': lambda a, f, x, y: a.one_ids.append('other'),
          'key remove': lambda a, f, x, y: a.one_ids.remove('x'),
          'key set': lambda a, f, x, y: a.one_ids.__setitem__(0, 'other'),
          'key clear': lambda a, f, x, y: a.one_ids.clear(),
          'key reverse': lambda a, f, x, y: a.one_ids.reverse()}


def ops_of(f):
    return OBJOPS if f in ('one', 'lone') else {**LISTOPS, **KEYOPS} if f == 'ones' else LISTOPS


@contract('C11', 'links')
def _(E):
    """Every change of a relationship, by objects or by keys, is recorded on
    the object changed and on those whose keys change; new objects record
    nothing and no other field is recorded."""
    f = E.choice('field', sorted(OTHER))
    ops = ops_of(f)
    op = E.choice('op', sorted(ops))
    a = LkA(pk='a')
    x, y = OTHER[f](pk='x'), OTHER[f](pk='y')
    if f in ('one', 'lone'):
        setattr(a, f, x)
    else:
        setattr(a, f, [x])
    for n, o in (('a', a), ('x', x), ('y', y)):
        E.same('new objects record nothing', (o.is_modified, len(o.modified_fields)), (False, 0))
        if not E.choice('new ' + n, [True, False]):
            o._mark_not_new()
    keys = {n: getattr(o, 'a_id', None) for n, o in (('x', x), ('y', y))}
    out = E.call(ops[op], a, f, x, y)
    E.check('no error', out.kind == 'ret', detail=repr(out))
    marks(E, a, [] if a.is_new else [f])
    for n, o in (('x', x), ('y', y)):
        if o.is_new:
            marks(E, o, [])
        else:
            E.check('nothing else is recorded', all(m == BACK[f] for m in o.modified_fields))
            E.iff('is_modified', o.is_modified, len(o.modified_fields) > 0)
            if f == 'many' and getattr(o, 'a_id', None) != keys[n]:
                marks(E, o, ['a'])
    if op not in ('assign', 'append', 'set'):
        marks(E, y, [])


@contract('C11', 'added.collections')
def _(E):
    """A collection put into a tracked collection is tracked too."""
    x = E.any('x', SC)
    o = fresh(E, lst=[7, 8], mp={'k': 1})
    o._mark_not_new()
    how = E.choice('how', ['append', 'insert', 'setitem', 'dict', 'dict update'])
    if how == 'append':
        o.lst.append([x])
        o.lst[2].append(1)
        marks(E, o, ['lst', 'lst.2'])
    elif how == 'insert':
        o.lst.insert(0, {'a': x})
        o.lst[0]['b'] = x
        marks(E, o, ['lst', 'lst.0'])
    elif how == 'setitem':
        o.lst[1] = [x]
        o.lst[1].append(x)
        marks(E, o, ['lst', 'lst.1'])
    elif how == 'dict':
        o.mp['n'] = [x]
        o.mp['n'].append(x)
        marks(E, o, ['mp', 'mp.n'])
    else:
        o.mp.update({'n': {'q': x}})
        o.mp['n']['q'] = 5
        marks(E, o, ['mp', 'mp.n'])


@contract('C11', 'reads')
def _(E):
    """Reading is no change."""
    o = fresh(E, a=1, b='x', lst=[E.any('x', SC), 1], mp={'k': E.any('y', SC)})
    o._mark_not_new()
    for v in o.lst:
        pass
    o.lst.index(1)
    o.lst.copy()
    o.mp.get('nope')
    o.mp.items()
    len(o.lst), 1 in o.lst, o.calc, o.tmp, o.tojson()
    o.lst.extend([])
    marks(E, o, [])


@contract('C11', 'marks')
def _(E):
    """The status marks."""
    o = fresh(E, a=E.any('x', SC))
    E.check('new, whole and there', o.is_new and not o.is_deleted and not o.is_partial and not o.is_modified)
    o._mark_not_new()
    E.check('not new', not o.is_new)
    o.a = 'something else'
    o._mark_unmodified()
    marks(E, o, [])
    E.check('not new', not o.is_new and len(o.previous_values) == 0)
    o.a = 'third'
    marks(E, o, ['a'])
    o._mark_new()
    marks(E, o, [])
    E.check('new', o.is_new)


def snap(v):
    if isinstance(v, list):
        return [snap(x) for x in v]
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    return v


def rnd_val(E, n, d=0):
    k = E.choice(n + 'k', ['s', 's', 'l', 'd'] if d < 2 else ['s'])
    if k == 's':
        return E.choice(n + 'v', [None, 0, 1, True, 'x', 'y', ''])
    if k == 'l':
        return [rnd_val(E, f'{n}{i}', d + 1) for i in range(E.int(n + 'n', 0, 3))]
    return {c: rnd_val(E, n + c, d + 1) for c in 'ab'[:E.int(n + 'm', 0, 2)]}


def containers(v, out):
    if isinstance(v, (list, dict)):
        out.append(v)
        for x in (v if isinstance(v, list) else v.values()):
            containers(x, out)
    return out


def rnd_op(E, n, c):
    """A random in-place operation."""
    x = rnd_val(E, n + 'x', 1)
    try:
        if isinstance(c, list):
            op = E.choice(n + 'o', ['append', 'insert', 'extend', 'set', 'del', 'pop', 'clear', 'reverse',
                                    'sort', 'slice', 'imul', 'remove'])
            i = E.int(n + 'i', -3, 3)
            if op == 'append':
                c.append(x)
            elif op == 'insert':
                c.insert(i, x)
            elif op == 'extend':
                c.extend([x, 1])
            elif op == 'set':
                c[i] = x
            elif op == 'del':
                del c[i]
            elif op == 'pop':
                c.pop(i)
            elif op == 'clear':
                c.clear()
            elif op == 'reverse':
                c.reverse()
            elif op == 'sort':
                c.sort(key=repr)
            elif op == 'slice':
                c[0:i] = [x]
            elif op == 'imul':
                c += [x]
            else:
                c.remove(x)
        else:
            op = E.choice(n + 'o', ['set', 'del', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'ior'])
            k = E.choice(n + 'key', ['a', 'b', 'c'])
            if op == 'set':
                c[k] = x
            elif op == 'del':
                del c[k]
            elif op == 'pop':
                c.pop(k, None)
            elif op == 'popitem':
                c.popitem()
            elif op == 'clear':
                c.clear()
            elif op == 'update':
                c.update({k: x})
            elif op == 'setdefault':
                c.setdefault(k, x)
            else:
                c |= {k: x}
        return True
    except (IndexError, KeyError, ValueError, TypeError):
        return False


FL = ['a', 'b', 'tmp', 'lst', 'mp']


@contract('C11', 'histories', native=True, n=1200)
def _(E):
    """Random histories: a field whose value differs from the persisted one
    is recorded; a field that was never written is not."""
    o = fresh(E, TrA)
    o.update(a=rnd_val(E, 'a'), lst=[rnd_val(E, f'l{i}') for i in range(E.int('nl', 0, 3))],
             mp={c: rnd_val(E, 'm' + c) for c in 'ab'[:E.int('nm', 0, 2)]}, b=1, tmp='t')
    o._mark_not_new()
    start = {f: snap(getattr(o, f)) for f in FL}
    written = set()
    for i in range(E.int('n', 1, 6)):
        f = E.choice(f'f{i}', FL)
        cs = containers(getattr(o, f), [])
        if cs and E.bool(f'in{i}'):
            rnd_op(E, f'op{i}', cs[E.int(f'c{i}', 0, len(cs) - 1)])
        else:
            v = {'lst': lambda: [rnd_val(E, f'v{i}')], 'mp': lambda: {'z': rnd_val(E, f'v{i}')}}.get(
                f, lambda: rnd_val(E, f'v{i}'))()
            setattr(o, f, v)
        written.add(f)
        rec = {initial_keypath(x) for x in o.modified_fields}
        for g in FL:
            now = snap(getattr(o, g))
            if repr(now) != repr(start[g]) and now != start[g]:
                E.check('a changed field is recorded', g in rec, detail=f'{g} {start[g]!r} -> {now!r}, {rec}')
            if g not in written:
                E.check('an untouched field is not', g not in rec, detail=g)
        E.iff('is_modified', o.is_modified, len(rec) > 0)
        E.same('persisted changes', sorted({initial_keypath(x) for x in o.persisted_modified_fields}),
               sorted(rec - {'tmp'}))
        owned_all(E, o)


def owned_all(E, o):
    """Every collection in the object's fields reports to the object."""
    for g in FL:
        for c in containers(getattr(o, g), []):
            E.check('owned', getattr(c, 'owner', None) is o and initial_keypath(c.keypath) == g,
                    detail=f'{g} {c!r}')

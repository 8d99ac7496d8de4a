"""C13: both sides of a relationship, and the reference keys, always agree."""
from __future__ import annotations
from contracts.base import *
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types


# one to one: RUser holds the key
@jsonclass(class_graph='c13')
class RUser:
    id: str = types.str.primary.required
    addr: RAddr | None = types.objof('RAddr').linkto


@jsonclass(class_graph='c13')
class RAddr:
    id: str = types.str.primary.required
    user: RUser | None = types.objof('RUser').linkedby('addr')


# one to many: RPost holds the key
@jsonclass(class_graph='c13')
class RAuthor:
    id: str = types.str.primary.required
    posts: list[RPost] = types.listof('RPost').linkedby('author')


@jsonclass(class_graph='c13')
class RPost:
    id: str = types.str.primary.required
    author: RAuthor | None = types.objof('RAuthor').linkto


# many to many: RSong holds the keys
@jsonclass(class_graph='c13')
class RSong:
    id: str = types.str.primary.required
    singers: list[RSinger] = types.listof('RSinger').linkto


@jsonclass(class_graph='c13')
class RSinger:
    id: str = types.str.primary.required
    songs: list[RSong] = types.listof('RSong').linkedby('singers')


# many to many, through a join table
@jsonclass(class_graph='c13')
class RClub:
    id: str = types.str.primary.required
    members: list[RMember] = types.listof('RMember').linkedthru('clubs')


@jsonclass(class_graph='c13')
class RMember:
    id: str = types.str.primary.required
    clubs: list[RClub] = types.listof('RClub').linkedthru('members')


# (class, field, is a list, reference key attribute or None) of both sides
RELS = {
    '1:1': ((RUser, 'addr', False, 'addr_id'), (RAddr, 'user', False, None)),
    '1:n': ((RAuthor, 'posts', True, None), (RPost, 'author', False, 'author_id')),
    'n:n': ((RSong, 'singers', True, 'singer_ids'), (RSinger, 'songs', True, None)),
    'join': ((RClub, 'members', True, None), (RMember, 'clubs', True, None)),
}
for _r in RELS.values():
    for _s in _r:
        _s[0].cdef.available_names, _s[0].cdef.calc_field_names


def refs(side, o):
    """The objects o refers to, in order."""
    v = getattr(o, side[1])
    if side[2]:
        return [] if v is None else [x for x in v]
    return [] if v is None else [v]


def holds(lst, o):
    for x in lst:
        if x is o:
            return True
    return False


def count(lst, o):
    n = 0
    for x in lst:
        if x is o:
            n = n + 1
    return n


def agree(E, rel, xs, ys):
    """The invariant."""
    l, r = rel
    for x in xs:
        for y in ys:
            a, b = count(refs(l, x), y), count(refs(r, y), x)
            E.check('both sides agree', a == b and a < 2, detail=f'{x.id} {a} {y.id} {b}')
    for side, objs in ((l, xs), (r, ys)):
        if side[3] is None:
            continue
        for o in objs:
            k = getattr(o, side[3])
            if side[2]:
                E.same('the reference keys', [i for i in k], [v.id for v in refs(side, o)])
            elif getattr(o, side[1]) is not None:
                E.same('the reference key', k, getattr(o, side[1]).id)


def links(rel, xs, ys):
    l, r = rel
    return [(x, y) for x in xs for y in ys if holds(refs(l, x), y)]


def changed(E, rel, xs, ys, before):
    """Whoever holds the key of a changed link is marked modified; dropped
    objects are kept to be saved, linked ones are not."""
    l, r = rel
    after = links(rel, xs, ys)
    for x in xs:
        for y in ys:
            was = any([a is x and b is y for a, b in before])
            now = any([a is x and b is y for a, b in after])
            for side, o, p in ((l, x, y), (r, y, x)):
                dropped = holds(o.unlinked_objects.get(side[1]) or [], p)
                if now:
                    E.check('a linked object is not kept as dropped', not dropped, detail=f'{o.id} {p.id}')
                elif was:
                    E.check('a dropped object is kept', dropped, detail=f'{o.id} {p.id}')
                if was != now and side[3] is not None and not o.is_new:
                    E.check('the holder of the key is modified',
                            o.is_modified and side[1] in o.modified_fields, detail=o.id)


def make(rel, n, m):
    l, r = rel
    return ([l[0](id='x' + str(i)) for i in range(n)], [r[0](id='y' + str(i)) for i in range(m)])


def rnd_step(E, n, rel, xs, ys):
    """One random operation on one side of the relation."""
    left = E.bool(n + 's')
    side, objs, others = (rel[0], xs, ys) if left else (rel[1], ys, xs)
    o = objs[E.int(n + 'o', 0, len(objs) - 1)]
    other = others[E.int(n + 'p', 0, len(others) - 1)]
    if not side[2]:
        op = E.choice(n + 'op', ['set', 'set', 'none'] + (['key none', 'key'] if side[3] else []))
        if op == 'set':
            setattr(o, side[1], other)
        elif op == 'none':
            setattr(o, side[1], None)
        elif op == 'key none':
            setattr(o, side[3], None)
        else:
            setattr(o, side[3], 'elsewhere')
        return f'{o.id}.{side[1]} {op} {other.id}'
    lst = getattr(o, side[1])
    op = E.choice(n + 'op', ['assign', 'append', 'insert', 'extend', 'remove', 'pop', 'del', 'set', 'clear',
                             'reverse', 'sort', 'iadd', 'none', 'slice', 'delslice'] +
                  (['keys', 'kremove', 'kreverse', 'ksort', 'kclear', 'kpop'] if side[3] else []))
    i = E.int(n + 'i', 0, 2)
    some = [p for j, p in enumerate(others) if E.bool(f'{n}in{j}')]
    if E.bool(n + 'rev'):
        some = some[::-1]
    if lst is None and op not in ('assign', 'none'):
        return 'nothing'
    has = holds(lst or [], other)
    keys = getattr(o, side[3]) if side[3] else None
    try:
        if op == 'assign':
            setattr(o, side[1], some)
        elif op == 'append' and not has:
            lst.append(other)
        elif op == 'insert' and not has:
            lst.insert(i, other)
        elif op == 'extend':
            lst.extend([p for p in some if not holds(lst, p)])
        elif op == 'remove' and has:
            lst.remove(other)
        elif op == 'pop':
            lst.pop(i)
        elif op == 'del':
            del lst[i]
        elif op == 'set' and i < len(lst) and (not has or lst[i] is other):
            lst[i] = other
        elif op == 'clear':
            lst.clear()
        elif op == 'reverse':
            lst.reverse()
        elif op == 'sort':
            lst.sort(key=lambda v: v.id)
        elif op == 'iadd':
            lst += [p for p in some if not holds(lst, p)]
        elif op == 'none':
            setattr(o, side[1], None)
        elif op == 'slice':
            lst[0:i] = [p for p in some if not holds(lst[i:], p)]
        elif op == 'delslice':
            del lst[0:i]
        elif op == 'keys':
            setattr(o, side[3], [p.id for p in some if holds(lst, p)])
        elif op == 'kremove':
            keys.remove(other.id)
        elif op == 'kreverse':
            keys.reverse()
        elif op == 'ksort':
            keys.sort()
        elif op == 'kclear':
            keys.clear()
        elif op == 'kpop':
            keys.pop(i)
        return f'{o.id}.{side[1]} {op} {other.id} {i} {[p.id for p in some]}'
    except (IndexError, ValueError):
        return 'refused'


@contract('C13', 'histories', native=True, n=4000)
def _(E):
    name = E.choice('rel', sorted(RELS))
    rel = RELS[name]
    xs, ys = make(rel, E.int('nx', 1, 3), E.int('ny', 1, 3))
    hist = []
    for i in range(E.int('pre', 0, 3)):
        hist.append(rnd_step(E, f'p{i}', rel, xs, ys))
    for o in xs + ys:
        if E.bool('new' + o.id):
            o._mark_unmodified()
    for i in range(E.int('n', 1, 7)):
        before = links(rel, xs, ys)
        for o in xs + ys:
            if not o.is_new:
                o._mark_unmodified()
        hist.append(rnd_step(E, f'{i}', rel, xs, ys))
        n0 = len(E.failures) if hasattr(E, 'failures') else 0
        agree(E, rel, xs, ys)
        changed(E, rel, xs, ys, before)


# ------------------------------------------------- one step from any state
# The invariant is inductive: from every state of two objects on each side
# (every set of links, in every order, with and without dropped objects kept)
# every operation on either side leads to a state in which it holds. Keys are
# arbitrary, pairwise different texts; objects without keys, equal by value,
# are covered by the keyless contracts.

def state(E, name, keyed):
    rel = RELS[name]
    l, r = rel
    if keyed:
        xs = [l[0](id=E.str('x0')), l[0](id=E.str('x1'))]
        ys = [r[0](id=E.str('y0')), r[0](id=E.str('y1'))]
        E.assume(xs[0].id != xs[1].id)
        E.assume(ys[0].id != ys[1].id)
    else:
        xs, ys = [l[0](), l[0]()], [r[0](), r[0]()]
    pairs = [(x, y) for x in (0, 1) for y in (0, 1)]
    sets = []
    for n in range(16):
        s = [p for i, p in enumerate(pairs) if n >> i & 1]
        if not l[2] and len({x for x, y in s}) < len(s):
            continue
        if not r[2] and len({y for x, y in s}) < len(s):
            continue
        sets.append(s)
        if len(s) > 1:
            sets.append(s[::-1])
    s = E.choice('links', sets)
    for i, j in s:
        if l[2]:
            if getattr(xs[i], l[1]) is None:
                setattr(xs[i], l[1], [])
            getattr(xs[i], l[1]).append(ys[j])
        else:
            setattr(xs[i], l[1], ys[j])
    kept = E.choice('kept', [True, False])
    for i in (0, 1):
        for j in (0, 1):
            if kept and (i, j) not in s:
                xs[i]._add_unlinked_object(l[1], ys[j])
                ys[j]._add_unlinked_object(r[1], xs[i])
    for o in xs + ys:
        o._mark_unmodified()
    agree(E, rel, xs, ys)
    before = links(rel, xs, ys)
    E.same('the state', len(before), len(s))
    return rel, xs, ys, before


def done(E, rel, xs, ys, before, want=None):
    agree(E, rel, xs, ys)
    changed(E, rel, xs, ys, before)


def expect(E, rel, xs, ys, before, o, side, now):
    """o refers to exactly these now, in this order; links between other
    objects are as before, save that a one-side reference moved."""
    got = refs(side, o)
    E.check('the references', len(got) == len(now) and all([a is b for a, b in zip(got, now)]))
    l, r = rel
    left = side is l
    oside = r if left else l
    for x, y in before:
        if (x if left else y) is not o:
            p = y if left else x
            moved = not oside[2] and holds(now, p)
            E.iff('other links', holds(refs(l, x), y), not moved)
    for x, y in links(rel, xs, ys):
        if (x if left else y) is not o:
            E.check('no other link appears', any([a is x and b is y for a, b in before]))


def one_ops(E, name, left, keyed=True):
    rel, xs, ys, before = state(E, name, keyed)
    side, o, others = (rel[0], xs[0], ys) if left else (rel[1], ys[0], xs)
    op = E.choice('op', ['set', 'other', 'none'] + (['key none', 'key'] if side[3] and keyed else []))
    if op == 'set':
        setattr(o, side[1], others[0])
        now = [others[0]]
    elif op == 'other':
        setattr(o, side[1], others[1])
        now = [others[1]]
    elif op == 'none':
        setattr(o, side[1], None)
        now = []
    else:
        k = None if op == 'key none' else E.str('key')
        cur = getattr(o, side[1])
        if cur is not None:
            E.assume(k is None or k != cur.id)
        setattr(o, side[3], k)
        now = []
    done(E, rel, xs, ys, before)
    expect(E, rel, xs, ys, before, o, side, now)
    if side[3] and op in ('none', 'key none'):
        E.same('no key', getattr(o, side[3]), None)


LIST_OPS = ['assign', 'assign 0', 'assign 1', 'assign both', 'assign rev', 'none', 'append', 'insert 0',
            'insert 1', 'extend', 'remove', 'pop', 'pop 0', 'del 0', 'set 0', 'clear', 'reverse', 'iadd',
            'slice', 'delslice']
KEY_OPS = ['keys none', 'keys 0', 'keys rev', 'kremove', 'kreverse', 'kclear', 'kpop']


def many_ops(E, name, left, ops, keyed=True):
    op = E.choice('op', ops)
    rel, xs, ys, before = state(E, name, keyed)
    side, o, others = (rel[0], xs[0], ys) if left else (rel[1], ys[0], xs)
    f = side[1]
    lst = getattr(o, f)
    if lst is None:
        setattr(o, f, [])
        lst = getattr(o, f)
        o._mark_unmodified()
    now = [v for v in lst]
    p, q = others
    has = holds(now, p)
    if op == 'assign':
        setattr(o, f, [])
        now = []
    elif op == 'assign 0':
        setattr(o, f, [p])
        now = [p]
    elif op == 'assign 1':
        setattr(o, f, [q])
        now = [q]
    elif op == 'assign both':
        setattr(o, f, [p, q])
        now = [p, q]
    elif op == 'assign rev':
        setattr(o, f, [q, p])
        now = [q, p]
    elif op == 'none':
        setattr(o, f, None)
        now = []
    elif op in ('append', 'insert 0', 'insert 1', 'extend', 'iadd'):
        if has:
            E.assume(False)
        if op == 'append':
            lst.append(p)
            now.append(p)
        elif op == 'extend':
            lst.extend([p])
            now.append(p)
        elif op == 'iadd':
            lst += [p]
            now.append(p)
        else:
            i = 0 if op == 'insert 0' else 1
            lst.insert(i, p)
            now.insert(i, p)
    elif op in ('remove', 'kremove'):
        if not has:
            E.assume(False)
        if op == 'remove':
            lst.remove(p)
        else:
            getattr(o, side[3]).remove(p.id)
        now = [v for v in now if v is not p]
    elif op in ('pop', 'pop 0', 'del 0', 'kpop'):
        if len(now) == 0:
            E.assume(False)
        if op == 'pop':
            lst.pop()
            now.pop()
        elif op == 'kpop':
            getattr(o, side[3]).pop()
            now.pop()
        elif op == 'pop 0':
            lst.pop(0)
            now.pop(0)
        else:
            del lst[0]
            del now[0]
    elif op == 'set 0':
        if len(now) == 0 or (has and now[0] is not p):
            E.assume(False)
        lst[0] = p
        now[0] = p
    elif op == 'clear':
        lst.clear()
        now = []
    elif op == 'kclear':
        getattr(o, side[3]).clear()
        now = []
    elif op == 'reverse':
        lst.reverse()
        now.reverse()
    elif op == 'kreverse':
        getattr(o, side[3]).reverse()
        now.reverse()
    elif op == 'slice':
        if holds(now[1:], p):
            E.assume(False)
        lst[0:1] = [p]
        now[0:1] = [p]
    elif op == 'delslice':
        del lst[0:1]
        del now[0:1]
    elif op == 'keys none':
        setattr(o, side[3], [])
        now = []
    elif op == 'keys 0':
        if not has:
            E.assume(False)
        setattr(o, side[3], [p.id])
        now = [p]
    else:
        setattr(o, side[3], [v.id for v in now[::-1]])
        now = now[::-1]
    done(E, rel, xs, ys, before)
    expect(E, rel, xs, ys, before, o, side, now)


@contract('C13', 'one-one.holder')
def _(E):
    one_ops(E, '1:1', True)


@contract('C13', 'one-one.other')
def _(E):
    one_ops(E, '1:1', False)


@contract('C13', 'one-many.one')
def _(E):
    many_ops(E, '1:n', True, LIST_OPS)


@contract('C13', 'one-many.many')
def _(E):
    one_ops(E, '1:n', False)


@contract('C13', 'many-many.holder')
def _(E):
    many_ops(E, 'n:n', True, LIST_OPS)


@contract('C13', 'many-many.keys')
def _(E):
    many_ops(E, 'n:n', True, KEY_OPS)


@contract('C13', 'many-many.other')
def _(E):
    many_ops(E, 'n:n', False, LIST_OPS)


@contract('C13', 'join')
def _(E):
    many_ops(E, 'join', True, LIST_OPS)


BY_PLACE = [op for op in LIST_OPS if op != 'remove']


@contract('C13', 'keyless.one-one')
def _(E):
    one_ops(E, '1:1', E.choice('left', [True, False]), False)


@contract('C13', 'keyless.one-many.one')
def _(E):
    many_ops(E, '1:n', True, BY_PLACE, False)


@contract('C13', 'keyless.one-many.many')
def _(E):
    one_ops(E, '1:n', False, False)


@contract('C13', 'keyless.join')
def _(E):
    many_ops(E, 'join', True, BY_PLACE, False)


# a relationship with no field on the other side
@jsonclass(class_graph='c13')
class ROne:
    id: str = types.str.primary.required
    near: RFar | None = types.objof('RFar').linkto
    nears: list[RFar] = types.listof('RFar').linkto


@jsonclass(class_graph='c13')
class RFar:
    id: str = types.str.primary.required


for _c in (ROne, RFar):
    _c.cdef.available_names, _c.cdef.calc_field_names


@contract('C13', 'one-sided')
def _(E):
    """Where only one side has a field, its keys follow its objects and back."""
    p, q = RFar(id=E.str('p')), RFar(id=E.str('q'))
    E.assume(p.id != q.id and p.id != 'elsewhere' and q.id != 'elsewhere')
    a = ROne(id='a')
    single = E.choice('single', [True, False])
    was = E.choice('was', [0, 1, 2])
    if single:
        a.near = [None, p, q][was]
        op = E.choice('op', ['none', 'p', 'q', 'key none', 'key other'])
        out = E.call(lambda: setattr(a, 'near' if 'key' not in op else 'near_id',
                                     {'p': p, 'q': q, 'key other': 'elsewhere'}.get(op)))
        want = {'p': p, 'q': q}.get(op)
        E.check('no error', out.kind == 'ret', detail=repr(out))
        E.check('the object', a.near is want)
        E.same('its key', a.near_id, want.id if want is not None else 'elsewhere' if op == 'key other' and was == 0
               else a.near_id)
        if op in ('none', 'key none'):
            E.check('no key', a.near_id is None)
    else:
        a.nears = [[], [p], [q, p]][was]
        lst = a.nears
        now = [v for v in lst]
        op = E.choice('op', ['none', 'empty', 'p', 'append', 'insert', 'pop', 'clear', 'reverse', 'set', 'kpop',
                             'kclear', 'kreverse', 'keys'])
        if op in ('pop', 'set', 'kpop') and was == 0 or op in ('append', 'insert') and was > 0:
            E.assume(False)
        if op == 'none':
            out = E.call(lambda: setattr(a, 'nears', None))
            now = []
        elif op == 'empty':
            out = E.call(lambda: setattr(a, 'nears', []))
            now = []
        elif op == 'p':
            out = E.call(lambda: setattr(a, 'nears', [p]))
            now = [p]
        elif op == 'append':
            out = E.call(lst.append, q)
            now = [q]
        elif op == 'insert':
            out = E.call(lst.insert, 0, q)
            now = [q]
        elif op == 'pop':
            out = E.call(lst.pop)
            now.pop()
        elif op == 'clear':
            out = E.call(lst.clear)
            now = []
        elif op == 'reverse':
            out = E.call(lst.reverse)
            now.reverse()
        elif op == 'set':
            n = RFar(id='n')
            E.assume(p.id != 'n' and q.id != 'n')
            out = E.call(lst.__setitem__, 0, n)
            now[0] = n
        elif op == 'kpop':
            out = E.call(a.near_ids.pop)
            now.pop()
        elif op == 'kclear':
            out = E.call(a.near_ids.clear)
            now = []
        elif op == 'kreverse':
            out = E.call(a.near_ids.reverse)
            now.reverse()
        else:
            out = E.call(lambda: setattr(a, 'near_ids', [p.id]))
            now = [p] if was > 0 else []
        E.check('no error', out.kind == 'ret', detail=repr(out))
        got = a.nears if a.nears is not None else []
        E.check('as many', len(got) == len(now))
        for i in range(len(now)):
            E.check('the objects', got[i] is now[i])
        E.same('their keys', [k for k in a.near_ids], [p.id] if op == 'keys' else [v.id for v in now])

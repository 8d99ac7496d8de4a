"""C15: nothing is written or deleted past a refusing guard, callback or
rule; the stages run in order."""
from __future__ import annotations
from typing import Any
from contracts.base import *
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types
from jsonclasses.excs import UnauthorizedActionException


class Hub:
    """What the callbacks of the classes below do."""


HUB = Hub()


def _two(n):
    def cb(o, op):
        return HUB.run(n, o, op)
    return cb


def _one(n):
    def cb(o):
        return HUB.run(n, o, None)
    return cb


KW = {}
for _a in ('create', 'update', 'delete'):
    KW['can_' + _a] = [_two('can 1 ' + _a), _two('can 2 ' + _a)]
    KW['on_' + _a] = [_one('on 1 ' + _a), _two('on 2 ' + _a)]


@jsonclass(class_graph='c15', can_read=[_two('can 1 read'), _two('can 2 read')], **KW)
class GdA:
    id: str = types.str.primary.required
    val: Any = types.any.validate(lambda v, c: HUB.run('validate', c.owner, v)).setonsave(
        lambda v: HUB.run('onsave', None, v))
    b: str | None


@jsonclass(class_graph='c15')
class GdFree:
    """No guards, no callbacks."""
    id: str = types.str.primary.required
    val: Any = types.any.validate(lambda v, c: HUB.run('validate', c.owner, v)).setonsave(
        lambda v: HUB.run('onsave', None, v))
    b: str | None


for _c in (GdA, GdFree):
    _c.cdef.available_names, _c.cdef.calc_field_names


def refuse(r):
    """Does this guard result refuse?"""
    return r is not None and r is not True


class Stop(Exception):
    """Raised by a callback."""


def setup(E, cls, results, log):
    """Callbacks log their call and give the result specified for them."""
    def run(n, o, x):
        log.append((n, x))
        r = results.get(n)
        if r is Stop:
            raise Stop()
        return r
    HUB.run = run

    def write(self):
        log.append(('write', self))
    E.swap(cls, _database_write=write)
    E.swap(cls, _orm_delete=lambda self: log.append(('delete', self)))


GUARD = ('none', 'bool', 'str', 'int', 'opaque')


def prefix(E, action, results, op, log):
    """The specified stages before validation: the expected log, and the
    exception that ends it or None."""
    want = []
    if op is None:
        return want, UnauthorizedActionException, 'no operator'
    for n in ('can 1 ' + action, 'can 2 ' + action):
        want.append((n, op))
        r = results[n]
        if refuse(r):
            return want, UnauthorizedActionException, r if isinstance(r, str) else 'cannot ' + action
    for n, x in (('on 1 ' + action, None), ('on 2 ' + action, op)):
        want.append((n, x))
        if results[n] is Stop:
            return want, Stop, None
    return want, None, None


def ended(E, out, exc, msg):
    if exc is None:
        E.check('returns', out.kind == 'ret', detail=repr(out.v))
        return
    E.check('refused', out.kind == 'exc' and isinstance(out.v, exc), detail=repr(out.v))
    if msg is not None:
        E.same('the reason', out.v.args[0], msg)


def drawn(E, action, loose):
    g = E.choice('which', [1, 2]) if loose else 2
    return {f'can {g} {action}': E.any('guard', GUARD),
            f'can {3 - g} {action}': None if g == 1 else True,
            'on 1 ' + action: E.choice('cb1', [None, Stop]), 'on 2 ' + action: E.choice('cb2', [7, Stop])}


@contract('C15', 'save', covers=('written', 'refused'))
def _(E):
    """save(): guards, callbacks, validation, on-save values, write."""
    log = []
    new = E.choice('new', [True, False])
    action = 'create' if new else 'update'
    op = E.choice('operator', [None, 'me'])
    results = drawn(E, action, True)
    verdict = E.choice('verdict', [True, False])
    results['validate'] = verdict
    v, w = E.any('v', ('int', 'str')), E.any('w', ('int', 'str'))
    results['onsave'] = w
    setup(E, GdA, results, log)
    o = GdA(id='1')
    o.val = v
    o._operator = op
    if not new:
        o._mark_unmodified()
        o._modified_fields.add('val')
        o._is_modified = True
    skip = E.choice('skip', [True, False])
    allf = E.choice('all', [True, False])
    del log[:]
    out = E.call(o.save, validate_all_fields=allf, skip_validation=skip)
    want, exc, msg = prefix(E, action, results, op, log)
    if exc is None:
        if not skip:
            want.append(('validate', v))
            if not verdict:
                exc = ValidationException
    if exc is None:
        want = want + [('onsave', v), ('write', o)]
    E.same('the stages, in order', log, want)
    ended(E, out, exc, msg)
    if exc is None:
        E.check('itself', out.v is o)
        E.check('the on-save value', o.val == w)
        E.cover('written')
    else:
        E.check('the value is left', o.val == v)
        E.cover('refused')


@contract('C15', 'delete', covers=('deleted', 'refused'))
def _(E):
    log = []
    op = E.choice('operator', [None, 'me'])
    results = drawn(E, 'delete', True)
    setup(E, GdA, results, log)
    o = GdA(id='1')
    o._operator = op
    if E.choice('new', [True, False]):
        o._mark_unmodified()
    out = E.call(o.delete)
    want, exc, msg = prefix(E, 'delete', results, op, log)
    if exc is None:
        want.append(('delete', o))
    E.same('the stages, in order', log, want)
    ended(E, out, exc, msg)
    if exc is None:
        E.check('itself', out.v is o)
    E.cover('deleted' if exc is None else 'refused')


@contract('C15', 'read', covers=('read', 'refused'))
def _(E):
    log = []
    op = E.choice('operator', [None, 'me'])
    results = {'can 1 read': E.any('g1', GUARD), 'can 2 read': E.any('g2', GUARD)}
    setup(E, GdA, results, log)
    o = GdA(id='1')
    o._operator = op
    out = E.call(o._can_read_check)
    want, exc, msg = [], None, None
    if op is None:
        exc, msg = UnauthorizedActionException, 'no operator'
    else:
        for n in ('can 1 read', 'can 2 read'):
            if exc is None:
                want.append((n, op))
                r = results[n]
                if refuse(r):
                    exc, msg = UnauthorizedActionException, r if isinstance(r, str) else 'cannot read'
    E.same('the guards, in order', log, want)
    ended(E, out, exc, msg)
    E.cover('read' if exc is None else 'refused')


@contract('C15', 'unguarded')
def _(E):
    """Without guards no operator is needed."""
    log = []
    setup(E, GdFree, {'validate': True, 'onsave': 5}, log)
    o = GdFree(id='1')
    o.val = E.any('v', ('int', 'str'))
    o._operator = E.choice('operator', [None, 'me'])
    if not E.choice('new', [True, False]):
        o._mark_unmodified()
    act = E.choice('act', ['save', 'delete', 'read'])
    del log[:]
    out = E.call(o.save if act == 'save' else o.delete if act == 'delete' else o._can_read_check)
    E.check('allowed', out.kind == 'ret', detail=repr(out.v))
    end = [n for n, x in log if n in ('write', 'delete')]
    E.same('done', end, {'save': ['write'], 'delete': ['delete'], 'read': []}[act])


@contract('C15', 'guards.any', covers=('allowed', 'refused'))
def _(E):
    """Any number of guards: the action is allowed exactly when none refuses."""
    n = E.choice('how many', [1, 2, 3, 4])
    kinds = [E.choice('kind' + str(i), ['function', 'types']) if i < 3 else 'function' for i in range(n)]
    rs = [E.any('g' + str(i), GUARD) if kinds[i] == 'function' else
          E.choice('g' + str(i), [True, False]) for i in range(n)]
    log = []

    def guard(i):
        def g(o, op):
            E.check('the object and the operator', o is obj and op is who)
            log.append(i)
            return rs[i]

        def t(v, c):
            E.check('the object and the operator', v is obj and c.operator is who)
            log.append(i)
            return rs[i]
        return g if kinds[i] == 'function' else types.any.validate(t)
    action = E.choice('action', ['create', 'update', 'delete', 'read'])
    who = E.opaque('operator')
    obj = GdFree(id='1')
    obj._operator = who
    out = E.call(obj._can_cu_check_common, [guard(i) for i in range(n)], action)
    first = None
    for i in range(n):
        if first is None and refuse(rs[i]):
            first = i
    E.same('asked in order', log, [i for i in range(n if first is None else first + 1)])
    if first is None:
        E.check('allowed', out.kind == 'ret')
        E.cover('allowed')
    else:
        r = rs[first]
        ended(E, out, UnauthorizedActionException, r if isinstance(r, str) else 'cannot ' + action)
        E.cover('refused')


@contract('C15', 'guards.types', covers=('allowed', 'refused'))
def _(E):
    """A guard written as a definition refuses when its rules reject."""
    f = E.choice('verdict', [True, False])
    who = E.opaque('operator')
    seen = []

    def rule(v, c):
        seen.append(v)
        E.check('the operator', c.operator is who)
        return f
    obj = GdFree(id='1')
    obj._operator = who
    out = E.call(obj._can_cu_check_common, [types.any.validate(rule)], 'update')
    E.check('asked about the object', len(seen) == 1 and seen[0] is obj)
    ended(E, out, None if f else UnauthorizedActionException, 'cannot update')
    E.cover('allowed' if f else 'refused')


@jsonclass(class_graph='c15')
class GdUser:
    id: str = types.str.primary.required


@jsonclass(class_graph='c15')
class GdOwned:
    id: str = types.str.primary.required
    who: GdUser | None = types.objof('GdUser').linkto.asopd
    boss: GdUser | None = types.objof('GdUser').linkto.asop(lambda op, o: HUB.boss(op, o))
    b: str | None


@jsonclass(class_graph='c15')
class GdOwned1:
    id: str = types.str.primary.required
    boss: GdUser | None = types.objof('GdUser').linkto.asop(lambda op: HUB.boss(op, None))
    b: str | None


for _c in (GdUser, GdOwned, GdOwned1):
    _c.cdef.available_names, _c.cdef.calc_field_names


class Falsy:
    """An operator that is there, though not true."""
    _id = 'f'

    def __bool__(self):
        return False


@contract('C15', 'opby.any')
def _(E):
    """Any operator that is not null counts."""
    o = GdOwned(id='1')
    u = Falsy()
    HUB.boss = lambda op, x: op
    out = E.call(o.opby, u)
    E.check('itself', out.kind == 'ret' and out.v is o)
    E.same('the keys', (o.who_id, o.boss_id), ('f', 'f'))


@contract('C15', 'opby')
def _(E):
    """The operator's key is assigned to new objects, and only to them."""
    u, b = GdUser(id=E.str('u')), GdUser(id=E.str('b'))
    cls = E.choice('class', [GdOwned, GdOwned1])
    o = cls(id='1')
    new = E.choice('new', [True, False])
    if not new:
        o._mark_unmodified()
    asked = []

    def boss(op, x):
        asked.append((op, x))
        return b
    HUB.boss = boss
    op = E.choice('operator', [u, None])
    out = E.call(o.opby, op)
    E.check('itself', out.kind == 'ret' and out.v is o, detail=repr(out))
    E.check('the operator', o._operator is op)
    if new and op is not None:
        E.check('asked once', len(asked) == 1 and asked[0][0] is u and asked[0][1] is (o if cls is GdOwned else None))
        E.same('the derived key', o.boss_id, b.id)
        if cls is GdOwned:
            E.same('the key', o.who_id, u.id)
        E.check('valid', E.call(o.validate).kind == 'ret')
    else:
        E.check('not asked', len(asked) == 0)
        E.same('no key', o.boss_id, None)
        E.iff('a new object without operator is not valid', rejects(E, E.call(o.validate)), new)


@jsonclass(class_graph='c15')
class GdP:
    id: str = types.str.primary.required
    kids: list[GdK] = types.listof('GdK').linkedby('par')


@jsonclass(class_graph='c15')
class GdK:
    id: str = types.str.primary.required
    par: GdP | None = types.objof('GdP').linkto
    val: Any = types.any.validate(lambda v, c: HUB.run('validate', c.owner, v))


for _c in (GdP, GdK):
    _c.cdef.available_names, _c.cdef.calc_field_names


@contract('C15', 'unlinked', covers=('saved', 'refused'))
def _(E):
    """Saving saves the dropped objects too, each once, in the order they
    were dropped, with the same options, past the same refusals, and then
    forgets them."""
    log = []
    who = {}

    def run(n, o, x):
        log.append((n, who[x]))
        return good[who[x]]
    HUB.run = run
    E.swap(GdP, _database_write=lambda self: log.append(('write', self.id)))
    E.swap(GdK, _database_write=lambda self: log.append(('write', self.id)))
    n = E.choice('n', [0, 1, 2])
    p = GdP(id='p')
    ks = [GdK(id='k' + str(i), val=i) for i in range(3)]
    for k in ks:
        who[k.val] = k.id
    state = [E.choice('state' + str(i), ['new', 'clean', 'changed']) for i in range(n)]
    good = {k.id: True for k in ks}
    for i in range(n):
        good['k' + str(i)] = E.choice('good' + str(i), [True, False])
    p.kids = ks
    for o in [p] + ks:
        o._mark_unmodified()
    if E.choice('how', ['assign', 'remove']) == 'assign':
        p.kids = ks[n:]
    else:
        for k in ks[:n]:
            p.kids.remove(k)
    for i in range(n):
        if state[i] == 'new':
            ks[i]._mark_new()
        else:
            ks[i]._mark_unmodified()
            if state[i] == 'changed':
                ks[i]._modified_fields.add('val')
                ks[i]._is_modified = True
    skip = E.choice('skip', [True, False])
    allf = E.choice('all', [True, False])
    out = E.call(p.save, validate_all_fields=allf, skip_validation=skip)
    want = [('write', 'p')]
    refused = False
    for i in range(n):
        if not refused:
            k = 'k' + str(i)
            if not skip and state[i] != 'clean':
                want.append(('validate', k))
                refused = not good[k]
            if not refused:
                want.append(('write', k))
    # the object is itself among the dropped ones of those it dropped
    E.same('what is written, in order', log[:1] + [x for x in log[1:] if x != ('write', 'p')], want)
    if refused:
        E.check('refused', out.kind == 'exc' and isinstance(out.v, ValidationException), detail=repr(out.v))
        E.cover('refused')
        return
    E.check('returns', out.kind == 'ret', detail=repr(out.v))
    E.cover('saved')
    E.check('nothing is kept', all([len(l) == 0 for l in p.unlinked_objects.values()]))
    for k in ks[:n]:
        E.check('nothing is kept', all([len(l) == 0 for l in k.unlinked_objects.values()]))

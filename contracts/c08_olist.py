"""C08: an owned list is a list, and its owner hears of every change."""
from contracts.base import *
from jsonclasses.olist import OwnedList, is_list_owner

STANDINS = True     # some objects here only have what the code is known to ask


class Owner:
    """Logs what it is told, with the list's contents at that moment."""

    def __init__(self, E):
        self.E = E
        self.log = E.log()

    def __olist_will_change__(self, l):
        self.log.add('will', list(l))

    def __olist_add__(self, l, idx, val):
        self.log.add('add', idx, val)

    def __olist_del__(self, l, val):
        self.log.add('del', val)

    def __olist_sor__(self, l):
        self.log.add('sor', list(l))


def mk(E, items=None):
    v = E.list_any('v') if items is None else items
    o = Owner(E)
    l = OwnedList(v)
    l.owner = o
    l.keypath = 'kp'
    return v, l, o


def op(name, run, events, vals=None, inplace=False, **opts):
    """run(l, *args): the operation. It must do to the owned list what it does
    to a plain list (result, exception and contents); the owner is told first
    that the list will change and then what was removed and added. events(
    before, *args) -> list of events after 'will', or None: nothing."""
    def fn(E):
        v, l, o = mk(E)
        args = vals(E, v) if vals else ()
        plain = list(v)
        want = E.call(run, plain, *args)
        out = E.call(run, l, *args)
        E.check('same outcome as a plain list', out.kind == want.kind, detail=f'{out} {want}')
        if want.kind == 'exc':
            E.check('same error', type(out.v) is type(want.v), incomplete=True)
            E.same('contents unchanged', list(l), list(v))
            E.cover('error')
            return
        if inplace:
            E.check('returns the owned list', out.v is l)
        else:
            E.same('same result', out.v, want.v)
        E.same('same contents', list(l), list(plain))
        ev = events(list(v), *args)
        E.same('the owner is told', o.log, [] if ev is None else [('will', list(v))] + ev)
        E.cover('ok')
    opts.setdefault('covers', ('ok',))
    contract('C08', name, **opts)(fn)


op('append', lambda l, x: l.append(x), lambda b, x: [('add', len(b), x)], lambda E, v: (E.any('x'),))
op('extend', lambda l, x: l.extend(x),
   lambda b, x: [('add', len(b) + i, y) for i, y in enumerate(x)] if len(x) else None,
   lambda E, v: (E.list_any('x'),))


def clamp(i, n):
    """Where list.insert and slices put index i in a list of n."""
    return max(0, n + i) if i < 0 else min(i, n)


op('insert', lambda l, i, x: l.insert(i, x), lambda b, i, x: [('add', clamp(i, len(b)), x)],
   lambda E, v: (E.int('i'), E.any('x')))
op('clear', lambda l: l.clear(), lambda b: [('del', y) for y in b])
op('reverse', lambda l: l.reverse(), lambda b: [('sor', b[::-1])])
op('pop', lambda l: l.pop(), lambda b: [('del', b[-1])], covers=('ok', 'error'))
op('pop.at', lambda l, i: l.pop(i), lambda b, i: [('del', b[i])], lambda E, v: (E.int('i'),),
   covers=('ok', 'error'))
op('remove', lambda l, x: l.remove(x), lambda b, x: [('del', b[b.index(x)])],
   lambda E, v: (E.any('x'),),
   covers=('ok', 'error'))


def iadd(l, x):
    l += x
    return l


def imul(l, n):
    l *= n
    return l


def setit(l, i, x):
    l[i] = x


def delit(l, i):
    del l[i]


op('iadd', iadd, lambda b, x: [('add', len(b) + i, y) for i, y in enumerate(x)] if len(x) else None,
   lambda E, v: (E.list_any('x'),), inplace=True)
op('imul', imul, lambda b, n: ([('del', y) for y in b] if b else None) if n <= 0 else
   None if n == 1 or not b else [('add', len(b) + i, y) for i, y in enumerate(b * (n - 1))],
   lambda E, v: (E.choice('n', [-1, 0, 1, 2, 3]),), inplace=True)
op('setitem', setit, lambda b, i, x: [('del', b[i]), ('add', i if i >= 0 else len(b) + i, x)],
   lambda E, v: (E.int('i'), E.any('x')), covers=('ok', 'error'))
op('delitem', delit, lambda b, i: [('del', b[i])], lambda E, v: (E.int('i'),), covers=('ok', 'error'))


def bound(E, n):
    return E.int(n) if E.choice(n + 'given', [True, False]) else None


op('setitem.slice', setit,
   lambda b, s, x: [('del', y) for y in b[s]] + [('add', clamp(s.start or 0, len(b)) + i, y)
                                                 for i, y in enumerate(x)],
   lambda E, v: (slice(bound(E, 'i'), bound(E, 'j')), E.list_any('x')))
op('delitem.slice', delit, lambda b, s: [('del', y) for y in b[s]],
   lambda E, v: (slice(bound(E, 'i'), bound(E, 'j')),))
op('setitem.step', setit,
   lambda b, s, x: [('del', y) for y in b[s]] + [('add', i, y) for i, y in
                                                 zip(range(*s.indices(len(b))), x)],
   lambda E, v: (slice(bound(E, 'i'), bound(E, 'j'), E.choice('step', [2, -1, 3, -2])), E.list_any('x')),
   native=True, n=1500)
op('delitem.step', delit, lambda b, s: [('del', y) for y in b[s]],
   lambda E, v: (slice(bound(E, 'i'), bound(E, 'j'), E.choice('step', [2, -1, 3, -2])),),
   native=True, n=1500)


@contract('C08', 'sort', native=True)
def _(E):
    v, l, o = mk(E, E.list('v', lambda e: e.int('x')))
    rev = E.bool('rev')
    key = E.choice('key', [None, lambda x: -x, lambda x: x % 2])
    l.sort(key=key, reverse=rev)
    want = sorted(v, key=key, reverse=rev)
    E.same('sorted', list(l), want)
    E.same('the owner is told', o.log, [('will', list(v)), ('sor', want)])


@contract('C08', 'iterators', native=True)
def _(E):
    """Any iterable may be added, even one that can be read only once."""
    v, l, o = mk(E)
    x = E.list_any('x')
    it = E.choice('it', [iter, tuple, lambda y: (z for z in y), list])(x)
    plain = list(v)
    E.choice('op', [lambda: l.extend(it), lambda: iadd(l, it), lambda: setit(l, slice(len(v), None), it)])()
    E.same('contents', list(l), plain + x)
    E.same('owner told of each', [e for e in o.log.m if e[0] == 'add'],
           [('add', len(v) + i, y) for i, y in enumerate(x)])


@contract('C08', 'reads', covers=('ok',))
def _(E):
    """Reading, copying and concatenating tells the owner nothing."""
    v, l, o = mk(E)
    x = E.list_any('x')
    i = E.int('i')
    E.same('length', len(l), len(v))
    E.same('concatenation', list(l + x), list(v) + x)
    a, b = E.call(lambda: l[i]), E.call(lambda: v[i])
    E.check('index', a.kind == b.kind)
    if a.kind == 'ret':
        E.same('item', a.v, b.v)
    E.same('slice', list(l[i:]), v[i:])
    E.same('iteration', [y for y in l], [y for y in v])
    E.same('nothing told', o.log, [])
    E.cover('ok')


@contract('C08', 'owner.protocol')
def _(E):
    full = E.obj(__olist_add__=1, __olist_del__=1, __olist_sor__=1, __olist_will_change__=1)
    E.check('a list owner has the four methods', is_list_owner(full))
    E.check('anything else is none', not is_list_owner(3))

"""C09: an owned dict is a dict, and its owner hears of every change."""
from contracts.base import *
from jsonclasses.odict import OwnedDict, is_dict_owner

STANDINS = True     # some objects here only have what the code is known to ask


class Owner:
    def __init__(self, E):
        self.log = E.log()

    def __odict_will_change__(self, d):
        self.log.add('will', dict(d))

    def __odict_add__(self, d, key, val):
        self.log.add('add', key, val)

    def __odict_del__(self, d, val):
        self.log.add('del', val)


def mk(E):
    v = E.dict('v')
    o = Owner(E)
    d = OwnedDict(v)
    d.owner = o
    d.keypath = 'kp'
    return v, d, o


def op(name, run, events, vals=None, inplace=False, **opts):
    """As for lists: the effect, result and error are those of a plain dict;
    the owner is told that the dict will change, then what left and what came."""
    def fn(E):
        v, d, o = mk(E)
        args = vals(E) if vals else ()
        plain = dict(v)
        want = E.call(run, plain, *args)
        out = E.call(run, d, *args)
        E.check('same outcome as a plain dict', out.kind == want.kind, detail=f'{out} {want}')
        if want.kind == 'exc':
            E.check('same error', type(out.v) is type(want.v), incomplete=True)
            E.same('contents unchanged', dict(d), dict(v))
            E.cover('error')
            return
        if inplace:
            E.check('returns the owned dict', out.v is d)
        else:
            E.same('same result', out.v, want.v)
        E.same('same contents', dict(d), dict(plain))
        told(E, o, v, events(dict(v), *args))
        E.cover('ok')
    opts.setdefault('covers', ('ok',))
    contract('C09', name, **opts)(fn)


def told(E, o, before, ev):
    E.same('the owner is told', [e for e in o.log.m if e[0] != 'will'], [] if ev is None else ev)
    if ev:
        E.same('that it will change, before it does', o.log.m[0], ('will', dict(before)))


def setit(d, k, v):
    d[k] = v


def delit(d, k):
    del d[k]


def ior(d, x):
    d |= x
    return d


op('setitem', setit, lambda b, k, x: ([('del', b[k])] if k in b else []) + [('add', k, x)],
   lambda E: (E.str('k'), E.any('x')))
op('delitem', delit, lambda b, k: [('del', b[k])], lambda E: (E.str('k'),), covers=('ok', 'error'))
op('pop', lambda d, k: d.pop(k), lambda b, k: [('del', b[k])], lambda E: (E.str('k'),),
   covers=('ok', 'error'))
op('pop.default', lambda d, k, x: d.pop(k, x), lambda b, k, x: [('del', b[k])] if k in b else None,
   lambda E: (E.str('k'), E.any('x')))
op('setdefault', lambda d, k, x: d.setdefault(k, x), lambda b, k, x: None if k in b else [('add', k, x)],
   lambda E: (E.str('k'), E.any('x')))
op('setdefault.none', lambda d, k: d.setdefault(k), lambda b, k: None if k in b else [('add', k, None)],
   lambda E: (E.str('k'),))
op('clear', lambda d: d.clear(), lambda b: [('del', x) for x in b.values()])
op('update', lambda d, x: d.update(x),
   lambda b, x: [('del', b[k]) for k in b if k in x] + [('add', k, x[k]) for k in x],
   lambda E: (E.dict('x'),))
op('ior', ior, lambda b, x: [('del', b[k]) for k in b if k in x] + [('add', k, x[k]) for k in x],
   lambda E: (E.dict('x'),), inplace=True)
op('popitem', lambda d: d.popitem(), lambda b: [('del', list(b.values())[-1])], native=True)
op('update.kwargs', lambda d, k, x, y: d.update({k: x}, name=y),
   lambda b, k, x, y: [('del', v) for j, v in b.items() if j in (k, 'name')]
   + ([('add', 'name', y)] if k == 'name' else [('add', k, x), ('add', 'name', y)]),
   lambda E: (E.str('k'), E.any('x'), E.any('y')), native=True)


@contract('C09', 'iterators', native=True)
def _(E):
    v, d, o = mk(E)
    x = E.dict('x')
    it = E.choice('it', [lambda y: iter(list(y.items())), lambda y: list(y.items()),
                         lambda y: y, lambda y: zip(y.keys(), y.values())])(x)
    E.choice('op', [lambda: d.update(it), lambda: ior(d, it)])()
    plain = dict(v)
    plain.update(x)
    E.same('contents', dict(d), plain)
    E.same('order', list(d), list(plain))
    told(E, o, v, [('del', v[k]) for k in v if k in x] + [('add', k, x[k]) for k in x])


@contract('C09', 'bad.calls', native=True, n=20)
def _(E):
    v, d, o = mk(E)
    for f in (lambda q: q.pop(), lambda q: q.pop(1, 2, 3), lambda q: q.update(1, 2), lambda q: q.update(3),
              lambda q: q.setdefault()):
        a, b = E.call(f, d), E.call(f, dict(v))
        E.check('the error a plain dict raises', a.kind == 'exc' and type(a.v) is type(b.v))
        E.same('unchanged', dict(d), dict(v))


@contract('C09', 'reads', covers=('ok',))
def _(E):
    v, d, o = mk(E)
    k = E.str('k')
    x = E.any('x')
    E.same('length', len(d), len(v))
    E.check('membership', (k in d) == (k in v))
    E.same('get', d.get(k, x), v.get(k, x))
    a, b = E.call(lambda: d[k]), E.call(lambda: v[k])
    E.check('item or KeyError', a.kind == b.kind)
    if a.kind == 'ret':
        E.same('item', a.v, b.v)
    E.same('items', [y for y in d.items()], [y for y in v.items()])
    E.same('nothing told', o.log, [])
    E.cover('ok')


@contract('C09', 'owner.protocol')
def _(E):
    full = E.obj(__odict_add__=1, __odict_del__=1, __odict_will_change__=1)
    E.check('a dict owner has the three methods', is_dict_owner(full))
    E.check('anything else is none', not is_dict_owner(3))

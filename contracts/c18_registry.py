"""C18: class graphs are separate name spaces; a class is configured by its
own settings, and by its graph's defaults where it has none."""
from __future__ import annotations
from enum import Enum
from itertools import count
from contracts.base import *
from jsonclasses.cgraph import CGraph
from jsonclasses.jconf import JConf
from jsonclasses.jsonclass import jsonclass
from jsonclasses.jsonenum import jsonenum
from jsonclasses.types import types
from jsonclasses.keypath import camelize_key, reference_key, underscore_key, identical_key
from jsonclasses.excs import (JSONClassRedefinitionException, JSONClassNotFoundException,
                              JSONClassTypedDictRedefinitionException, JSONClassTypedDictNotFoundException)

STANDINS = True     # some objects here only have what the code is known to ask

GRAPHS = count()


def gname():
    return 'c18.' + str(next(GRAPHS))


def graphs(E):
    """No graphs yet. The text of the redefinition errors is not specified."""
    E.swap(CGraph, _graph_map={}, _initialized_map={})
    E.assume_contract(JSONClassRedefinitionException.__init__, lambda self, *a: None)
    E.assume_contract(JSONClassTypedDictRedefinitionException.__init__, lambda self, *a: None)


class Def:
    def __init__(self, name, cls, jconf):
        self.name, self.cls, self.jconf = name, cls, jconf


def mkcls(name):
    if name == 'A':
        class A:
            pass
        return A
    if name == 'B':
        class B:
            pass
        return B

    class Dec:
        id: str
    return Dec


def mkenum(name):
    if name == 'A':
        class A(Enum):
            X = 1
        return A

    class B(Enum):
        X = 1
    return B


@contract('C18', 'registry', covers=('again', 'once'))
def _(E):
    """Every history of three definitions and a lookup on two graphs."""
    graphs(E)
    ga, gb = gname(), gname()
    names = ['A', 'B']
    reg = {}
    again = False
    for i in range(3):
        g = E.choice(f'graph{i}', [ga, gb])
        n = E.choice(f'name{i}', names)
        c = mkcls(n)
        d = Def(n, c, E.obj(cgraph=g))
        c.cdef = d
        out = E.call(CGraph(g).put, d)
        if (g, n) in reg:
            again = True
            E.check('a second definition is refused', out.kind == 'exc'
                    and isinstance(out.v, JSONClassRedefinitionException))
        else:
            E.check('a definition is taken', out.kind == 'ret', detail=repr(out))
            reg[(g, n)] = d
    for g in (ga, gb):
        for n in names:
            key = E.choice('by', ['name', 'class'])
            k = n if key == 'name' else mkcls(n)
            out = E.call(CGraph(g).fetch, k)
            E.iff('has', CGraph(g).has(k), (g, n) in reg)
            if (g, n) in reg:
                E.check('the first definition is found', out.kind == 'ret' and out.v is reg[(g, n)])
            else:
                E.check('not found', out.kind == 'exc' and isinstance(out.v, JSONClassNotFoundException))
            E.check('no enum of that name', not CGraph(g).has_enum(n))
    E.cover('again' if again else 'once')


@contract('C18', 'registry.enums', covers=('again', 'once'))
def _(E):
    graphs(E)
    ga, gb = gname(), gname()
    names = ['A', 'B']
    reg = {}
    again = False
    for i in range(3):
        g = E.choice(f'graph{i}', [ga, gb])
        n = E.choice(f'name{i}', names)
        e = mkenum(n)
        out = E.call(CGraph(g).put_enum, e)
        if (g, n) in reg:
            again = True
            E.check('a second definition is refused', out.kind == 'exc'
                    and isinstance(out.v, JSONClassTypedDictRedefinitionException), detail=repr(out))
        else:
            E.check('a definition is taken', out.kind == 'ret')
            reg[(g, n)] = e
    for g in (ga, gb):
        for n in names:
            key = E.choice('by', ['name', 'class'])
            k = n if key == 'name' else mkcls(n)
            out = E.call(CGraph(g).fetch_enum, k)
            E.iff('has', CGraph(g).has_enum(k), (g, n) in reg)
            if (g, n) in reg:
                E.check('the first definition is found', out.kind == 'ret' and out.v is reg[(g, n)])
            else:
                E.check('not found', out.kind == 'exc' and isinstance(out.v, JSONClassTypedDictNotFoundException))
            E.check('no class of that name', not CGraph(g).has(n))
    E.cover('again' if again else 'once')


@contract('C18', 'graphs')
def _(E):
    """One graph for one name."""
    graphs(E)
    a, b = gname(), gname()
    x, y = CGraph(a), CGraph(b)
    E.check('shared', CGraph(a) is x and CGraph(b) is y and x is not y)
    E.same('named', [x.name, y.name], [a, b])
    E.check('its own defaults', x.default_config is not y.default_config)
    x.put(Def('A', mkcls('A'), None))
    E.check('kept', CGraph(a).has('A') and not CGraph(b).has('A'))


FLAGS = ['strict_input', 'validate_all_fields', 'abstract', 'reset_all_fields', 'output_null']
KEYS = ['output_key_strategy', 'input_key_strategy']
CBS = ['on_create', 'on_update', 'on_delete', 'can_create', 'can_update', 'can_delete', 'can_read']
DEFAULTS = dict(strict_input=True, validate_all_fields=False, abstract=False, reset_all_fields=False,
                output_null=False, output_key_strategy=camelize_key, input_key_strategy=underscore_key,
                ref_name_strategy=reference_key)


def f1(x):
    return x


def f2(x):
    return x


def f3(x):
    return x


def args(**kw):
    d = dict(cgraph='c18', ref_name_strategy=None)
    for n in FLAGS + KEYS + CBS:
        d[n] = None
    d.update(kw)
    return d


@contract('C18', 'settings.flags')
def _(E):
    """A given setting is used, whatever the graph's default; a setting not
    given is the graph's, as it is at the time it is read."""
    graphs(E)
    g = gname()
    n = E.choice('setting', FLAGS)
    given = E.choice('given', [None, True, False])
    deflt = E.choice('default', [None, True, False])
    c = JConf(**args(cgraph=g, **{n: given}))
    want = {m: DEFAULTS[m] for m in FLAGS}
    if deflt is not None:
        setattr(CGraph(g).default_config, '_' + n, deflt)
        want[n] = deflt
    if given is not None:
        want[n] = given
    E.same('the settings', [getattr(c, m) for m in FLAGS], [want[m] for m in FLAGS])
    E.check('the graph', c.cgraph is CGraph(g))
    other = JConf(**args(cgraph=gname()))
    E.same('another graph', [getattr(other, m) for m in FLAGS], [DEFAULTS[m] for m in FLAGS])


@contract('C18', 'settings.names')
def _(E):
    graphs(E)
    g = gname()
    n = E.choice('setting', KEYS + ['ref_name_strategy'])
    if n == 'ref_name_strategy':
        given, want = E.choice('given', [(None, reference_key), (f1, f1)])
    else:
        given, want = E.choice('given', [(None, DEFAULTS[n]), ('camelize', camelize_key),
                                         ('underscore', underscore_key), ('identical', identical_key), (f1, f1)])
    c = JConf(**args(cgraph=g, **{n: given}))
    for m in KEYS + ['ref_name_strategy']:
        E.check(m, getattr(c, m) is (want if m == n else DEFAULTS[m]))


@contract('C18', 'settings.callbacks')
def _(E):
    """One callback, a list of them, a definition, or none."""
    n = E.choice('setting', CBS)
    ty = types.str
    given, want = E.choice('given', [(None, []), (f1, [f1]), ([f1, f2], [f1, f2]), ([], []), (ty, [ty])])
    c = JConf(**args(**{n: given}))
    for m in CBS:
        got = getattr(c, m)
        w = want if m == n else []
        E.check(m, len(got) == len(w) and all([a is b for a, b in zip(got, w)]))


@contract('C18', 'equality')
def _(E):
    """Two configurations are equal exactly when all their settings are."""
    graphs(E)
    n = E.choice('setting', FLAGS + KEYS + CBS + ['cgraph', 'ref_name_strategy', 'none'])
    base = args(cgraph='c18', strict_input=True, validate_all_fields=True, abstract=True, reset_all_fields=True,
                output_null=True, output_key_strategy=f1, input_key_strategy=f1, ref_name_strategy=f1,
                **{c: [f1] for c in CBS})
    other = dict(base)
    if n in FLAGS:
        other[n] = False
    elif n == 'cgraph':
        other[n] = 'c18.other'
    elif n in CBS:
        other[n] = [f2]
    elif n != 'none':
        other[n] = f2
    E.iff('equal', JConf(**base) == JConf(**other), n == 'none')
    E.check('not equal to anything else', not (JConf(**base) == 1))


@contract('C18', 'decorator')
def _(E):
    """The decorator passes every setting on and registers the class on its
    graph."""
    graphs(E)
    g = gname()
    n = E.choice('setting', FLAGS + KEYS + CBS + ['ref_name_strategy', 'camelize_json_keys', 'none'])
    kw = {}
    if n in FLAGS:
        kw[n] = not DEFAULTS[n]
    elif n == 'camelize_json_keys':
        kw[n] = False
    elif n in CBS:
        kw[n] = [f2]
    elif n != 'none':
        kw[n] = f2
    c = mkcls('Dec')
    r = E.choice('form', [lambda: jsonclass(class_graph=g, **kw)(c), lambda: jsonclass(c, class_graph=g, **kw)])()
    E.check('the class itself', r is c)
    E.check('registered', CGraph(g).fetch('Dec') is r.cdef and r.cdef.cls is r and r.cdef.name == 'Dec')
    conf = r.cdef.jconf
    E.check('its graph', conf.cgraph is CGraph(g))
    for m in FLAGS:
        E.iff(m, getattr(conf, m), kw.get(m, DEFAULTS[m]))
    for m in KEYS + ['ref_name_strategy']:
        w = kw.get(m, identical_key if n == 'camelize_json_keys' and m in KEYS else DEFAULTS[m])
        E.check(m, getattr(conf, m) is w)
    for m in CBS:
        E.check(m, [x for x in getattr(conf, m)] == kw.get(m, []))
    out = E.call(jsonclass, mkcls('Dec'), class_graph=g)
    E.check('not twice', out.kind == 'exc' and isinstance(out.v, JSONClassRedefinitionException))
    E.check('the first stays', CGraph(g).fetch('Dec') is r.cdef)


@contract('C18', 'enums')
def _(E):
    graphs(E)
    g = gname()
    e = mkenum('A')
    r = E.choice('form', [lambda: jsonenum(class_graph=g)(e), lambda: jsonenum(e, class_graph=g)])()
    E.check('the enum itself', r is e)
    E.check('registered', CGraph(g).fetch_enum('A') is e and CGraph(g).fetch_enum(e) is e)
    out = E.call(jsonenum, mkenum('A'), class_graph=g)
    E.check('not twice', out.kind == 'exc' and isinstance(out.v, JSONClassTypedDictRedefinitionException))
    E.check('the first stays', CGraph(g).fetch_enum('A') is e)

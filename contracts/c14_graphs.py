"""C14: object graphs find an object by class and primary key; marks name
each object once."""
from __future__ import annotations
from contracts.base import *
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types
from jsonclasses.ograph import OGraph
from jsonclasses.excs import UnlinkableJSONClassException, JSONClassGraphMergeConflictException

STANDINS = True     # some objects here only have what the code is known to ask


class GA:
    __is_jsonclass__ = True


class GB:
    __is_jsonclass__ = True


@jsonclass(class_graph='c14')
class GrA:
    pk: str | None = types.str.primary
    one: GrB | None = types.objof('GrB').linkto
    bs: list[GrB] = types.listof('GrB').linkedby('a')


@jsonclass(class_graph='c14')
class GrB:
    pk: str | None = types.str.primary
    a: GrA | None = types.objof('GrA').linkto
    one_of: GrA | None = types.objof('GrA').linkedby('one')


for _c in (GrA, GrB):
    _c.cdef.available_names
    for _f in _c.cdef.fields:
        _f.fdef.is_ref, _f.foreign_field, _f.fdef.item_types


GA.cdef = GB.cdef = type('D', (), {'primary_field': 'id', 'name': 'X'})()
GB.__name__ = 'GA'          # two classes may share a name (in different class graphs)


def node(E, n, cls=None, pk=None):
    cls = E.choice(n + 'c', [GA, GB]) if cls is None else cls
    o = cls()
    o._id = E.any(n + 'id', ('str', 'int')) if pk is None else pk
    o._graph = None
    return o


def key(o):
    return (o.__class__ is GB, str(o._id))


def latest(objs, o):
    """The last of objs that represents the same thing as o."""
    r = None
    for x in objs:
        if x.__class__ is o.__class__ and str(x._id) == str(o._id):
            r = x
    return r


@contract('C14', 'ograph.put.get', covers=('found', 'none'))
def _(E):
    """After any puts, get returns the latest object put of the class and
    primary key (as text), has tells whether there is one."""
    n = E.choice('n', [0, 1, 2, 3])
    objs = [node(E, f'o{i}') for i in range(n)]
    g = OGraph()
    for o in objs:
        out = E.call(g.put, o)
        E.check('put returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    probe = node(E, 'p')
    want = latest(objs, probe)
    got = E.call(g.get, probe)
    E.check('get returns', got.kind == 'ret', incomplete=True)
    E.check('the latest of that class and key', got.v is want)
    h = E.call(g.has, probe)
    E.check('has', h.kind == 'ret' and h.v is (want is not None))
    E.cover('none' if want is None else 'found')


@contract('C14', 'ograph.nokey')
def _(E):
    """An object without a primary key cannot be put or looked up."""
    g = OGraph()
    o = node(E, 'o', pk=0)
    o._id = None
    for f in (g.put, g.get, g.has):
        out = E.call(f, o)
        E.check('refused', out.kind == 'exc' and isinstance(out.v, UnlinkableJSONClassException))
    E.same('still empty', [x for x in g], [])


@contract('C14', 'ograph.construct')
def _(E):
    objs = [node(E, f'o{i}') for i in range(E.choice('n', [0, 1, 2]))]
    g = OGraph(objs)
    probe = node(E, 'p')
    E.check('holds the given objects', g.get(probe) is latest(objs, probe))
    one = node(E, 'q')
    E.check('or the given object', OGraph(one).get(one) is one)


@contract('C14', 'linked', covers=('one graph', 'conflict', 'no key'))
def _(E):
    """Linked objects that have keys are in one graph, theirs, where each is
    found; two objects for one class and key cannot be linked into one graph."""
    how = E.choice('how', ['assign', 'list', 'append', 'back'])
    nokey = E.choice('nokey', [None, 'a', 'b'])
    a = GrA(pk=E.str('a') if nokey != 'a' else None)
    b, c = GrB(pk=E.str('b') if nokey != 'b' else None), GrB(pk=E.str('c'))
    late = E.choice('late', [None, 'a', 'b', 'c'])
    if late is not None and late != nokey:
        # a key assigned after the object was made
        o = {'a': GrA, 'b': GrB, 'c': GrB}[late]()
        o.pk = E.str(late)
        a, b, c = [o if n == late else x for n, x in (('a', a), ('b', b), ('c', c))]
    conflict = nokey is None and b.pk == c.pk
    if nokey == 'a':
        E.assume(b.pk != c.pk)

    def link():
        if how == 'assign':
            a.one = c
            a.bs = [b]
        elif how == 'list':
            a.bs = [b, c]
        elif how == 'append':
            a.bs = []
            a.bs.append(b)
            a.bs.append(c)
        else:
            b.a = a
            c.a = a
    out = E.call(link)
    if nokey is not None:
        E.check('objects without keys are linked', out.kind == 'ret' and (b.a is a), detail=repr(out))
        E.cover('no key')
    elif conflict:
        E.check('refused', out.kind == 'exc' and isinstance(out.v, JSONClassGraphMergeConflictException))
        E.cover('conflict')
        return
    else:
        E.check('linked', out.kind == 'ret', incomplete=True, detail=repr(out))
        E.cover('one graph')
    objs = [o for o in (a, b, c) if o.pk is not None]
    for o in objs:
        E.check('each is in its graph', o._graph.get(o) is o)
    if nokey is None:
        for o in objs:
            E.check('one graph', o._graph is a._graph and a._graph.get(o) is o)
    E.check('nothing else', all([any([x is o for o in objs]) for x in a._graph]))


@contract('C14', 'ograph.iter.copy')
def _(E):
    objs = [node(E, f'o{i}', GA) for i in range(E.choice('n', [0, 1, 2]))]
    g = OGraph(objs)
    c = E.call(g.copy)
    E.check('returns', c.kind == 'ret', incomplete=True)
    E.same('a copy holds the same objects', [x for x in c.v], [x for x in g])
    more = node(E, 'm', GA)
    E.assume(latest(objs, more) is None)
    c.v.put(more)
    E.check('and is separate', g.get(more) is None and c.v.get(more) is more)
    d = {}
    for o in objs:
        d[str(o._id)] = o
    E.same('iteration gives every object once', [x for x in g], [x for x in d.values()])


@contract('C14', 'ograph.merge', covers=('merged', 'conflict'))
def _(E):
    """A merge holds the objects of both graphs and is the graph of each of
    them; two objects for one class and key are a conflict; the graphs given
    keep their objects."""
    shared = node(E, 's')
    a = [node(E, f'a{i}', GA) for i in range(E.choice('na', [0, 1]))]
    b = [node(E, f'b{i}', GA) for i in range(E.choice('nb', [0, 1, 2]))]
    if E.bool('share'):
        a, b = a + [shared], b + [shared]
    for i in range(len(a)):
        E.assume(latest(a[:i], a[i]) is None)
    for i in range(len(b)):
        E.assume(latest(b[:i], b[i]) is None)
    g, h = OGraph(a), OGraph(b)
    conflict = False
    for o in b:
        r = latest(a, o)
        if r is not None and r is not o:
            conflict = True
    out = E.call(g.merged_graph, h)
    for o in a:
        E.check('the first graph is unchanged', g.get(o) is o)
    for o in b:
        E.check('the second graph is unchanged', h.get(o) is o)
        E.check('nothing is added to the first', g.get(o) is latest(a, o))
    if conflict:
        E.check('refused', out.kind == 'exc' and isinstance(out.v, JSONClassGraphMergeConflictException))
        E.cover('conflict')
        return
    E.check('merged', out.kind == 'ret', incomplete=True, detail=repr(out))
    for o in a + b:
        E.check('holds the objects of both', out.v.get(o) is o)
        E.check('each knows the merged graph', o._graph is out.v)
    E.check('merging with itself changes nothing', E.call(g.merged_graph, g).v is g)
    E.cover('merged')


@contract('C14', 'mgraph.marks', covers=('marked', 'unmarked'))
def _(E):
    """An object is marked exactly when it, or an object of its class with
    the same primary key, was put; objects without a key are told apart."""
    n = E.choice('n', [0, 1, 2])
    objs = []
    for i in range(n):
        o = node(E, f'o{i}')
        if E.choice(f'k{i}', [True, False]):
            o._id = None
        objs.append(o)
    probe = node(E, 'p')
    if E.choice('pk', [True, False]):
        probe._id = None
    if n > 0 and E.choice('old', [True, False]):
        probe = objs[0]
    g = MGraph()
    for o in objs:
        E.check('put returns', E.call(g.put, o).kind == 'ret', incomplete=True)
    want = None
    for o in objs:
        if o is probe:
            want = o
        elif o.__class__ is probe.__class__ and o._id is not None and probe._id is not None:
            if str(o._id) == str(probe._id):
                want = o
    got = E.call(g.get, probe)
    E.check('get returns', got.kind == 'ret', incomplete=True, detail=repr(got))
    if probe._id is None:
        E.check('the object itself', got.v is want)
    else:
        E.check('the latest of that class and key', got.v is want)
    has = E.call(g.has, probe)
    E.check('has', has.kind == 'ret' and has.v is (want is not None))
    E.cover('unmarked' if want is None else 'marked')


@contract('C14', 'mgraph.iter')
def _(E):
    """A mark graph iterates over each object marked, once, even if objects
    are equal by value or one is marked with and without its key."""
    E.swap(GA, __eq__=lambda a, b: True, __hash__=lambda a: 1)
    E.swap(GB, __eq__=lambda a, b: True, __hash__=lambda a: 1)
    objs = []
    for i in range(E.choice('n', [0, 1, 2, 3])):
        o = node(E, f'o{i}')
        if E.choice(f'k{i}', [True, False]):
            o._id = None
        objs.append(o)
    g = MGraph()
    for o in objs:
        g.put(o)
    if len(objs) > 0 and objs[0]._id is None and E.choice('later', [True, False]):
        # the key is known only now
        objs[0]._id = 'z'
        for o in objs[1:]:
            E.assume(o._id is None or str(o._id) != 'z')
        g.put(objs[0])
    out = E.call(lambda: [x for x in g])
    E.check('iterates', out.kind == 'ret', incomplete=True, detail=repr(out))
    for i in range(len(objs)):
        o = objs[i]
        gone = False
        for p in objs[i + 1:]:
            if o._id is not None and p._id is not None and p.__class__ is o.__class__ and str(p._id) == str(o._id):
                gone = True
        n = 0
        for x in out.v:
            if x is o:
                n = n + 1
        E.check('each object once', n == 1 or gone and n <= 1)
    E.check('nothing else', len(out.v) <= len(objs))


@contract('C14', 'mgraph.bykey', covers=('ok',))
def _(E):
    """putp marks an object under a key it does not have yet; getp finds it
    by class and key."""
    g = MGraph()
    o = node(E, 'o')
    o._id = None
    pk = E.any('pk', ('str', 'int'))
    g.putp(pk, o)
    q = E.any('q', ('str', 'int'))
    for c in (GA, GB):
        want = o if c is o.__class__ and str(pk) == str(q) else None
        E.check('found by class and key', g.getp(c, q) is want)
    p = node(E, 'p')
    want = o if p.__class__ is o.__class__ and str(p._id) == str(pk) else None
    E.check('get by an object of that key', g.get(p) is want)
    E.iff('has by an object of that key', g.has(p), want is not None)
    E.cover('ok')


@contract('C14', 'histories', native=True, n=300)
def _(E):
    """Long histories against a plain dict."""
    g, d, m, md = OGraph(), {}, MGraph(), []
    objs = [node(E, f'o{i}', pk=E.choice(f'id{i}', [1, 2, '1', 'x', 3])) for i in range(8)]
    for i in range(E.int('steps', 0, 14)):
        o = E.choice(f's{i}', objs)
        if E.bool(f'w{i}'):
            g.put(o)
            d[key(o)] = o
            m.put(o)
            md.append(o)
        E.check('get', g.get(o) is d.get(key(o)))
        E.iff('marked', m.has(o), any(key(x) == key(o) for x in md))
    E.same('iteration', sorted(map(id, g)), sorted(map(id, d.values())))

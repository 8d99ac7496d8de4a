"""C21: a field annotation means the same however it is written, and means
what it says."""
from __future__ import annotations
import typing as tp
from datetime import date, datetime
from enum import Enum
from contracts.base import *
from jsonclasses import rtypes as R
from jsonclasses.excs import UnresolvedTypeNameException
from jsonclasses.types import Types, types
from jsonclasses.jsonclass import jsonclass
from jsonclasses.jsonenum import jsonenum
from jsonclasses.fdef import FType, FStore, Nullability
from jsonclasses.typing import linkto, linkedby, linkedthru

LEAVES = {'str': (str, FType.STR), 'int': (int, FType.INT), 'float': (float, FType.FLOAT), 'bool': (bool, FType.BOOL),
          'date': (date, FType.DATE), 'datetime': (datetime, FType.DATETIME), 'Any': (tp.Any, FType.ANY)}


@jsonenum(class_graph='c21')
class AnE(Enum):
    ONE = 1


@jsonclass(class_graph='c21')
class AnB:
    x: str = types.str


GRAPH = AnB.cdef.jconf.cgraph


# an annotation: a leaf name, 'AnB', 'AnE', ('list', t), ('dict', t), ('opt', t), ('union', [t...])
def rnd(E, n, depth=3, union=True):
    k = E.choice(n + '?', ['leaf', 'leaf', 'named', 'list', 'dict', 'union' if union else 'leaf'] if depth else ['leaf', 'named'])
    if k == 'leaf':
        return E.choice(n + 'l', sorted(LEAVES))
    if k == 'named':
        return E.choice(n + 'n', ['AnB', 'AnE'])
    if k == 'union':
        m = E.choice(n + 'm', [2, 3])
        parts, out = [], []
        for i in range(m):
            p = rnd(E, f'{n}u{i}', depth - 1, False)
            if p not in out:
                out.append(p)
        return ('union', out) if len(out) > 1 else out[0]
    t = rnd(E, n + 'i', depth - 1)
    if E.choice(n + 'o', [False, False, True]):
        t = ('opt', t)
    return (k, t)


def text(E, a, n):
    """One of the spellings of the annotation as text."""
    if isinstance(a, str):
        return a
    k, t = a
    if k == 'list':
        return E.choice(n + 'L', ['list', 'List']) + '[' + text(E, t, n + 'i') + ']'
    if k == 'dict':
        return E.choice(n + 'D', ['dict', 'Dict']) + '[str, ' + text(E, t, n + 'i') + ']'
    opt = False
    if k == 'opt':
        opt = True
        if isinstance(t, str) or t[0] != 'union':
            s = text(E, t, n + 'i')
            return E.choice(n + 'O', ['Optional[{}]', '{} | None', 'Union[{}, None]', 'None | {}']).format(s)
        k, t = t
    parts = [text(E, x, f'{n}{i}') for i, x in enumerate(t)]
    form = E.choice(n + 'U', ['|', 'U', 'O'])
    if form == 'O' and opt:
        return 'Optional[Union[' + ', '.join(parts) + ']]'
    if opt:
        parts.insert(E.int(n + 'at', 0, len(parts)), 'None')
    return ' | '.join(parts) if form == '|' else 'Union[' + ', '.join(parts) + ']'


def obj(E, a, n):
    """One of the spellings of the annotation as a type object."""
    if isinstance(a, str):
        if a in LEAVES:
            return LEAVES[a][0]
        c = {'AnB': AnB, 'AnE': AnE}[a]
        return E.choice(n + 'F', [c, a])
    k, t = a
    if k == 'list':
        return E.choice(n + 'L', [lambda x: list[x], lambda x: tp.List[x]])(obj(E, t, n + 'i'))
    if k == 'dict':
        return E.choice(n + 'D', [lambda x: dict[str, x], lambda x: tp.Dict[str, x]])(obj(E, t, n + 'i'))
    if k == 'opt':
        x = obj(E, t, n + 'i')
        if E.choice(n + 'P', [True, False]) and not isinstance(x, str) and x is not tp.Any:
            return x | None
        return tp.Optional[x]
    parts = [obj(E, x, f'{n}{i}') for i, x in enumerate(t)]
    return tp.Union[tuple(parts)]


def meaning(a, required=True):
    """What a declaration of the annotation is."""
    if isinstance(a, str):
        if a in LEAVES:
            return (LEAVES[a][1], required)
        return (FType.INSTANCE, AnB, required) if a == 'AnB' else (FType.ENUM, AnE, required)
    k, t = a
    if k == 'opt':
        return meaning(t, False)
    if k in ('list', 'dict'):
        return (FType.LIST if k == 'list' else FType.DICT, required, item(t))
    # typing caches unions whatever the order of their members
    return (FType.UNION, required, frozenset(meaning(x, False) for x in t))


def item(t):
    """Items are required unless they are marked nullable."""
    return meaning(t[1] if t[0] == 'opt' else t, True)


def found(fdef):
    """The meaning the field definition has."""
    ft = fdef.ftype
    if ft is FType.INSTANCE:
        return (ft, fdef.inst_cls, fdef.required)
    if ft is FType.ENUM:
        return (ft, fdef.enum_class, fdef.required)
    if ft in (FType.LIST, FType.DICT):
        return (ft, fdef.required, found(fdef.item_types.fdef))
    if ft is FType.UNION:
        return (ft, fdef.required, frozenset(found(named(t).fdef) for t in fdef.raw_union_types))
    return (ft, fdef.required)


def named(t):
    t.fdef._cdef = AnB.cdef
    return R.rnamedtypes(t, GRAPH, 'C')


def resolve(t):
    t.fdef._cdef = AnB.cdef
    t = R.rnamedtypes(t, GRAPH, 'C')
    t.fdef._cdef = AnB.cdef
    return found(t.fdef)


@contract('C21', 'text', native=True, n=3000)
def _(E):
    a = rnd(E, 'a')
    if E.choice('opt', [False, True]):
        a = ('opt', a)
    s = text(E, a, 't')
    got = resolve(R.rtypes(s))
    E.check('the meaning of the text', got == meaning(a), detail=f'{s}: {got}')


@contract('C21', 'objects', native=True, n=3000)
def _(E):
    a = rnd(E, 'a')
    if E.choice('opt', [False, True]):
        a = ('opt', a)
    t = obj(E, a, 't')
    got = resolve(R.rtypes(t))
    E.check('the meaning of the type', got == meaning(a), detail=f'{t}: {got}')


COUNT = [0]


@contract('C21', 'classes', native=True, n=150)
def _(E):
    """Fields of classes, annotated with texts and with type objects."""
    names = ['fa', 'fb', 'fc']
    anns, asts = {}, {}
    for n in names:
        a = rnd(E, n)
        if E.choice(n + 'opt', [False, True]):
            a = ('opt', a)
        asts[n] = a
        anns[n] = text(E, a, n + 't') if E.choice(n + 'as', [True, False]) else obj(E, a, n + 't')
    COUNT[0] += 1
    c = jsonclass(class_graph='c21')(type(f'AnC{COUNT[0]}', (), {'__annotations__': anns}))
    for n in names:
        f = c.cdef.field_named(n).fdef
        got = found(f) if f.ftype is not FType.UNION else (f.ftype, f.required)
        want = meaning(asts[n])
        E.check('the field', got == (want if f.ftype is not FType.UNION else want[:2]), detail=f'{anns[n]}: {got}')


SPEC = {'linkto': linkto, 'linkedby': linkedby('other'), 'linkedthru': linkedthru('other')}


@contract('C21', 'links')
def _(E):
    """A link in an annotation: the plain declaration, linked."""
    t = E.choice('type', ['AnB', 'list', 'optlist'])
    if t == 'AnB':
        base = types.objof('AnB')
    else:
        base = types.listof('AnB')
    how = E.choice('how', ['linkto', 'linkedby', 'linkedthru'])
    key = E.choice('key', ['other', 'a_b', "x"])
    spec = {'linkto': linkto, 'linkedby': linkedby(key), 'linkedthru': linkedthru(key)}[how]
    got = R.apply_link_specifier(base, spec)
    E.check('store', got.fdef.fstore is (FStore.LOCAL_KEY if how == 'linkto' else FStore.FOREIGN_KEY))
    if how == 'linkto':
        E.check('no foreign key', got.fdef.foreign_key is None and got.fdef.use_join_table is None)
    else:
        E.check('foreign key', got.fdef.foreign_key == key and got.fdef.use_join_table is (how == 'linkedthru'))
    nn = how == 'linkedthru' or how == 'linkedby' and t != 'AnB'
    E.check('lists are never null', got.fdef.collection_nullability is (Nullability.NONNULL if nn else Nullability.NULLABLE))
    E.check('type', got.fdef.ftype is base.fdef.ftype)
    E.check('the original is left alone', base.fdef.fstore is FStore.EMBEDDED)
    bad = E.call(R.apply_link_specifier, base, E.choice('bad', ['', 'link', 'xlinkto', "linkedin('a')"]))
    E.check('anything else is refused', bad.kind == 'exc' and isinstance(bad.v, TypeError))


@contract('C21', 'link.texts')
def _(E):
    """Annotated in texts and type objects."""
    how = E.choice('how', ['linkto', 'linkedby', 'linkedthru'])
    spec = SPEC[how]
    form = E.choice('form', ['AnB', 'list[AnB]', 'Optional[AnB]', 'outer', 'outer list'])
    O = {'AnB': lambda: tp.Annotated[AnB, spec], 'list[AnB]': lambda: tp.Annotated[list[AnB], spec],
         'Optional[AnB]': lambda: tp.Annotated[tp.Optional[AnB], spec],
         'outer': lambda: tp.Optional[tp.Annotated[AnB, spec]],
         'outer list': lambda: tp.Optional[tp.Annotated[list[AnB], spec]]}
    T = {'outer': f'Optional[Annotated[AnB, {spec}]]', 'outer list': f'Optional[Annotated[list[AnB], {spec}]]'}
    kind = E.choice('kind', ['text', 'type'])
    t = R.rtypes(T.get(form, f'Annotated[{form}, {spec}]') if kind == 'text' else O[form]())
    many = 'list' in form
    E.check('store', t.fdef._fstore is (FStore.LOCAL_KEY if how == 'linkto' else FStore.FOREIGN_KEY), detail=form)
    E.check('key', t.fdef._foreign_key == (None if how == 'linkto' else 'other'))
    E.check('required', t.fdef._required is (form in ('AnB', 'list[AnB]')), detail=form)
    E.check('many', (t.fdef._ftype is FType.LIST) is many, detail=form)


@contract('C21', 'names', covers=('class', 'enum', 'unknown', 'resolved'))
def _(E):
    """A name stands for the class, else the enum, of that name in the
    graph; an unknown name is reported."""
    n = E.str('name')
    isc, ise = E.bool('class'), E.bool('enum')
    cdef = AnB.cdef
    graph = E.obj(has=lambda x: isc if E.is_same(x, n) else False, fetch=lambda x: cdef,
                  has_enum=lambda x: ise if E.is_same(x, n) else False, fetch_enum=lambda x: AnE)
    t = types.required
    if E.choice('resolved', [False, True]):
        E.check('nothing to resolve', R.rnamedtypes(t, graph, 'C') is t)
        E.cover('resolved')
        return
    E.assume(n != '')
    t.fdef._unresolved = True
    t.fdef._unresolved_name = n
    out = E.call(R.rnamedtypes, t, graph, 'C')
    if isc:
        E.check('the class', out.kind == 'ret' and out.v.fdef._ftype is FType.INSTANCE
                and out.v.fdef._raw_inst_types is AnB)
        E.cover('class')
    elif ise:
        E.check('the enum', out.kind == 'ret' and out.v.fdef._ftype is FType.ENUM
                and out.v.fdef._raw_enum_class is AnE)
        E.cover('enum')
    else:
        E.check('reported', out.kind == 'exc' and isinstance(out.v, UnresolvedTypeNameException))
        E.cover('unknown')
        return
    E.check('resolved', out.v.fdef._unresolved is False and out.v.fdef._unresolved_name is None)
    E.check('still required', out.v.fdef._required is True)


def stand_in(s, opt=False):
    """An arbitrary declaration for the text s."""
    return types.match(s).default(opt)


PARTS = ['A', 'int', 'list[A]', 'dict[str, A]', 'dict[str, list[A | B]]', 'A | None', 'Optional[A]', 'Union[A, B]',
         'dict[str, dict[str, A]]', 'list[Union[A, dict[str, B]]]']


def reading(t):
    vs = list(t.modifier.vs)
    return [(type(v).__name__, *[x for x in vars(v).values() if isinstance(x, (str, bool))]) for v in vs]


@contract('C21', 'text.shapes', n=600, weight=2)
def _(E):
    """One reading step, whatever the parts mean: brackets are read whole,
    None makes optional, the rest is passed on part by part."""
    opt = E.choice('opt', [False, True])
    shape = E.choice('shape', ['list[{}]', 'List[{}]', 'dict[str, {}]', 'Dict[str, {}]', 'Optional[{}]', '{} | {}',
                               '{} | None', 'None | {}', 'Union[{}, {}]', 'Union[{}, None]', 'Union[{}, {}, None]',
                               '{} | {} | None', '{} | None | {}'])
    x = E.choice('x', PARTS)
    y = E.choice('y', PARTS[:1] if shape.count('{}') == 1 else PARTS[3:])
    bar = shape.count('|')
    E.assume(not (bar and ('|' in x and '[' not in x or '|' in y and '[' not in y)))
    n = shape.count('{}')
    s = shape.format(*([x] if n == 1 else [x, y]))
    E.swap(R, str_to_types=stand_in)
    out = E.call(R_STR, s, opt)
    E.check('read', out.kind == 'ret', detail=s)
    t = out.v
    o = opt or 'None' in shape or shape.startswith('Optional')
    if n == 1 and shape[:4] not in ('list', 'List', 'dict', 'Dict'):
        E.check('passed on', reading(t) == reading(stand_in(x, o)), detail=s)
        return
    last = type(t.modifier.vs[-1]).__name__
    E.check('required unless optional', (last == 'RequiredModifier') is (not o), detail=s)
    if n == 1:
        it = t.fdef._raw_item_types
        E.check('the item', reading(it) == reading(stand_in(x, False)), detail=s)
        E.check('the kind', t.fdef._ftype is (FType.LIST if shape[0] in 'lL' else FType.DICT))
    else:
        got = t.fdef._raw_union_types
        E.check('the members', len(got) == 2 and reading(got[0]) == reading(stand_in(x, True))
                and reading(got[1]) == reading(stand_in(y, True)), detail=s)


R_STR = R.str_to_types

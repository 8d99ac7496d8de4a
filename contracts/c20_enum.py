"""C20: enum fields take in exactly the configured spellings and put out what
they take in."""
from __future__ import annotations
from enum import Enum
from contracts.base import *
from jsonclasses.cgraph import CGraph
from jsonclasses.types import types
from jsonclasses.jsonclass import jsonclass
from jsonclasses.jsonenum import jsonenum
from jsonclasses.fdef import EnumInput, EnumOutput
from jsonclasses.modifiers.enum_modifier import EnumModifier


class Col(Enum):
    RED = 1
    GREEN = 'GREEN_VALUE'
    BLUE = 'RED'            # a value that is another member's name
    LIGHT_BLUE = 0


class Oth(Enum):
    RED = 1


INPUTS = {
    'plain': (lambda t: t.enum(Col), EnumInput.NAME),
    'name': (lambda t: t.inputname.enum(Col), EnumInput.NAME),
    'value': (lambda t: t.inputvalue.enum(Col), EnumInput.VALUE),
    'lname': (lambda t: t.inputlname.enum(Col), EnumInput.LOWERCASE_NAME),
    'all': (lambda t: t.inputall.enum(Col), EnumInput.ALL),
    'name+value': (lambda t: t.inputname.inputvalue.enum(Col), EnumInput.NAME | EnumInput.VALUE),
    'value+lname': (lambda t: t.inputvalue.inputlname.enum(Col), EnumInput.VALUE | EnumInput.LOWERCASE_NAME),
    'lname+name': (lambda t: t.inputlname.inputname.enum(Col), EnumInput.NAME | EnumInput.LOWERCASE_NAME),
}
OUTPUTS = {
    'plain': (lambda t: t.enum(Col), EnumOutput.NAME),
    'name': (lambda t: t.enum(Col).outputname, EnumOutput.NAME),
    'value': (lambda t: t.enum(Col).outputvalue, EnumOutput.VALUE),
    'lname': (lambda t: t.enum(Col).outputlname, EnumOutput.LOWERCASE_NAME),
    'value before': (lambda t: t.outputvalue.enum(Col), EnumOutput.VALUE),
    'lname before': (lambda t: t.outputlname.enum(Col), EnumOutput.LOWERCASE_NAME),
    'last': (lambda t: t.enum(Col).outputvalue.outputlname, EnumOutput.LOWERCASE_NAME),
}


@contract('C20', 'definitions')
def _(E):
    """Input and output spellings as the definition says; input by name and
    output by name where it says nothing."""
    n = E.choice('input', sorted(INPUTS))
    t = INPUTS[n][0](types)
    E.check('input', t.fdef.enum_input == INPUTS[n][1], detail=n)
    E.check('output', t.fdef.enum_output == EnumOutput.NAME)
    n = E.choice('output', sorted(OUTPUTS))
    t = OUTPUTS[n][0](types)
    E.check('output', t.fdef.enum_output == OUTPUTS[n][1], detail=n)
    E.check('input', t.fdef.enum_input == EnumInput.NAME)
    E.check('the enum', t.fdef.raw_enum_class is Col)


def env(E, v, inp=EnumInput.NAME, out=EnumOutput.NAME):
    by = E.choice('by', ['class', 'name'])
    m = EnumModifier(Col if by == 'class' else 'Col')
    graph = E.obj(fetch_enum=lambda n: Col if n == 'Col' else None)
    owner = mkowner(E, E.obj(cgraph=graph))
    return m, mkctx(E, v, root=owner, owner=owner, fdef=E.obj(enum_input=inp, enum_output=out))


@contract('C20', 'input', covers=('taken', 'unknown'))
def _(E):
    """null and members stay; a value, name or lower-case name is taken
    exactly when it is so configured and there is such a member; anything
    else is reported."""
    v = E.choice('v', [None, Col.RED, Col.BLUE, Oth.RED, 'text', 'other'])
    if v == 'text':
        v = E.str('text')
    elif v == 'other':
        v = E.any('other', ('bool', 'int', 'float', 'list', 'dict', 'date', 'opaque'))
    inp = E.choice('input', [EnumInput(i) for i in range(1, 8)])
    m, ctx = env(E, v, inp)
    out = E.call(m.transform, ctx)
    want = []
    if v is None or isinstance(v, Col):
        want = [v]
    else:
        for c in Col:
            if EnumInput.VALUE in inp and v == c.value and len(want) == 0:
                want.append(c)
        if isinstance(v, str):
            for c in Col:
                if EnumInput.NAME in inp and v == c.name and len(want) == 0:
                    want.append(c)
            for c in Col:
                if EnumInput.LOWERCASE_NAME in inp and v.upper() == c.name and len(want) == 0:
                    want.append(c)
    if rejects(E, out, 'transform'):
        E.check('reported only when unknown', len(want) == 0)
        one_message(E, out, ctx)
        E.cover('unknown')
    else:
        E.check('taken', len(want) == 1 and out.v is want[0])
        E.cover('taken')


@contract('C20', 'validate', covers=('accept', 'reject'))
def _(E):
    v = E.choice('v', [None, Col.RED, Col.LIGHT_BLUE, Oth.RED, 'any'])
    if v == 'any':
        v = E.any('v', ('bool', 'int', 'float', 'str', 'list', 'dict', 'date', 'opaque'))
    m, ctx = env(E, v)
    out = E.call(m.validate, ctx)
    ok = v is None or isinstance(v, Col)
    r = rejects(E, out)
    E.iff('exactly members', r, not ok)
    if r:
        one_message(E, out, ctx)
    E.cover('reject' if r else 'accept')


@contract('C20', 'output')
def _(E):
    v = E.choice('v', [None, Col.RED, Col.GREEN, Col.BLUE, Col.LIGHT_BLUE])
    o = E.choice('output', [EnumOutput.NAME, EnumOutput.VALUE, EnumOutput.LOWERCASE_NAME])
    m, ctx = env(E, v, out=o)
    out = E.call(m.tojson, ctx)
    E.check('returns', out.kind == 'ret')
    if v is None:
        E.same('null', out.v, None)
    else:
        E.same('the spelling', out.v, {EnumOutput.NAME: v.name, EnumOutput.VALUE: v.value,
                                       EnumOutput.LOWERCASE_NAME: v.name.lower()}[o])


@contract('C20', 'round.trip')
def _(E):
    """What is put out is taken in again as the same member."""
    v = E.choice('v', [None, Col.RED, Col.GREEN, Col.BLUE, Col.LIGHT_BLUE])
    o, i = E.choice('mode', [(EnumOutput.NAME, EnumInput.NAME), (EnumOutput.VALUE, EnumInput.VALUE),
                             (EnumOutput.LOWERCASE_NAME, EnumInput.LOWERCASE_NAME),
                             (EnumOutput.VALUE, EnumInput.ALL), (EnumOutput.LOWERCASE_NAME, EnumInput.ALL),
                             (EnumOutput.NAME, EnumInput.NAME | EnumInput.LOWERCASE_NAME)])
    m, ctx = env(E, v, i, o)
    j = m.tojson(ctx)
    E.check('the same member', m.transform(ctx.nval(j)) is v, detail=f'{v} {j!r}')


@jsonenum(class_graph='c20')
class Sea(Enum):
    NORTH = 'n'
    SOUTH = 's'


@jsonclass(class_graph='c20')
class EnA:
    a: Sea | None = types.enum(Sea)
    b: Sea | None = types.enum('Sea').inputall.outputvalue
    c: list[Sea] = types.listof(types.enum('Sea').inputlname.outputlname)
    d: dict[str, Sea] = types.dictof(types.enum(Sea).outputvalue.inputvalue)


@contract('C20', 'objects', native=True, n=400)
def _(E):
    """Whole objects: input and output, by class and by name, in lists and
    dicts."""
    x = E.choice('x', list(Sea))
    y = E.choice('y', list(Sea))
    o = EnA(a=E.choice('ax', [x, x.name]), b=E.choice('bx', [x, x.name, x.value, x.name.lower()]),
            c=[x.name.lower(), y], d={'k': x, 'l': y.value})
    E.check('members', o.a is x and o.b is x and list(o.c) == [x, y] and dict(o.d) == {'k': x, 'l': y})
    o.validate()
    j = o.tojson()
    E.check('output', j == {'a': x.name, 'b': x.value, 'c': [x.name.lower(), y.name.lower()],
                            'd': {'k': x.value, 'l': y.value}}, detail=repr(j))
    p = EnA(**j)
    E.check('round trip', (p.a, p.b, list(p.c), dict(p.d)) == (o.a, o.b, list(o.c), dict(o.d)))
    bad = E.choice('bad', ['a', 'b', 'c', 'd'])
    val = E.choice('val', ['nope', '', 'North', 3, x.value if bad == 'a' else 'x'])
    kw = {'c': {'c': [val]}, 'd': {'d': {'k': val}}}.get(bad, {bad: val})
    if not (bad == 'c' and val == 'North') and not (bad == 'b' and val == 'North'):
        out = E.call(EnA, **kw)
        E.check('unknown input is reported', out.kind == 'exc' and isinstance(out.v, ValidationException),
                detail=f'{bad} {val!r}')
        E.check('at its place', list(out.v.keypath_messages) == [{'c': 'c.0', 'd': 'd.k'}.get(bad, bad)])

"""C03: strict input accepts exactly the known keys."""
from __future__ import annotations
import dataclasses
from contracts.base import *
from jsonclasses.modifiers.instanceof_modifier import InstanceOfModifier
from jsonclasses.fdef import Strictness
from jsonclasses.jconf import JConf
from jsonclasses.cdef import CDef
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types


@contract('C03', 'check')
def _(E):
    """In strict mode an unknown key is reported before the object is
    touched; otherwise unknown keys are ignored. A strictness mark on the
    field goes before the setting of the class."""
    touched = E.log()
    names = [E.str('n1'), E.str('n2'), E.str('n3')]
    mark = E.choice('mark', [*Strictness, None])
    conf = E.choice('conf', [True, False])
    cdef = E.obj(fields=[], name='D', primary_field=None, available_names=names,
                 jconf=E.obj(strict_input=conf))
    D = type('D', (), {'cdef': cdef, '__is_jsonclass__': True})
    dest = E.obj(cls=D, _id=None, cdef=cdef, **{'*setattr*': lambda n, v: touched.add(n)})
    val = {}
    for i in range(E.choice('nkeys', [0, 1, 2, 3])):
        k = E.str(f'k{i}')
        E.assume(k != '')          # an empty key has no key path of its own
        val[k] = E.any(f'v{i}', ('none', 'int', 'str'))
    path = E.choice('path', [[], ['a'], ['a', 0, 'b']])
    ctx = mkctx(E, val, original=dest, keypath=path,
                fdef=E.obj(inst_cls=D, strictness=mark) if mark is not None else E.obj(
                    inst_cls=D, strictness=Strictness.UNDEFINED))
    out = E.call(InstanceOfModifier(D).transform, ctx)
    strict = conf
    if mark is Strictness.STRICT:
        strict = True
    if mark is Strictness.UNSTRICT:
        strict = False
    bad = [k for k in val if k not in names]
    E.same('the object is not touched', touched, E.log())
    if strict and len(bad) > 0:
        E.check('refused', out.kind == 'exc' and isinstance(out.v, ValidationException))
        pre = '.'.join([str(x) for x in path])
        E.same('one key is named', [k for k in out.v.keypath_messages],
               [bad[0] if pre == '' else pre + '.' + bad[0]])
        E.check('the root', out.v.root is ctx.root)
    else:
        E.check('accepted', out.kind == 'ret' and out.v is dest, detail=repr(out))


@jsonclass(class_graph='c03')
class StA:
    id: int = types.int.primary.required
    two_words: str | None
    plain: str | None
    ro: str | None = types.str.readonly
    owner: StB = types.objof('StB').linkto
    many: list[StB] = types.listof('StB').linkto
    others: list[StB] = types.listof('StB').linkto


@jsonclass(class_graph='c03')
class StB:
    id: int = types.int.primary.required
    name: str | None


@jsonclass(class_graph='c03', strict_input=False)
class StL:
    id: int = types.int.primary.required
    name: str | None


@jsonclass(class_graph='c03', output_key_strategy='identical')
class StI:
    two_words: str | None


KNOWN = ['id', 'two_words', 'twoWords', 'plain', 'ro', 'owner', 'many', 'owner_id', 'ownerId',
         'many_ids', 'manyIds', 'others', 'other_ids', 'otherIds']
for c in (StA, StB, StL, StI):
    c.cdef.available_names


@contract('C03', 'names')
def _(E):
    E.same('fields, JSON names and reference keys', sorted(StA.cdef.available_names), sorted(KNOWN))
    E.same('plain keys', sorted(StI.cdef.available_names), ['two_words'])
    E.same('names of update', sorted(StA.cdef.update_names),
           sorted(['id', 'two_words', 'plain', 'ro', 'owner', 'many', 'owner_id', 'many_ids', 'others', 'other_ids']))


MAKES = {
    'plain': lambda: types.str,
    'temp': lambda: types.str.temp,
    'calc': lambda: types.getter(lambda x: 1),
    'one': lambda: types.objof('StB').linkto,
    'one back': lambda: types.objof('StB').linkedby('x'),
    'list': lambda: types.listof('StB').linkto,
    'list back': lambda: types.listof('StB').linkedby('x'),
    'joined': lambda: types.listof('StB').linkedthru('x'),
}


def classdef(E, names, makes, js, rk):
    """The definition of a class with these fields; in the proof the names
    are arbitrary texts."""
    ts = [MAKES[m]() for m in makes]
    conf = JConf(cgraph='c03', output_key_strategy=js, input_key_strategy=None, strict_input=None,
                 ref_name_strategy=rk, validate_all_fields=None, abstract=None,
                 reset_all_fields=None, output_null=None, on_create=None, on_update=None,
                 on_delete=None, can_create=None, can_update=None, can_delete=None, can_read=None)
    if E.symbolic:
        fs = [E.obj(name=names[i], default=ts[i], type='Any', default_factory=dataclasses.MISSING)
              for i in range(len(ts))]
        E.assume_contract(dataclasses.fields, lambda c: tuple(fs))
        return CDef(type('N', (), {'__is_jsonclass__': True}), conf), ts
    ns = {n: t for n, t in zip(names, ts)}
    ns['__annotations__'] = {n: 'Any' for n in names}
    return CDef(dataclasses.dataclass(init=False)(type('N', (), ns)), conf), ts


@contract('C03', 'names.any', covers=('one', 'list', 'joined'))
def _(E):
    """For every list of fields: the names, their JSON names, and for the
    references stored by key the reference key and its JSON name."""
    if E.symbolic:
        js, ref = E.uf('json', 'str'), E.uf('ref', 'str')
    else:
        def js(x):
            return x + 'J'

        def ref(x):
            return x + '_r'
    n = E.choice('n', [0, 1, 2])
    makes = [E.choice(f'make{i}', sorted(MAKES)) for i in range(n)]
    names = [E.str(f'name{i}') if E.symbolic else 'ab'[i] for i in range(n)]
    for a in range(n):
        for b in range(a):
            E.assume(names[a] != names[b])
    cdef, _ = classdef(E, names, makes, js, lambda f: ref(f.name))
    single = [ref(names[i]) for i in range(n) if makes[i] == 'one']
    many = [ref(names[i]) for i in range(n) if makes[i] == 'list']
    joined = [ref(names[i]) for i in range(n) if makes[i] == 'joined']

    refs = single + many
    what, got, want = E.choice('ask', [
        ('input names', lambda: cdef.available_names,
         lambda: names + [js(x) for x in names] + refs + [js(x) for x in refs]),
        ('names of update', lambda: cdef.update_names, lambda: names + refs),
        ('reference names', lambda: cdef.reference_names, lambda: single),
        ('JSON reference names', lambda: cdef.camelized_reference_names, lambda: [js(x) for x in single]),
        ('list reference names', lambda: cdef.list_reference_names, lambda: many),
        ('JSON list reference names', lambda: cdef.camelized_list_reference_names,
         lambda: [js(x) for x in many]),
        ('joined reference names', lambda: cdef.virtual_reference_names, lambda: joined),
        ('JSON joined reference names', lambda: cdef.camelized_virtual_reference_names,
         lambda: [js(x) for x in joined]),
        ('fields', None, None)])
    if got is not None:
        got, want = got(), want()
        if not E.symbolic:
            E.same(what, sorted(got), sorted(set(want)))
        x = E.str('probe')
        E.iff(what, x in got, x in want)
        return
    for i in range(n):
        E.check('the field', cdef.fields[i] is cdef.field_named(names[i]))
        if makes[i] in ('one', 'list', 'joined'):
            later = [ref(names[k]) for k in range(i + 1, n) if makes[k] in ('one', 'list', 'joined')]
            if ref(names[i]) not in later:
                E.check('the field of a reference name',
                        cdef.rname_to_jfield(ref(names[i])) is cdef.fields[i])
                if makes[i] == 'joined':
                    E.check('the field of a joined name',
                            cdef.virtual_reference_fields[ref(names[i])] is cdef.fields[i])
            E.cover(makes[i])


@contract('C03', 'real')
def _(E):
    """An unknown key, whatever it is, refuses the whole input."""
    o = StA(id=1, plain='p')
    k = E.str('key')
    E.assume(k not in ['id', 'plain'])
    known = k in KNOWN
    v = None if known else E.any('v', ('none', 'int', 'str'))
    first = E.choice('first', [True, False])
    ctx = Ctx.rootctx(o, CtxCfg(fill_dest_blanks=False), {k: v, 'plain': 'q'} if first else {'plain': 'q', k: v})
    out = E.call(InstanceOfModifier(StA).transform, ctx)
    if known:
        E.check('accepted', out.kind == 'ret', detail=repr(out))
        E.same('written', o.plain, 'q')
    else:
        E.check('refused', out.kind == 'exc' and isinstance(out.v, ValidationException), detail=repr(out))
        E.same('at the key', [x for x in out.v.keypath_messages], [k])
        E.same('nothing written', o.plain, 'p')


@contract('C03', 'real.lenient')
def _(E):
    o = StL(id=1, name='p')
    k = E.str('key')
    E.assume(k not in ['id', 'name'])
    ctx = Ctx.rootctx(o, CtxCfg(fill_dest_blanks=False), {k: E.any('v', ('none', 'int', 'str')), 'name': 'q'})
    out = E.call(InstanceOfModifier(StL).transform, ctx)
    E.check('accepted', out.kind == 'ret', detail=repr(out))
    E.same('written', o.name, 'q')
    E.check('and nothing else', o.id == 1 and len([x for x in o.__dict__ if not x.startswith('_')]) == 2)


@jsonclass(class_graph='c03')
class StTop:
    one: StB = types.objof('StB').required
    loose: StL = types.objof('StL')
    strict: StL = types.objof('StL').strict
    lst: list[StB] = types.listof('StB')
    mp: dict[str, StL] = types.dictof(types.objof('StL').strict)
    mix: list[dict[str, StB]] = types.listof(types.dictof('StB'))


@contract('C03', 'real.nested', native=True, n=400)
def _(E):
    """An unknown key at any depth."""
    bad = []

    def obj(n, path, strict):
        d = {'id': E.int(n + 'id', 1, 5), 'name': 'x'}
        if E.int(n + 'b', 0, 6) == 0:
            d['nope'] = 1
            if strict:
                bad.append(path + '.nope')
        return d
    data = {}
    if E.bool('one'):
        data['one'] = obj('one', 'one', True)
    if E.bool('loose'):
        data['loose'] = obj('loose', 'loose', False)
    if E.bool('strict'):
        data['strict'] = obj('strict', 'strict', True)
    if E.bool('lst'):
        data['lst'] = [obj(f'l{i}', f'lst.{i}', True) for i in range(E.int('nl', 0, 3))]
    if E.bool('mp'):
        data['mp'] = {k: obj('m' + k, 'mp.' + k, True) for k in 'abc'[:E.int('nm', 0, 3)]}
    if E.bool('mix'):
        data['mix'] = [{k: obj(f'x{i}{k}', f'mix.{i}.{k}', True) for k in 'ab'} for i in range(E.int('nx', 0, 2))]
    if E.int('top', 0, 5) == 0:
        data['nope'] = 2
        bad.insert(0, 'nope')
    way = E.bool('ctor')
    o = None if way else StTop()
    out = E.call((lambda: StTop(**data)) if way else (lambda: o.set(**data)))
    if bad:
        E.check('refused', out.kind == 'exc' and isinstance(out.v, ValidationException), detail=repr(out))
        E.same('the first unknown key is named', list(out.v.keypath_messages), bad[:1])
    else:
        E.check('accepted', out.kind == 'ret', detail=repr(out))

"""C16: key paths name the place of a value, in errors and in contexts."""
from __future__ import annotations
from contracts.base import *
from jsonclasses.jsonclass import jsonclass
from jsonclasses.types import types
from jsonclasses.keypath import (concat_keypath, keypath_drop_last, initial_keypath,
                                 initial_keypaths, single_key_args, compound_key_args,
                                 keypath_split, reference_key, identical_key)
from jsonclasses.fdef import FStore, FType

STANDINS = True     # some objects here only have what the code is known to ask


# ------------------------------------------------------------ the algebra
def part(E, n):
    return E.str(n) if E.choice(n + 'kind', [True, False]) else E.int(n + 'i')


@contract('C16', 'concat_keypath', covers=('some', 'none'))
def _(E):
    n = E.choice('n', [0, 1, 2, 3])
    parts = [part(E, f'p{i}') for i in range(n)]
    out = E.call(concat_keypath, *parts)
    E.check('returns', out.kind == 'ret', incomplete=True)
    want = ''
    first = True
    for p in parts:
        s = str(p)
        if s != '':
            want = s if first else want + '.' + s
            first = False
    E.same('the non-empty parts, joined by dots', out.v, want)
    E.cover('none' if first else 'some')


def nodots(s):
    return '.' not in s


@contract('C16', 'keypath.parts')
def _(E):
    """A path built of dot-free parts is taken apart at those parts."""
    if E.symbolic:
        kp = E.str('kp')
        E.same('initial', initial_keypath(kp), kp.split('.')[0])
        E.same('without the last', keypath_drop_last(kp), '.'.join(kp.split('.')[:-1]))
        return
    parts = E.list('parts', lambda e: e.str('p'))
    E.assume(all(nodots(p) and p for p in parts) and parts)
    kp = concat_keypath(*parts)
    E.same('joined', kp, '.'.join(parts))
    E.same('initial', initial_keypath(kp), parts[0])
    E.same('without the last', keypath_drop_last(kp), '.'.join(parts[:-1]))
    E.same('initials of many', initial_keypaths({kp, 'x.y', 'x'}), {parts[0], 'x'})
    E.same('empty', keypath_drop_last(''), '')
    E.same('split', keypath_split(kp), [q for p in parts for q in p.replace('[', '.').replace(']', '.').split('.') if q])


@contract('C16', 'keypath.roundtrip', native=True)
def _(E):
    parts = [p for p in E.list('parts', lambda e: e.str('p')) if p and not any(c in p for c in '.[]')]
    E.assume(len(parts) > 0)
    kp = concat_keypath(*parts)
    E.same('taken apart', keypath_split(kp), parts)
    E.same('initial and rest', concat_keypath(keypath_drop_last(kp), parts[-1]), kp)
    br = parts[0] + ''.join(f'[{p}]' for p in parts[1:])
    E.same('brackets are dots', keypath_split(br), parts)


@contract('C16', 'compound.args')
def _(E):
    """Arguments are split into plain keys and key paths, none lost."""
    d = E.dict('d')
    s = E.call(single_key_args, d)
    c = E.call(compound_key_args, d)
    E.check('return', s.kind == 'ret' and c.kind == 'ret', incomplete=True)

    def comp(k):
        return '.' in k or '[' in k or ']' in k
    E.same('plain keys', [x for x in s.v.items()], [x for x in d.items() if not comp(x[0])])
    E.same('key paths', [x for x in c.v.items()], [x for x in d.items() if comp(x[0])])


@contract('C16', 'reference_key')
def _(E):
    name = E.str('name')
    store = E.choice('store', list(FStore))
    ftype = E.choice('ftype', list(FType))
    out = E.call(reference_key, E.obj(name=name, fdef=E.obj(fstore=store, ftype=ftype)))
    ref = store in (FStore.FOREIGN_KEY, FStore.LOCAL_KEY)
    if not ref or ftype not in (FType.LIST, FType.INSTANCE):
        E.check('other fields have none', out.kind == 'exc' and isinstance(out.v, ValueError))
        return
    E.check('returns', out.kind == 'ret', incomplete=True)
    if ftype is FType.INSTANCE:
        E.same('name_id', out.v, name + '_id')
    else:
        E.check('ends with _ids', out.v.endswith('_ids'))


# --------------------------------------------------------------- contexts
KPS = ['keypathr', 'keypatho', 'keypathp', 'keypathh']


def anyctx(E):
    """A context with arbitrary contents."""
    ek = E.uf('output_key')
    owner = mkowner(E, E.obj(output_key_strategy=ek), n='owner')
    a = dict(root=E.obj(n='root'), owner=owner, parent=E.obj(n='parent'), holder=E.obj(n='holder'),
             val=E.any('val'), original=E.any('orig'), ctxcfg=CtxCfg(), fdef=E.obj(n='fdef'),
             operator=E.any('operator'), mgraph=MGraph(), idchain=E.list_any('idchain'),
             passin=E.any('passin'))
    for k in KPS:
        a[k] = E.list_any(k)
        a['f' + k] = E.list_any('f' + k)
    return Ctx(**a), a, ek


def derive(name, call, changed):
    """call(ctx, E, x): derive; changed(a, ek, x): the attributes that differ
    from the source context's; everything else is carried over."""
    def fn(E):
        ctx, a, ek = anyctx(E)
        x = dict(val=E.any('nv'), key=part(E, 'key'), fdef=E.obj(n='nfdef'), c=E.str('c'),
                 o=E.obj(n='o'), p=E.list_any('p'))
        out = E.call(call, ctx, x)
        E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
        want = dict(a)
        want.update(changed(a, ek, x))
        for k, w in want.items():
            if k in ('ctxcfg', 'mgraph', 'root', 'owner', 'parent', 'holder', 'fdef'):
                E.check(k, getattr(out.v, k) is w)
            else:
                E.same(k, getattr(out.v, k), w)
        for k in a:
            E.check('the source is unchanged', k in ('val', 'original', 'operator', 'passin')
                    or getattr(ctx, k) is a[k])
    contract('C16', 'ctx.' + name)(fn)


def grow(a, ek, x, names=KPS):
    d = {}
    for k in names:
        d[k] = [*a[k], x['key']]
        d['f' + k] = [*a['f' + k], ek(x['key'])]
    return d


def reset(a, ek, x):
    return dict(grow(a, ek, x, ['keypathr']), keypatho=[], fkeypatho=[], keypathp=[], fkeypathp=[],
                keypathh=[x['key']], fkeypathh=[ek(x['key'])])


derive('alterfdef', lambda c, x: c.alterfdef(x['fdef']), lambda a, ek, x: dict(fdef=x['fdef']))
derive('nval', lambda c, x: c.nval(x['val']), lambda a, ek, x: dict(val=x['val']))
derive('nextv', lambda c, x: c.nextv(x['val'], x['key'], x['fdef']),
       lambda a, ek, x: dict(grow(a, ek, x), val=x['val'], original=None, fdef=x['fdef']))
derive('nextvc', lambda c, x: c.nextvc(x['val'], x['key'], x['fdef'], x['c']),
       lambda a, ek, x: dict(grow(a, ek, x), val=x['val'], original=None, fdef=x['fdef'],
                             idchain=[*a['idchain'], x['c']]))
derive('nextvo', lambda c, x: c.nextvo(x['val'], x['key'], x['fdef'], x['o']),
       lambda a, ek, x: dict(grow(a, ek, x), val=x['val'], original=None, fdef=x['fdef'], owner=x['o']))
derive('default', lambda c, x: c.default(x['o'], x['key'], x['fdef']),
       lambda a, ek, x: dict(grow(a, ek, x), val=None, original=None, fdef=x['fdef'], owner=x['o'],
                             parent=x['o']))
derive('nexto', lambda c, x: c.nexto(x['o'], x['key'], x['fdef']),
       lambda a, ek, x: dict(reset(a, ek, x), val=x['o'], original=None, fdef=x['fdef'], owner=x['o'],
                             parent=x['o'], holder=a['owner']))
derive('nextoc', lambda c, x: c.nextoc(x['o'], x['key'], x['fdef'], x['c']),
       lambda a, ek, x: dict(reset(a, ek, x), val=x['o'], original=None, fdef=x['fdef'], owner=x['o'],
                             parent=x['o'], holder=a['owner'], idchain=[*a['idchain'], x['c']]))
derive('colval', lambda c, x: c.colval(x['val'], x['key'], x['fdef'], x['p']),
       lambda a, ek, x: dict(
           {k: [*a[k], x['key']] for q in KPS for k in (q, 'f' + q) if k != 'keypathp'},
           keypathp=[x['key']], val=x['val'], original=None, fdef=x['fdef'], parent=x['p']))


@contract('C16', 'ctx.paths.text')
def _(E):
    """The text of a path is its keys joined by dots; errors are reported at
    the output path from the root, on the root object."""
    ctx, a, ek = anyctx(E)
    for k in KPS:
        E.same('s' + k, getattr(ctx, 's' + k), '.'.join([str(x) for x in a[k]]))
        E.same('sf' + k, getattr(ctx, 'sf' + k), '.'.join([str(x) for x in a['f' + k]]))
    msg = E.str('msg')
    out = E.call(ctx.raise_vexc, msg)
    E.check('raises', out.kind == 'exc' and isinstance(out.v, ValidationException))
    E.same('at the path', out.v.keypath_messages, {'.'.join([str(x) for x in a['fkeypathr']]): msg})
    E.check('root', out.v.root is a['root'])
    msgs = E.dict('msgs')
    out = E.call(ctx.raise_mvexc, msgs)
    E.check('raises', out.kind == 'exc' and isinstance(out.v, ValidationException))
    E.same('these messages', [x for x in out.v.keypath_messages.items()], [x for x in msgs.items()])
    E.check('root', out.v.root is a['root'])


@jsonclass(class_graph='c16')
class KpLeaf:
    some_text: str = types.str.maxlength(2).required
    no_text: str | None


@jsonclass(class_graph='c16')
class KpMid:
    the_leaf: KpLeaf
    leaf_list: list[KpLeaf]
    leaf_map: dict[str, KpLeaf]
    num_list: list[list[int]]


@jsonclass(class_graph='c16')
class KpTop:
    mid_obj: KpMid
    mid_objs: list[KpMid]


def leaf(ok):
    return {'some_text': 'a' if ok else 'abc'}


@contract('C16', 'error.paths', native=True, n=400)
def _(E):
    """An error names the place of the bad value, from the root, in output
    keys; nothing else is named."""
    good = lambda: {'theLeaf': leaf(True), 'leafList': [leaf(True), leaf(True)],
                    'leafMap': {'m_k': leaf(True), 'y': leaf(True)}, 'numList': [[1, 2], [3, 4]]}
    data = {'midObj': good(), 'midObjs': [good(), good()]}
    where = E.choice('w', ['obj', 0, 1])
    mid = data['midObj'] if where == 'obj' else data['midObjs'][where]
    pre = 'midObj' if where == 'obj' else f'midObjs.{where}'
    kind = E.choice('k', ['leaf', 'list', 'map', 'num'])
    i = E.choice('i', [0, 1])
    if kind == 'leaf':
        mid['theLeaf'] = leaf(False)
        want = 'theLeaf.someText'
    elif kind == 'list':
        mid['leafList'][i] = leaf(False)
        want = f'leafList.{i}.someText'
    elif kind == 'map':
        key = ['m_k', 'y'][i]
        mid['leafMap'][key] = leaf(False)
        want = f'leafMap.{key}.someText'
    else:
        mid['numList'][i][1] = 'no'
        want = f'numList.{i}.1'
    allf = E.choice('all', [True, False, None])
    obj = KpTop(**data)
    out = E.call(lambda: obj.validate(allf))
    E.check('rejected', out.kind == 'exc' and isinstance(out.v, ValidationException), detail=repr(out))
    E.same('at the place of the bad value', list(out.v.keypath_messages), [f'{pre}.{want}'])
    E.check('on the root', out.v.root is obj)


@jsonclass(class_graph='c16')
class KpCalc:
    full_name: str | None = types.str.getter(types.transform(lambda v, c: KP.seen(v, c))).setter(
        types.passin.transform(lambda v, c: KP.seen(v, c)))


class KpHub:
    seen = None


KP = KpHub()


@contract('C16', 'ctx.root')
def _(E):
    """A context of the root starts at the object itself, with no path; that
    of a calculated field's setter is at the field and is passed the value."""
    o = KpCalc()
    op, v = E.any('operator'), E.any('v', ('bool', 'int', 'str', 'list', 'dict'))
    o.opby(op)
    given = E.choice('given', [True, False])
    cfg = CtxCfg()
    c = Ctx.rootctx(o, cfg, v) if given else Ctx.rootctx(o, cfg)
    E.check('the object', c.root is o and c.owner is o and c.parent is o and c.holder is None and c.original is o)
    E.same('value', c.val, v if given else o)
    for k in KPS:
        E.same('no path', [getattr(c, k), getattr(c, 'f' + k)], [[], []])
    E.check('settings', c.ctxcfg is cfg)
    E.same('operator', c.operator, op)
    E.check('definition', c.fdef.cdef is KpCalc.cdef and c.fdef.inst_cls is KpCalc)
    E.same('nothing passed in, no class above', [c.passin, c.idchain], [None, []])
    E.check('questions', c.cdefroot is KpCalc.cdef and c.cdefowner is KpCalc.cdef and c.jconfroot is KpCalc.cdef.jconf
            and c.jconfowner is KpCalc.cdef.jconf and c.iscreate is False and c.nval(1).iscreate is False
            and c.nextv(1, 'full_name', c.fdef).iscreate is True)
    d = c.nexto(KpCalc(), 'x', c.fdef)
    E.check('holder', d.cdefholder is KpCalc.cdef and d.jconfholder is KpCalc.cdef.jconf)
    got = []

    def seen(val, ctx):
        got.append((val, ctx))
        return 'r'
    E.swap(KpHub, seen=staticmethod(seen))
    setting = E.choice('set', [True, False])
    if setting:
        o.full_name = v
    else:
        E.same('the result of the getter', o.full_name, 'r')
    E.check('asked once', len(got) == 1)
    val, x = got[0]
    E.check('on the object', x.root is o and x.owner is o and x.parent is o and x.original is o)
    E.same('operator', x.operator, op)
    if setting:
        E.same('the value is passed in', [val, x.passin], [v, v])
        for k in KPS:
            E.same('at the field', [getattr(x, k), getattr(x, 'f' + k)], [['full_name'], ['fullName']])
    else:
        E.check('of the object', val is o)

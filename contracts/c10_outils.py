"""C10: converting collections to owned ones and back loses nothing."""
from contracts.base import *
from jsonclasses.olist import OwnedList
from jsonclasses.odict import OwnedDict
from jsonclasses.outils import to_owned_list, to_owned_dict, unowned_copy_list, unowned_copy_dict


def join(kp, k):
    """The key path of item k of the collection at kp."""
    return kp + '.' + str(k)


def owned_setup(E):
    """The recursive calls by contract: they return the owned form of their
    argument, a function of the collection and the key path."""
    ol, od = E.uf('owned_list'), E.uf('owned_dict')
    kp = E.str('kp')
    E.assume(len(kp) > 0)
    owner = E.obj(n='owner')

    def sub(f):
        def s(o, v, k):
            E.check('nested collections get the same owner', o is owner)
            return f(v, k)
        return s
    E.assume_contract(to_owned_list, sub(ol))
    E.assume_contract(to_owned_dict, sub(od))
    return ol, od, kp, owner


def owned(E, v, kp, ol, od):
    if not E.symbolic:
        return v
    return ol(v, kp) if isinstance(v, list) else od(v, kp) if isinstance(v, dict) else v


def deep(E, got, v, kp, owner):
    """Natively: got is the owned form of v all the way down."""
    if isinstance(v, list):
        E.check('an owned list', type(got) is OwnedList and got is not v and len(got) == len(v))
        E.check('its owner and key path', got.owner is owner and got.keypath == kp, detail=f'{got.keypath} {kp}')
        for i, x in enumerate(v):
            deep(E, got[i], x, join(kp, i), owner)
    elif isinstance(v, dict):
        E.check('an owned dict', type(got) is OwnedDict and got is not v and list(got) == list(v))
        E.check('its owner and key path', got.owner is owner and got.keypath == kp, detail=f'{got.keypath} {kp}')
        for k, x in v.items():
            if k != '':
                deep(E, got[k], x, join(kp, k), owner)
    else:
        E.same('other values are the same', got, v)


@contract('C10', 'to_owned_list')
def _(E):
    ol, od, kp, owner = owned_setup(E)
    v = E.list_any('v')
    before = list(v)
    out = E.body(to_owned_list, owner, v, kp)
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    r = out.v
    if not E.symbolic:
        return deep(E, r, v, kp, owner)
    E.check('an owned list with this owner and key path',
            isinstance(r, OwnedList) and r.owner is owner and r.keypath == kp)
    E.same('items', [x for x in r], [owned(E, x, join(kp, i), ol, od) for i, x in enumerate(before)])
    E.same('the source is unchanged', v, before)


@contract('C10', 'to_owned_dict')
def _(E):
    ol, od, kp, owner = owned_setup(E)
    v = E.dict('v')
    before = dict(v)
    out = E.body(to_owned_dict, owner, v, kp)
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    r = out.v
    if not E.symbolic:
        return deep(E, r, v, kp, owner)
    E.check('an owned dict with this owner and key path',
            isinstance(r, OwnedDict) and r.owner is owner and r.keypath == kp)
    E.same('items', [x for x in r.items()],
           [(k, owned(E, x, kp if len(k) == 0 else join(kp, k), ol, od)) for k, x in before.items()])
    E.same('the source is unchanged', v, before)


def plain(E, got, v):
    if isinstance(v, list):
        E.check('a plain list', type(got) is list and got is not v and len(got) == len(v))
        for x, y in zip(got, v):
            plain(E, x, y)
    elif isinstance(v, dict):
        E.check('a plain dict', type(got) is dict and got is not v and list(got) == list(v))
        for k in v:
            plain(E, got[k], v[k])
    else:
        E.same('other values are the same', got, v)


def mixed(E, v, depth=0):
    """Natively: make some nested collections owned."""
    if E.symbolic or not E.bool(f'own{depth}'):
        return v
    return to_owned_list(E.obj(), v, 'k') if isinstance(v, list) else to_owned_dict(E.obj(), v, 'k')


@contract('C10', 'unowned_copy_list')
def _(E):
    cl, cd = E.uf('copy_list'), E.uf('copy_dict')
    E.assume_contract(unowned_copy_list, cl)
    E.assume_contract(unowned_copy_dict, cd)
    v = mixed(E, E.list_any('v'))
    before = [x for x in v]
    out = E.body(unowned_copy_list, v)
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    if not E.symbolic:
        return plain(E, out.v, v)
    E.check('a new plain list', type(out.v) is list and out.v is not v)
    E.same('items', out.v, [cd(x) if isinstance(x, dict) else cl(x) if isinstance(x, list) else x
                            for x in before])
    E.same('the source is unchanged', [x for x in v], before)


@contract('C10', 'unowned_copy_dict')
def _(E):
    cl, cd = E.uf('copy_list'), E.uf('copy_dict')
    E.assume_contract(unowned_copy_list, cl)
    E.assume_contract(unowned_copy_dict, cd)
    v = mixed(E, E.dict('v'))
    before = dict(v)
    out = E.body(unowned_copy_dict, v)
    E.check('returns', out.kind == 'ret', incomplete=True, detail=repr(out))
    if not E.symbolic:
        return plain(E, out.v, v)
    E.check('a new plain dict', type(out.v) is dict and out.v is not v)
    E.same('items', [x for x in out.v.items()],
           [(k, cd(x) if isinstance(x, dict) else cl(x) if isinstance(x, list) else x)
            for k, x in before.items()])
    E.same('the source is unchanged', dict(v), before)

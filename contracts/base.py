"""Helpers shared by the contracts."""
from pvc.reg import contract
from jsonclasses.ctx import Ctx, CtxCfg
from jsonclasses.excs import ValidationException
from jsonclasses.mgraph import MGraph

M = 'jsonclasses.modifiers.'
EMPTY = None


def mkctx(E, val, root=None, owner=None, parent=None, fdef=None, ctxcfg=None, keypath=None,
          operator=None, passin=None, original=None, holder=None, idchain=None):
    """A context whose key paths are the given one; by default the
    reported one is k, which the others end with."""
    if root is None:
        root = E.obj(name_='root')
    if owner is None:
        owner = root
    if parent is None:
        parent = owner
    if keypath is None:
        return Ctx(root=root, owner=owner, parent=parent, holder=holder, val=val, original=original,
                   ctxcfg=CtxCfg() if ctxcfg is None else ctxcfg,
                   keypathr=['top', 'k'], fkeypathr=['k'], keypatho=['k'], fkeypatho=['fk'],
                   keypathp=['k'], fkeypathp=['fk'], keypathh=['k'], fkeypathh=['fk'], fdef=fdef,
                   operator=operator, mgraph=MGraph(), idchain=[] if idchain is None else idchain,
                   passin=passin)
    kp = [x for x in keypath]
    return Ctx(root=root, owner=owner, parent=parent, holder=holder, val=val, original=original,
               ctxcfg=CtxCfg() if ctxcfg is None else ctxcfg,
               keypathr=kp, fkeypathr=kp, keypatho=kp, fkeypatho=kp, keypathp=kp, fkeypathp=kp,
               keypathh=kp, fkeypathh=kp, fdef=fdef, operator=operator, mgraph=MGraph(),
               idchain=[] if idchain is None else idchain, passin=passin)


def rejects(E, out, label='validate'):
    """The outcome of a validate call as a verdict: True when a
    ValidationException was raised, False when it returned. Anything else
    breaks the contract."""
    if out.kind == 'ret':
        return False
    E.check(label + ': only ValidationException is raised',
            isinstance(out.v, ValidationException), incomplete=True, detail=repr(out.v))
    return True


def one_message(E, out, ctx, key='k'):
    """A rejection carries one message, at the field's key path, with the
    root object."""
    E.same('one message, at the key path', [k for k in out.v.keypath_messages], [key])
    E.check('the exception names the root object', out.v.root is ctx.root)


def is_num(v):
    return type(v) is int or type(v) is float


def mkowner(E, jconf=None, **attrs):
    """An owner object whose class carries a class definition with jconf."""
    cdef = E.obj(jconf=jconf, name='Owner')
    cls = type('Owner', (), {'cdef': cdef})
    return E.obj(cls=cls, cdef=cdef, **attrs)


def vexc_init(self, keypath_messages, root):
    """Contract of ValidationException.__init__ (proved by C04.vexc): it
    stores the messages and the root object; the text is not specified."""
    self.keypath_messages = keypath_messages
    self.root = root


def standing(E):
    """Contracts assumed at every call in every proof; each is discharged by
    a contract of its own."""
    E.assume_contract(ValidationException.__init__, vexc_init)

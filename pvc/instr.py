"""Mechanical instrumentation of the code under proof.

Every module of the package under proof is parsed from /repo on every run and
rewritten node by node (the table below) so that the operations CPython would
perform natively on values are routed through pvc. Nothing is dropped; type
annotations and docstrings are left as they are.

  f(a)               __pvc.call(f, a)
  x is y             __pvc.is_(x, y)
  x in y             __pvc.in_(x, y)
  x[y] (load)        __pvc.getitem(x, y)
  x[y] = v           __pvc.setitem(x, y, v)
  del x[y]           __pvc.delitem(x, y)
  x.a = v            __pvc.setattr_(x, 'a', v)
  [a, b] {..} {a}    __pvc.mklist / mkdict / mkset
  comprehensions     __pvc.listcomp / setcomp / dictcomp / genexp
  f'..'              __pvc.fstr
  for                loop-rule iterator (see seqs.LoopIter)
  except BaseException / bare except   re-raises engine control exceptions
  class C(list/dict) base replaced by the container model
"""
from __future__ import annotations
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

P = 'pvc_rt_'


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def pvc(attr):
    return ast.Attribute(value=name(P), attr=attr, ctx=ast.Load())


def call(f, *args, keywords=()):
    return ast.Call(func=f, args=list(args), keywords=list(keywords))


def const(v):
    return ast.Constant(value=v)


def lam(args, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args],
                                         kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


class Names(ast.NodeVisitor):
    """Names assigned in a statement list, not entering nested scopes."""

    def __init__(self):
        self.out = []

    def add(self, n):
        if n not in self.out:
            self.out.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def assigned_in(stmts, target=None):
    v = Names()
    if target is not None:
        v.visit(target)
    for s in stmts:
        v.visit(s)
    return v.out


class Loads(ast.NodeVisitor):
    """Names loaded outside a given loop (excluding loops that rebind them)."""

    def __init__(self, skip):
        self.skip, self.out, self.bound = skip, set(), []

    def visit(self, n):
        if n is self.skip:
            self.visit(n.iter)
            for s in n.orelse:
                self.visit(s)
            return
        if isinstance(n, (ast.For,)):
            self.visit(n.iter)
            self.bound.append(set(assigned_in([], n.target)))
            for s in n.body:
                self.visit(s)
            self.bound.pop()
            for s in n.orelse:
                self.visit(s)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set()
            for g in n.generators:
                b |= set(assigned_in([], g.target))
            self.bound.append(b)
            self.generic_visit(n)
            self.bound.pop()
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if not any(n.id in b for b in self.bound):
                self.out.add(n.id)
            return
        self.generic_visit(n)


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.scopes = []        # enclosing function bodies (original nodes)
        self.in_ann = False

    def fresh(self):
        self.k += 1
        return f'pvc_L{self.k}_'

    # ------------------------------------------------------------- scopes
    def visit_Module(self, n):
        self.scopes.append(n)
        self.generic_visit(n)
        self.scopes.pop()
        return n

    def visit_FunctionDef(self, n):
        self.scopes.append(n)
        n.body = self.stmts(n.body)
        a = n.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        self.scopes.pop()
        # decorators are left alone: they run at definition time
        return n

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_ClassDef(self, n):
        nb = []
        for b in n.bases:
            if isinstance(b, ast.Name) and b.id in ('list', 'dict', 'set'):
                nb.append(pvc('M' + b.id))
            else:
                nb.append(b)
        n.bases = nb
        # class bodies: instrument methods only
        body = []
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                body.append(self.visit(s))
            else:
                body.append(s)
        n.body = body
        return n

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_AnnAssign(self, n):
        # annotations are not evaluated for locals; keep them out of reach
        if n.value is None:
            return n
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Name):
            return n
        a = ast.Assign(targets=[n.target], value=n.value)
        ast.copy_location(a, n)
        a._pvc_done = True
        return self.assign(a)

    # -------------------------------------------------------- assignments
    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        return self.assign(n)

    def assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            return self.store(n.targets[0], n.value, n)
        # other targets: visit the loads inside them
        simple = all(self.simple_target(t) for t in n.targets)
        if simple:
            return n
        tmp = self.fresh()
        out = [ast.copy_location(ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())],
                                            value=n.value), n)]
        for t in n.targets:
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                out.append(self.store(t, name(tmp), n))
            else:
                out.append(ast.copy_location(ast.Assign(targets=[t], value=name(tmp)), n))
        return out

    def simple_target(self, t):
        if isinstance(t, ast.Name):
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return all(self.simple_target(x) for x in t.elts)
        if isinstance(t, ast.Starred):
            return self.simple_target(t.value)
        return False

    def store(self, t, value, ref):
        if isinstance(t, ast.Attribute):
            e = call(pvc('setattr_'), self.visit(t.value), const(t.attr), value)
        else:
            e = call(pvc('setitem'), self.visit(t.value), self.index(t.slice), value)
        return ast.copy_location(ast.Expr(value=e), ref)

    def visit_AugAssign(self, n):
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Name):
            return n
        if isinstance(n.target, ast.Attribute):
            o = self.fresh()
            v = self.fresh()
            return [
                ast.copy_location(ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())],
                                             value=self.visit(n.target.value)), n),
                ast.copy_location(ast.Assign(
                    targets=[ast.Name(id=v, ctx=ast.Store())],
                    value=ast.Attribute(value=name(o), attr=n.target.attr, ctx=ast.Load())), n),
                ast.copy_location(ast.AugAssign(target=ast.Name(id=v, ctx=ast.Store()), op=n.op,
                                                value=n.value), n),
                ast.copy_location(ast.Expr(value=call(pvc('setattr_'), name(o),
                                                      const(n.target.attr), name(v))), n)]
        o, i, v = self.fresh(), self.fresh(), self.fresh()
        return [
            ast.copy_location(ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())],
                                         value=self.visit(n.target.value)), n),
            ast.copy_location(ast.Assign(targets=[ast.Name(id=i, ctx=ast.Store())],
                                         value=self.index(n.target.slice)), n),
            ast.copy_location(ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())],
                                         value=call(pvc('getitem'), name(o), name(i))), n),
            ast.copy_location(ast.AugAssign(target=ast.Name(id=v, ctx=ast.Store()), op=n.op,
                                            value=n.value), n),
            ast.copy_location(ast.Expr(value=call(pvc('setitem'), name(o), name(i), name(v))), n)]

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(value=call(
                    pvc('delitem'), self.visit(t.value), self.index(t.slice))), n))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), n))
        return out

    # -------------------------------------------------------- expressions
    def index(self, s):
        if isinstance(s, ast.Slice):
            parts = [self.visit(x) if x is not None else const(None)
                     for x in (s.lower, s.upper, s.step)]
            return call(name('slice'), *parts)
        return self.visit(s)

    def visit_Subscript(self, n):
        if not isinstance(n.ctx, ast.Load):
            return n
        return ast.copy_location(call(pvc('getitem'), self.visit(n.value), self.index(n.slice)), n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            return n
        if isinstance(f, ast.Name) and f.id in ('locals', 'globals', 'vars') and not n.args:
            return n
        return ast.copy_location(
            ast.Call(func=pvc('call'), args=[self.visit(f)] + [self.visit(a) for a in n.args],
                     keywords=[ast.keyword(arg=k.arg, value=self.visit(k.value))
                               for k in n.keywords]), n)

    def visit_Compare(self, n):
        special = (ast.Is, ast.IsNot, ast.In, ast.NotIn)
        if not any(isinstance(o, special) for o in n.ops):
            self.generic_visit(n)
            return n
        if len(n.ops) != 1:
            self.generic_visit(n)
            return n
        a, b, o = self.visit(n.left), self.visit(n.comparators[0]), n.ops[0]
        fn = {ast.Is: 'is_', ast.IsNot: 'isnot', ast.In: 'in_', ast.NotIn: 'notin'}[type(o)]
        return ast.copy_location(call(pvc(fn), a, b), n)

    def visit_List(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        return ast.copy_location(call(pvc('mklist'), self.packed(n.elts)), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(call(pvc('mkset'), self.packed(n.elts)), n)

    def visit_Tuple(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return ast.copy_location(call(pvc('mktuple'), self.packed(n.elts)), n)
        return n

    def packed(self, elts):
        """A tuple of (star?, value) pairs."""
        return ast.Tuple(elts=[
            ast.Tuple(elts=[const(True), e.value], ctx=ast.Load()) if isinstance(e, ast.Starred)
            else ast.Tuple(elts=[const(False), e], ctx=ast.Load()) for e in elts], ctx=ast.Load())

    def visit_Dict(self, n):
        ks = [None if k is None else self.visit(k) for k in n.keys]
        vs = [self.visit(v) for v in n.values]
        items = [ast.Tuple(elts=[const(True), v], ctx=ast.Load()) if k is None
                 else ast.Tuple(elts=[const(False), k, v], ctx=ast.Load())
                 for k, v in zip(ks, vs)]
        return ast.copy_location(call(pvc('mkdict'), ast.Tuple(elts=items, ctx=ast.Load())), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = const(None) if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), const(v.conversion), spec],
                                       ctx=ast.Load()))
        return ast.copy_location(call(pvc('fstr'), ast.Tuple(elts=parts, ctx=ast.Load())), n)

    def visit_Lambda(self, n):
        n.body = self.visit(n.body)
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        return n

    def _tlam(self, target, body):
        """A one-argument function binding target."""
        if isinstance(target, ast.Name):
            return lam([target.id], body)
        if isinstance(target, (ast.Tuple, ast.List)) and \
                all(isinstance(t, ast.Name) for t in target.elts):
            inner = lam([t.id for t in target.elts], body)
            return lam(['pvc_t_'], ast.Call(func=inner, args=[ast.Starred(
                value=call(pvc('unpack'), name('pvc_t_'), const(len(target.elts))),
                ctx=ast.Load())], keywords=[]))
        return None

    def _comp(self, n, kind, body):
        gens = n.generators
        if any(g.is_async for g in gens):
            return n
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return n
        lams = []
        # innermost first: build nested lambdas from the right
        def build(i):
            g = gens[i]
            if i == len(gens) - 1:
                b = body
            else:
                b = build(i + 1)
            f = self._tlam(g.target, b)
            conds = [self.visit(c) for c in g.ifs]
            if conds:
                c = conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)
                cl = self._tlam(g.target, c)
            else:
                cl = const(None)
            if f is None or cl is None:
                raise NotImplementedError
            return call(pvc('comp'), const(kind if i == 0 else 'gen'),
                        const(i < len(gens) - 1), f, self.visit(g.iter), cl)
        try:
            return ast.copy_location(build(0), n)
        except NotImplementedError:
            self.generic_visit(n)
            return n

    def visit_ListComp(self, n):
        return self._comp(n, 'list', self.visit(n.elt))

    def visit_SetComp(self, n):
        return self._comp(n, 'set', self.visit(n.elt))

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen', self.visit(n.elt))

    def visit_DictComp(self, n):
        return self._comp(n, 'dict', ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)],
                                               ctx=ast.Load()))

    # --------------------------------------------------------- statements
    def visit_For(self, n):
        scope = self.scopes[-1]
        assigned = assigned_in(n.body, n.target)
        ld = Loads(n)
        for s in scope.body:
            ld.visit(s)
        outside = [v for v in assigned if v in ld.out]
        L = self.fresh()
        x = L + 'x'
        it = self.visit(n.iter)
        body = self.stmts(n.body)
        orelse = self.stmts(n.orelse)

        def havoc():
            inner = []
            for v in assigned:
                inner.append(ast.If(
                    test=ast.Compare(left=const(v), ops=[ast.In()],
                                     comparators=[ast.Attribute(value=name(L), attr='hv',
                                                                ctx=ast.Load())]),
                    body=[ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())],
                                     value=ast.Subscript(
                                         value=ast.Attribute(value=name(L), attr='hv', ctx=ast.Load()),
                                         slice=const(v), ctx=ast.Load()))],
                    orelse=[]))
            return ast.If(test=ast.Attribute(value=name(L), attr='hv', ctx=ast.Load()),
                          body=inner or [ast.Pass()], orelse=[])
        tgt = self.assign(ast.copy_location(
            ast.Assign(targets=[n.target], value=name(x)), n))
        if not isinstance(tgt, list):
            tgt = [tgt]
        loop = ast.For(target=ast.Name(id=x, ctx=ast.Store()), iter=name(L),
                       body=[havoc()] + tgt + body, orelse=[havoc()] + orelse)
        tr = ast.Try(body=[loop], handlers=[], orelse=[],
                     finalbody=[ast.Expr(value=call(ast.Attribute(
                         value=name(L), attr='leave', ctx=ast.Load())))])
        setup = ast.Assign(
            targets=[ast.Name(id=L, ctx=ast.Store())],
            value=call(pvc('loop'), it,
                       ast.Tuple(elts=[const(v) for v in assigned], ctx=ast.Load()),
                       ast.Tuple(elts=[const(v) for v in outside], ctx=ast.Load())))
        for s in (setup, tr):
            ast.copy_location(s, n)
        return [setup, tr]

    def visit_While(self, n):
        # unrolled natively; a symbolic condition makes the path budget run
        # out, which is reported as out of reach
        n.test = call(pvc('while_'), self.visit(n.test))
        n.body = self.stmts(n.body)
        n.orelse = self.stmts(n.orelse)
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.stmts(n.body)
        n.orelse = self.stmts(n.orelse)
        return n

    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        n.body = self.stmts(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.stmts(n.body)
        for h in n.handlers:
            h.body = self.stmts(h.body)
        n.orelse = self.stmts(n.orelse)
        n.finalbody = self.stmts(n.finalbody)
        guard = False
        for h in n.handlers:
            if h.type is None or any(isinstance(x, ast.Name) and x.id == 'BaseException'
                                     for x in ast.walk(h.type)):
                guard = True
        if guard:
            n.handlers.insert(0, ast.ExceptHandler(
                type=pvc('Control'), name=None, body=[ast.Raise()]))
        return n

    def visit_ImportFrom(self, n):
        return n


def instrument_source(src, filename):
    tree = ast.parse(src, filename)
    tree = Instr().visit(tree)
    imp = ast.ImportFrom(module='pvc', names=[ast.alias(name='hooks', asname=P)], level=0)
    # after the docstring and __future__ imports
    k = 0
    for i, s in enumerate(tree.body):
        if (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) or \
                (isinstance(s, ast.ImportFrom) and s.module == '__future__'):
            k = i + 1
        else:
            break
    tree.body.insert(k, imp)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            src = f.read().decode('utf-8')
        return instrument_source(src, path)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, packages, root):
        self.packages, self.root = packages, root

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.packages:
            return None
        p = os.path.join(self.root, *fullname.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(fullname, f), submodule_search_locations=[p])
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, p + '.py', loader=Loader(fullname, p + '.py'))
        return None


def install(packages, root):
    sys.meta_path.insert(0, Finder(set(packages), root))

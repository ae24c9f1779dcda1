# -*- coding: utf-8 -*-
"""Plotting is optional; names, attributes, imports and arguments exist."""
import ast
import builtins
import os
import symtable

from ..model import AnchorMissing, Cls, ConstExpr, External, Func, Module

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
OPTIONAL = ('matplotlib',)
API = os.path.join(os.path.dirname(__file__), 'api.txt')


def api():
    with open(API) as f:
        return set(f.read().split())


# ------------------------------------------------------------------ P18
UNK, ABSENT = 'unknown', 'absent'        # any value; the stand-in of something matplotlib would have provided
Y, N, NONE = ('c', True), ('c', False), ('c', None)


class Miss(Exception):
    pass


class Without(object):
    """constant propagation with flow-sensitive variables: what is reached when the optional packages are missing"""

    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.modules = {}
        self.bad = {}
        self.uses = {}
        self.reached = set()
        self.todo = []
        self.byname = {}
        self.returns = []
        self.summaries = {}
        for f in self.P.functions():
            self.byname.setdefault(f.name, []).append(f)
        for c in self.P.classes():
            f = c.own.get('__init__')
            if isinstance(f, Func):
                self.byname.setdefault(c.name, []).append(f)

    # ---------------------------------------------------- modules
    def module(self, m):
        if m.name not in self.modules:
            env = self.modules[m.name] = {}
            fr = (m, None)
            try:
                self.block(m.tree.body, env, fr)
            except Miss as e:
                self.report(m, m.tree.body[0], 'module %s: %s' % (m.name, e), 'import')
        return self.modules[m.name]

    def report(self, m, node, text, what, func=None):
        where = '%s:%d %s' % (os.path.relpath(m.path, self.P.root), getattr(node, 'lineno', 0), func.qual if func else '<module>')
        self.bad.setdefault((where.rsplit(' ')[-1], what), (where, text))

    def lookup(self, name, env, fr):
        if name in env:
            return env[name]
        if fr[1] is not None:
            menv = self.module(fr[0])
            if name in menv:
                return menv[name]
        return UNK

    # ---------------------------------------------------- statements; False when the end is not reached
    def block(self, body, env, fr):
        for s in body:
            if not self.stmt(s, env, fr):
                return False
        return True

    def stmt(self, s, env, fr):
        m, func = fr
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            names = [a.name for a in s.names] if isinstance(s, ast.Import) else [m.absolute(s)]
            for n in names:
                if n.split('.')[0] in OPTIONAL:
                    raise Miss('imports %s, which need not be there' % n)
            if isinstance(s, ast.ImportFrom):
                b = self.P.modules.get(m.absolute(s))
                for a in s.names:
                    env[a.asname or a.name] = self.module(b).get(a.name, UNK) if b is not None and b is not m else UNK
            else:
                for a in s.names:
                    env[(a.asname or a.name).split('.')[0]] = UNK
            return True
        if isinstance(s, FUNCS + (ast.ClassDef,)):
            env[s.name] = UNK
            if isinstance(s, FUNCS) and func is not None:
                self.nested(s, env, fr)
            if isinstance(s, ast.ClassDef):
                self.block([x for x in s.body if not isinstance(x, FUNCS)], dict(env), fr)
            return True
        if isinstance(s, ast.Try):
            snap = dict(env)
            ok = True
            try:
                end = self.block(s.body, env, fr)
            except Miss as e:
                for h in s.handlers:
                    names = [ast.unparse(x).split('.')[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ['Exception']
                    if set(names) & {'ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException'}:
                        env.clear()
                        env.update(snap)
                        if h.name:
                            env[h.name] = UNK
                        # what the body did before the import is not known here
                        for n in assigned(s.body):
                            env[n] = UNK
                        r = self.block(h.body, env, fr)
                        for x in s.body:
                            for a in (x.names if isinstance(x, (ast.Import, ast.ImportFrom)) else ()):
                                if env.get(a.asname or a.name) == NONE:
                                    env[a.asname or a.name] = ABSENT
                        return self.block(s.finalbody, env, fr) and r
                raise
            env2 = dict(env)
            ok = end
            if end:
                ok = self.block(s.orelse, env, fr)
            envs = [env2 if False else dict(env)] if ok else []
            for h in s.handlers:
                e = dict(snap)
                for n in assigned(s.body):
                    e[n] = UNK
                if h.name:
                    e[h.name] = UNK
                if self.block(h.body, e, fr):
                    envs.append(e)
            self.merge(env, envs)
            r = self.block(s.finalbody, env, fr)
            return r and bool(envs)
        if isinstance(s, ast.If):
            c = self.truth(s.test, env, fr)
            envs = []
            for want, body in ((True, s.body), (False, s.orelse)):
                if c is None or c is want:
                    e = dict(env)
                    self.refine(s.test, want, e, fr)
                    if self.block(body, e, fr):
                        envs.append(e)
            self.merge(env, envs)
            return bool(envs)
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            if isinstance(s, ast.While):
                c = self.truth(s.test, env, fr)
            else:
                self.ev(s.iter, env, fr)
                c = None
            for n in assigned([s]):
                env[n] = UNK
            e = dict(env)
            if c is not False:
                self.block(s.body, e, fr)
            self.block(s.orelse, env, fr)
            return True
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ev(i.context_expr, env, fr)
            for n in assigned(s.items):
                env[n] = UNK
            return self.block(s.body, env, fr)
        if isinstance(s, ast.Return):
            v = self.ev(s.value, env, fr)
            if self.returns and fr[1] is not None:
                self.returns[-1].add(v)
            return False
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, env, fr)
            return False
        if isinstance(s, (ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.Assert):
            c = self.truth(s.test, env, fr)
            self.refine(s.test, True, env, fr)
            return c is not False
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, fr)
            for t in s.targets:
                self.target(t, v, env, fr)
            return True
        if isinstance(s, ast.AnnAssign):
            self.target(s.target, self.ev(s.value, env, fr) if s.value is not None else UNK, env, fr)
            return True
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, env, fr)
            self.target(s.target, UNK, env, fr)
            return True
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.ev(n, env, fr)
        return True

    def target(self, t, v, env, fr):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x.value if isinstance(x, ast.Starred) else x, UNK, env, fr)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.ev(t.value, env, fr)

    def merge(self, env, envs):
        env.clear()
        if envs:
            for k in set().union(*envs):
                vs = {e.get(k, UNK) for e in envs}
                env[k] = vs.pop() if len(vs) == 1 else UNK

    def nested(self, s, env, fr):
        e = dict(env)
        for n in assigned(fr[1].node.body):
            if e.get(n) != ABSENT:
                e[n] = UNK
        for a in params(s):
            e[a] = UNK
        self.returns.append(set())
        self.block(s.body, e, fr)
        self.returns.pop()

    # ---------------------------------------------------- expressions
    def truth(self, e, env, fr):
        v = self.ev(e, env, fr)
        if v == UNK:
            return None
        if v == ABSENT:
            return False
        return bool(v[1])

    def refine(self, test, want, env, fr):
        """what a test says about a variable"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            self.refine(test.operand, not want, env, fr)
        elif isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if want else ast.Or):
            for x in test.values:
                self.refine(x, want, env, fr)

    def ev(self, e, env, fr):
        m, func = fr
        if e is None:
            return NONE
        if isinstance(e, ast.Constant):
            return ('c', e.value) if isinstance(e.value, (bool, type(None), int, str)) else UNK
        if isinstance(e, ast.Name):
            v = self.lookup(e.id, env, fr)
            self.mark(e.id)
            return v
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env, fr)
            if b == ABSENT:
                self.report(m, e, 'uses %s.%s, which is not there without matplotlib' % (ast.unparse(e.value)[:40], e.attr), 'use of %s' % ast.unparse(e.value)[:40], func)
            self.mark(e.attr)
            if isinstance(e.value, ast.Name):
                r = self.P.resolve_expr(m, e.value) if e.value.id not in env else None
                if isinstance(r, Module):
                    return self.module(r).get(e.attr, UNK)
            return self.result(e.attr, ('property', 'cached'))
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env, fr)
            if f == ABSENT:
                self.report(m, e, 'calls %s, which is not there without matplotlib' % ast.unparse(e.func)[:40], 'call of %s' % ast.unparse(e.func)[:40], func)
            vs = [self.ev(x.value if isinstance(x, ast.Starred) else x, env, fr) for x in e.args]
            for k in e.keywords:
                self.ev(k.value, env, fr)
            if isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(vs) == 1 and vs[0] != UNK:
                return ('c', bool(vs[0] != ABSENT and vs[0][1]))
            if isinstance(e.func, ast.Attribute) or isinstance(e.func, ast.Name) and e.func.id not in env:
                return self.result(e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id, ('function', 'method', 'classmethod', 'staticmethod'))
            return UNK
        if isinstance(e, ast.BoolOp):
            stop = not isinstance(e.op, ast.And)
            v = UNK
            e2 = dict(env)
            unk = False
            for x in e.values:
                v = self.ev(x, e2, fr)
                t = None if v == UNK else (False if v == ABSENT else bool(v[1]))
                if t is stop:
                    return v if not unk else (v if isinstance(v, tuple) and isinstance(v[1], bool) and False else (('c', stop) if t is not None else UNK))
                unk = unk or t is None
            return UNK if unk else v
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, env, fr)
            return UNK if t is None else ('c', not t)
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test, env, fr)
            if t is not None:
                return self.ev(e.body if t else e.orelse, env, fr)
            a, b = self.ev(e.body, env, fr), self.ev(e.orelse, env, fr)
            return a if a == b else UNK
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env, fr), self.ev(e.comparators[0], env, fr)
            if UNK in (a, b):
                return UNK
            a, b = [NONE if x == ABSENT else x for x in (a, b)]
            if isinstance(e.ops[0], (ast.Is, ast.Eq)):
                return ('c', a == b)
            if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                return ('c', a != b)
            return UNK
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env, fr)
            env[e.target.id] = v
            return v
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e2 = dict(env)
            for g in e.generators:
                self.ev(g.iter, e2, fr)
                self.target(g.target, UNK, e2, fr)
                for c in g.ifs:
                    if self.truth(c, e2, fr) is False:
                        return UNK
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.ev(x, e2, fr)
            return UNK
        if isinstance(e, ast.Lambda):
            e2 = dict(env)
            for a in params(e):
                e2[a] = UNK
            self.ev(e.body, e2, fr)
            return UNK
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.ev(n, env, fr)
        return UNK

    # ---------------------------------------------------- functions
    def mark(self, name):
        for f in self.byname.get(name, ()):
            if f not in self.reached:
                self.reached.add(f)
                self.todo.append(f)

    def result(self, name, kinds):
        """what all functions of that name return, when that is one constant"""
        fs = self.byname.get(name, ())
        if not fs or any(f.kind not in kinds or f.name == '__init__' for f in fs):
            return UNK
        vs = {self.summary(f) for f in fs}
        return vs.pop() if len(vs) == 1 else UNK

    def summary(self, f):
        if f not in self.summaries:
            self.summaries[f] = UNK
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                return UNK
            self.returns.append(set())
            saved, self.bad = self.bad, {}
            try:
                if self.block(f.node.body, {a: UNK for a in params(f.node)}, (f.module, f)):
                    self.returns[-1].add(NONE)
            except Miss:
                self.returns[-1].add(UNK)
            finally:
                self.bad = saved
                r = self.returns.pop()
            if len(r) == 1:
                self.summaries[f] = r.pop()
        return self.summaries[f]

    def run(self, entries):
        for m in self.P.modules.values():
            self.module(m)
        for f in entries:
            if f not in self.reached:
                self.reached.add(f)
                self.todo.append(f)
        while self.todo:
            f = self.todo.pop()
            if f.kind == 'decorated' or f.cls is None and f.node.decorator_list:      # what the decorator makes of it is not known
                continue
            env = {a: UNK for a in params(f.node)}
            try:
                self.block(f.node.body, env, (f.module, f))
            except Miss as e:
                self.report(f.module, f.node, str(e), 'import', f)


def params(n):
    a = n.args
    return [x.arg for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x is not None]


def assigned(body):
    out = set()
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, FUNCS + (ast.ClassDef,)):
            out.add(n.name)
            continue
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in n.names}
        elif isinstance(n, ast.Lambda):
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return out


def plotting(ctx):
    known = api()
    W = Without(ctx)
    entries = [f for f in ctx.P.functions() if f.id in known]
    if not entries:
        raise AnchorMissing('none of the public functions is left')
    W.run(entries)
    users = {}
    for f in sorted(W.reached, key=lambda f: f.id):
        ctx.functions.add(f.id)
        hits = {k: v for k, v in W.bad.items() if v[0].endswith(' ' + f.qual) and v[0].startswith(os.path.relpath(f.module.path, ctx.P.root) + ':')}
        for k, (where, text) in sorted(hits.items()):
            ctx.bad('plotting optional', where, '%s %s' % (f.qual, text), '%s %s' % k)
        if not hits:
            ctx.ok('plotting optional', ctx.where(f), 'runs without matplotlib', f.id)
    for k, (where, text) in sorted(W.bad.items()):
        if k[0] == '<module>':
            ctx.bad('plotting optional', where, text, '%s %s' % k)
    for m in W.modules:
        ctx.ok('import', m, 'can be imported without matplotlib', 'module ' + m) if not any(k[0] == '<module>' and v[0].startswith(os.path.relpath(ctx.P.modules[m].path, ctx.P.root)) for k, v in W.bad.items()) else None


PROPS = {'P18': (plotting, 'constant propagation over all functions with the optional packages missing', 'values stored in attributes and passed as arguments are not followed')}


# ------------------------------------------------------------------ P23
def tables(top):
    out = {}
    todo = [top]
    while todo:
        t = todo.pop()
        out.setdefault((t.get_name(), t.get_lineno(), t.get_type()), []).append(t)
        todo.extend(t.get_children())
    return out


class Scope(object):
    """names of one module"""

    def __init__(self, P, m):
        self.P, self.m = P, m
        self.star = any(self.P.modules.get(b) is None for b in m.env.get('*', []))
        self.top = symtable.symtable(m.src, m.path, 'exec')
        self.names = {s.get_name() for s in self.top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()} | set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__'}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                self.names |= set(n.names)
        for b in m.env.get('*', []):
            if self.P.modules.get(b) is not None:
                self.names |= set(self.P.modules[b].env)

    def undefined(self):
        """names that are read and bound nowhere"""
        if self.star:
            return
        todo = [self.top]
        bad = set()
        while todo:
            t = todo.pop()
            todo.extend(t.get_children())
            for s in t.get_symbols():
                if s.is_referenced() and s.is_global() and s.get_name() not in self.names:
                    bad.add(s.get_name())
        if bad:
            for n in ast.walk(self.m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in bad:
                    yield n


def unassigned(f):
    """reads of a local variable that nothing assigned before on any path"""
    loc = assigned(f.node.body)
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            loc -= set(n.names)
    bad = []

    def exprs(n, have, skip=()):
        """loads within an expression"""
        if isinstance(n, ast.Lambda) or isinstance(n, FUNCS):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = set(skip)
            for g in n.generators:
                exprs(g.iter, have, inner)
                inner |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    exprs(c, have, inner)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                exprs(x, have, inner)
            return
        if isinstance(n, ast.NamedExpr):
            exprs(n.value, have, skip)
            have.add(n.target.id)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in loc and n.id not in have and n.id not in skip:
                bad.append(n)
            return
        for c in ast.iter_child_nodes(n):
            exprs(c, have, skip)

    def block(body, have):
        """names that may be assigned at the end, None when it is not reached"""
        for s in body:
            have = stmt(s, have)
            if have is None:
                return None
        return have

    def stmt(s, have):
        if isinstance(s, FUNCS + (ast.ClassDef,)):
            return have | {s.name}
        if isinstance(s, ast.If):
            exprs(s.test, have)
            a, b = block(s.body, set(have)), block(s.orelse, set(have))
            return a | b if a is not None and b is not None else a if a is not None else b
        if isinstance(s, (ast.For, ast.While)):
            exprs(s.iter if isinstance(s, ast.For) else s.test, have | (assigned([s]) if isinstance(s, ast.While) else set()))
            inner = have | ({x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if isinstance(s, ast.For) else set())
            later = inner | assigned(s.body)
            # a name of the body may come from an earlier turn, unless every read of it is before .. not decided
            block(s.body, set(later))
            block(s.orelse, set(later))
            return later | assigned(s.orelse)
        if isinstance(s, ast.Try):
            a = block(s.body, set(have))
            mid = have | assigned(s.body)
            outs = []
            if a is not None:
                outs.append(block(s.orelse, set(a)))
            for h in s.handlers:
                outs.append(block(h.body, mid | ({h.name} if h.name else set())))
            outs = [x for x in outs if x is not None]
            fin = set().union(mid, *outs)
            e = block(s.finalbody, set(fin))
            if e is None or not outs:
                return None
            return e
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                exprs(i.context_expr, have)
            return block(s.body, have | assigned([i.optional_vars for i in s.items if i.optional_vars is not None]))
        if isinstance(s, (ast.Return, ast.Raise)):
            exprs(s, have)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.AugAssign):
            exprs(s.value, have)
            if isinstance(s.target, ast.Name) and s.target.id in loc and s.target.id not in have:
                bad.append(s.target)
            return have | assigned([s.target])
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return have | assigned([s])
        exprs(s, have)
        return have | assigned([s])

    if not any(isinstance(n, (ast.Match,)) for n in ast.walk(f.node)):
        block(f.node.body, set(params(f.node)))
    return bad


class Attrs(object):
    """attributes objects of the classes of the repository can have"""

    def __init__(self, P):
        self.P = P
        self.stores = {}        # class -> names assigned through the first parameter of its methods
        self.anywhere = set()   # names assigned on whatever object
        self.dynamic = set()
        own = {}
        for f in P.functions():
            if f.cls is not None and f.params and f.kind != 'staticmethod':
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == f.params[0]:
                        own[n] = f.cls
        for m in P.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    if n in own:
                        self.stores.setdefault(own[n], set()).add(n.attr)
                    else:
                        self.anywhere.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'vars') or isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    if isinstance(n, ast.Call) and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self.anywhere.add(n.args[1].value)
                    else:
                        self.dynamic.add(m.name)
        for c in P.classes():
            for x in c.node.body:
                if isinstance(x, (ast.AnnAssign,)) and isinstance(x.target, ast.Name):
                    self.anywhere.add(x.target.id)

    def has(self, cls, name):
        if self.dynamic or name in self.anywhere or name.startswith('__') and name.endswith('__'):
            return True
        for s in self.P.subclasses(cls):
            if s.external_bases or any(k.external_bases for k in s.mro) or s.lookup('__getattr__') is not None or s.lookup('__getattribute__') is not None:
                return True
            if s.lookup(name) is not None or any(name in self.stores.get(k, ()) for k in s.mro):
                return True
            if any(getattr(k, 'node', None) is not None and any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name for x in ast.walk(k.node)) for k in s.mro):
                return True
        return False


def guarded(n, me, top):
    """the read only happens for some classes of objects, or its failure is handled"""
    while n is not top and n is not None:
        p = getattr(n, '_parent', None)
        if isinstance(p, (ast.If, ast.IfExp, ast.While, ast.BoolOp)):
            t = p.test if not isinstance(p, ast.BoolOp) else p
            for c in ast.walk(t):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('isinstance', 'hasattr', 'issubclass', 'type') and any(isinstance(x, ast.Name) and x.id == me for x in ast.walk(c)):
                    return True
        if isinstance(p, ast.Try) and n in p.body:
            return True
        # an early exit for other classes
        for s in getattr(p, 'body', []) if isinstance(getattr(p, 'body', None), list) else []:
            if s is n:
                break
            if isinstance(s, (ast.If, ast.Assert)) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('isinstance', 'hasattr') for c in ast.walk(s.test)):
                return True
        n = p
    return False


def arity(call, f, bound):
    """what is wrong with a call, or None"""
    a = f.node.args
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args][1 if bound else 0:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if len(call.args) > len(pos) and a.vararg is None:
        return '%d arguments for %d parameters' % (len(call.args), len(pos))
    names = set(pos) | {x.arg for x in a.kwonlyargs}
    for k in call.keywords:
        if k.arg not in names and a.kwarg is None:
            return 'no parameter %s' % k.arg
        if k.arg in pos[:len(call.args)]:
            return 'parameter %s twice' % k.arg
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    miss = [p for p in need[len(call.args):] if p not in {k.arg for k in call.keywords}]
    miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in {k.arg for k in call.keywords}]
    if miss:
        return 'parameter %s is missing' % ', '.join(miss)
    return None


def resolve(ctx):
    P = ctx.P
    A = Attrs(P)
    for m in sorted(P.modules.values(), key=lambda m: m.name):
        rel = os.path.relpath(m.path, P.root)
        # names
        bad = {}
        for n in Scope(P, m).undefined():
            bad.setdefault(n.id, n)
        for k, n in sorted(bad.items()):
            ctx.bad('names', '%s:%d' % (rel, n.lineno), '%s is bound nowhere' % k, '%s %s' % (m.name, k))
        if not bad:
            ctx.ok('names', rel, 'all names are bound', m.name)
        # imports within the repository
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                b = P.modules.get(m.absolute(n))
                ctx.sites += 1
                for a in n.names if b is not None else ():
                    if a.name == '*':
                        continue
                    top = {s.get_name() for s in symtable.symtable(b.src, b.path, 'exec').get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
                    key = '%s imports %s from %s' % (m.name, a.name, b.name)
                    if a.name in top or b.name + '.' + a.name in P.modules or b.env.get('*'):
                        ctx.ok('imports', '%s:%d' % (rel, n.lineno), key, key)
                    else:
                        ctx.bad('imports', '%s:%d' % (rel, n.lineno), '%s has no %s' % (b.name, a.name), key)
    for f in sorted(P.functions(), key=lambda f: f.id):
        n0 = len(ctx.obs)
        w = ctx.where(f)
        for n in unassigned(f):
            ctx.bad('assigned before use', ctx.at(f, n), '%s is read before anything is assigned to it' % n.id, '%s %s' % (f.id, n.id))
        inner = {x: None for d in ast.walk(f.node) if isinstance(d, FUNCS + (ast.Lambda,)) and d is not f.node for x in params(d)}
        loc = assigned(f.node.body) | set(params(f.node)) | set(inner)
        for d in ast.walk(f.node):
            if isinstance(d, ast.comprehension):
                loc |= {x.id for x in ast.walk(d.target) if isinstance(x, ast.Name)}
            if isinstance(d, ast.ClassDef):
                loc |= {x.name for x in ast.walk(d) if isinstance(x, FUNCS)}
        me = f.params[0] if f.cls is not None and f.params and f.kind not in ('staticmethod',) else None
        if me is not None and (me in assigned(f.node.body) or me in inner):
            me = None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                if n.value.id == me:
                    ctx.sites += 1
                    if not A.has(f.cls, n.attr) and not guarded(n, me, f.node):
                        ctx.bad('attributes', ctx.at(f, n), '%s.%s: no object of class %s has it' % (me, n.attr, f.cls.name), '%s.%s' % (f.cls.name, n.attr))
                elif n.value.id not in loc:
                    r = P.resolve(f.module, n.value.id)
                    if isinstance(r, Module):
                        ctx.sites += 1
                        if r.env.get(n.attr) is None and P.modules.get(r.name + '.' + n.attr) is None and n.attr not in r.assigned and not n.attr.startswith('__') and not r.env.get('*'):
                            ctx.bad('attributes', ctx.at(f, n), 'module %s has no %s' % (r.name, n.attr), '%s %s' % (f.id, n.attr))
                    elif isinstance(r, Cls):
                        ctx.sites += 1
                        if not A.has(r, n.attr):
                            ctx.bad('attributes', ctx.at(f, n), 'class %s has no %s' % (r.name, n.attr), '%s %s' % (f.id, n.attr))
            if not isinstance(n, ast.Call):
                continue
            c, bound, label = None, False, ast.unparse(n.func)[:60]
            if isinstance(n.func, ast.Name) and n.func.id not in loc:
                r = P.resolve(f.module, n.func.id)
                if isinstance(r, Func) and not r.node.decorator_list:
                    c = [r]
                elif isinstance(r, Cls) and not any(k.external_bases for k in r.mro) and isinstance(r.lookup('__init__'), Func) and r.lookup('__new__') is None:
                    c, bound = [r.lookup('__init__')], True
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me and f.kind not in ('classmethod', 'decorated'):
                c = [s.lookup(n.func.attr) for s in P.subclasses(f.cls)]
                if not all(isinstance(x, Func) and x.kind == 'method' for x in c):
                    c = None
                bound = True
            if not c or any(x.kind == 'decorated' for x in c):
                continue
            ctx.sites += 1
            wrong = [arity(n, x, bound) for x in c]
            if all(wrong):
                ctx.bad('arguments', ctx.at(f, n), 'call of %s: %s' % (label, wrong[0]), '%s calls %s' % (f.id, label))
        if len(ctx.obs) == n0:
            ctx.ok('resolved', w, 'names, attributes and arguments exist', f.id)


PROPS['P23'] = (resolve, 'name resolution, definite-unassignment, attribute and arity checks over every function', 'attributes of objects other than self are not resolved')

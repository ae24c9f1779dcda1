# -*- coding: utf-8 -*-
"""
Counting loops over a list, written with an index, as loops over its elements (behaviour preserving, so that the rules see one form):

    k = 0                               for k in range(len(a)):             for x in a:
    while k < len(a):                       x = a[k]               ->           ...
        x = a[k]                            ...
        k += 1
        ...

only where the index is used for nothing else and the list is a local name that the loop neither sets nor changes.
"""
import ast

MUTATE = {'append', 'insert', 'extend', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'discard', 'update', 'popleft', 'appendleft', '__setitem__', '__delitem__'}


def names(nodes, n):
    return [x for s in nodes for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == n]


def touched(body, a):
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id == a and not isinstance(x.ctx, ast.Load):
                return True
            if isinstance(x, ast.Attribute) and x.attr in MUTATE and isinstance(x.value, ast.Name) and x.value.id == a:
                return True
            if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == a:
                return True
            if isinstance(x, (ast.Global, ast.Nonlocal)) and a in x.names:
                return True
            if isinstance(x, ast.Call) and any(isinstance(y, ast.Name) and y.id == a for y in x.args) and not (isinstance(x.func, ast.Name) and x.func.id == 'len'):
                return True         # handed on: may be changed there
    return False


def element(s, a, k):
    """x of 'x = a[k]'"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Subscript) and isinstance(s.value.value, ast.Name) and s.value.value.id == a and \
            isinstance(s.value.slice, ast.Name) and s.value.slice.id == k and isinstance(s.targets[0], (ast.Name, ast.Tuple)):
        return s.targets[0]
    return None


def len_of(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Name):
        return e.args[0].id
    return None


def step(s, k):
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == k:
        return isinstance(s.value, ast.Constant) and s.value.value == 1
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == k and isinstance(s.value, ast.BinOp) and \
            isinstance(s.value.op, ast.Add):
        v = (s.value.left, s.value.right)
        return any(isinstance(x, ast.Name) and x.id == k and isinstance(y, ast.Constant) and y.value == 1 for x, y in (v, v[::-1]))
    return False


def own_continue(body):
    """a continue of this very loop"""
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if own_continue(s.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if own_continue(getattr(s, f, [])):
                return True
        for h in getattr(s, 'handlers', []):
            if own_continue(h.body):
                return True
    return False


class Loops(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        outer, self.f = getattr(self, 'f', None), f
        self.generic_visit(f)
        self.f = outer
        return f

    def generic_visit(self, n):
        super(Loops, self).generic_visit(n)
        if getattr(self, 'f', None) is not None:
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(n, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(n, fld, self.block(b))
        return n

    def block(self, b):
        out = []
        for s in b:
            r = self.loop(s, out) if isinstance(s, (ast.While, ast.For)) else None
            out.append(s if r is None else r)
        return out

    def loop(self, s, before):
        if isinstance(s, ast.For):
            if not (isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and
                    len(s.iter.args) in (1, 2) and not s.iter.keywords):
                return None
            if len(s.iter.args) == 2 and not (isinstance(s.iter.args[0], ast.Constant) and s.iter.args[0].value == 0):
                return None
            a, k = len_of(s.iter.args[-1]), s.target.id
            if a is None or not s.body:
                return None
            t = element(s.body[0], a, k)
            body = s.body[1:]
            uses = 3        # the loop variable, the subscript
            if t is None or len(names([self.f], k)) != uses - 1:
                return None
            drop = None
        else:
            c = s.test
            if s.orelse or not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.left, ast.Name) and isinstance(c.ops[0], (ast.Lt, ast.NotEq))):
                if not (not s.orelse and isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.comparators[0], ast.Name) and isinstance(c.ops[0], ast.Gt)):
                    return None
                k, a = c.comparators[0].id, len_of(c.left)
            else:
                k, a = c.left.id, len_of(c.comparators[0])
            if a is None or len(s.body) < 2:
                return None
            t = element(s.body[0], a, k)
            if t is None:
                return None
            if step(s.body[1], k):
                body = s.body[2:]
                n = s.body[1]
            elif step(s.body[-1], k) and not own_continue(s.body):
                body = s.body[1:-1]
                n = s.body[-1]
            else:
                return None
            # the start: the last setting before, in the same block, with nothing in between that uses the index
            i = next((i for i in range(len(before) - 1, -1, -1) if names([before[i]], k)), None)
            if i is None:
                return None
            z = before[i]
            if not (isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], ast.Name) and isinstance(z.value, ast.Constant) and z.value.value == 0 and
                    type(z.value.value) is int):
                return None
            if len(names([self.f], k)) != 3 + len(names([n], k)):
                return None
            drop = i
        if touched(body, a) or names([t], a) or any(x.id == k for x in names([t], k)):
            return None
        if drop is not None:
            del before[drop]
        r = ast.For(t, ast.Name(a, ast.Load()), body or [ast.Pass()], s.orelse, None)
        ast.copy_location(r, s)
        ast.copy_location(r.iter, s)
        ast.copy_location(r.body[0], r.body[0] if body else s)
        if not body:
            ast.copy_location(r.body[0], s)
        for x in ast.walk(r.target):
            if hasattr(x, 'ctx'):
                x.ctx = ast.Store()
        return ast.fix_missing_locations(r)


def normalise(tree):
    return Loops().visit(tree)

# -*- coding: utf-8 -*-
"""
python3 tools/refac.py [-t] [-p P01,P02] [NAME...]: rewrites a scratch copy of /repo by one behaviour-preserving rewriting after the other and runs the checks on it: they must
stay quiet.  -t runs the tests on the copy, too.  Not used by any check.
"""
import ast
import concurrent.futures as cf
import copy
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/pypyvenv/bin/python'
FILES = ['geometry/SR_point.py', 'geometry/SR_line.py', 'geometry/SR_polygon.py', 'geometry/SR_polygon_group.py', 'geometry/additional_stuff.py', 'SR_Vessel/SR_hauptteile.py']


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


class Base(ast.NodeTransformer):
    """ statement lists: self.stmts(list) -> list """
    def __init__(self):
        self.k = 0

    def fresh(self, p='_t'):
        self.k += 1
        return '%s%d_' % (p, self.k)

    def generic_visit(self, node):
        super(Base, self).generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            l = getattr(node, f, None)
            if isinstance(l, list) and l and isinstance(l[0], ast.stmt):
                setattr(node, f, self.stmts(l, node, f))
        return node

    def stmts(self, l, node, f):
        out = []
        for s in l:
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return out

    def stmt(self, s):
        return s


class Invert(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=s.orelse, orelse=s.body)
        return s


class Early(Base):
    """ if c: return x; rest  ->  if c: return x else: rest """
    def stmts(self, l, node, f):
        for i, s in enumerate(l[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                return l[:i] + [ast.If(test=s.test, body=s.body, orelse=self.stmts(l[i + 1:], node, f))]
        return l


class Comp(Base):
    """ x = [comp] / return [comp]  ->  loop """
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and len(v.generators) == 1:
            t = self.fresh('_l')
            g = v.generators[0]
            body = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [v.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            # rename the loop variable
            tgt = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
            loop = ast.For(g.target, g.iter, body, [])
            m = {x: '_c_' + x for x in tgt}
            for b in [g.target] + body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Name) and n.id in m:
                        n.id = m[n.id]
            s.value = name(t)
            return [ast.Assign([name(t, ast.Store())], ast.List([], ast.Load())), loop, s]
        return s


class Ternary(Base):
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, ast.Assign) and isinstance(v, ast.IfExp):
            return ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
        if isinstance(s, ast.Return) and isinstance(v, ast.IfExp):
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return s


class Unternary(Base):
    """ if c: return a else/then return b -> conditional expression """
    def stmts(self, l, node, f):
        out = []
        i = 0
        while i < len(l):
            s = l[i]
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None:
                e = s.orelse
                if not e and i + 1 < len(l):
                    e = [l[i + 1]]
                if len(e) == 1 and isinstance(e[0], ast.Return) and e[0].value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, s.body[0].value, e[0].value)))
                    i += 2 if not s.orelse else 1
                    continue
            out.append(s)
            i += 1
        return out


class Result(Base):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.fresh('_r')
            return [ast.Assign([name(t, ast.Store())], s.value), ast.Return(name(t))]
        return s


class Flip(Base):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Morgan(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class NotCmp(Base):
    M = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Is: ast.IsNot, ast.In: ast.NotIn, ast.IsNot: ast.Is, ast.NotIn: ast.In}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.M[type(n.ops[0])]()], n.comparators))
        return n


class Index(Base):
    """ for x in self.segments -> by index """
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Attribute) and s.iter.attr in ('segments', 'members', 'point_set', 'nodes') and not s.orelse:
            a, k = self.fresh('_a'), self.fresh('_k')
            return [ast.Assign([name(a, ast.Store())], s.iter),
                    ast.For(name(k, ast.Store()), ast.Call(name('range'), [ast.Call(name('len'), [name(a)], [])], []),
                            [ast.Assign([s.target], ast.Subscript(name(a), name(k), ast.Load()))] + s.body, [])]
        return s


class While(Base):
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            a, k = self.fresh('_a'), self.fresh('_k')
            return [ast.Assign([name(a, ast.Store())], ast.Call(name('list'), [s.iter], [])), ast.Assign([name(k, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(name(k), [ast.Lt()], [ast.Call(name('len'), [name(a)], [])]),
                              [ast.Assign([s.target], ast.Subscript(name(a), name(k), ast.Load())), ast.AugAssign(name(k, ast.Store()), ast.Add(), ast.Constant(1))] + s.body, [])]
        return s


def args_of(fn):
    a = fn.args
    return [x.arg for x in a.args]


def decs(fn):
    return [d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '?') for d in fn.decorator_list]


class Extract(Base):
    """ every method delegates to a private one with its body """
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.name.startswith('__') and decs(s) in ([], ['property'], ['setter']) and not s.args.vararg and not s.args.kwarg and args_of(s) and \
                    not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) and not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(s)):
                pn = '_do_%s_%s' % (n.name.lower(), s.name) + ('_set' if decs(s) == ['setter'] else '')
                b = ast.FunctionDef(pn, ast.arguments([], [ast.arg(x) for x in args_of(s)], None, [], [], None, []), s.body, [])
                s.body = [ast.Return(ast.Call(ast.Attribute(name('self'), pn, ast.Load()), [name(x) for x in args_of(s)[1:]], []))]
                if args_of(s)[0] != 'self':
                    s.body = b.body
                    out.append(s)
                    continue
                out += [b, s]
            else:
                out.append(s)
        n.body = out
        return n


class Module(Base):
    """ every query method delegates to a module-level function """
    def visit_Module(self, m):
        new = []
        for n in m.body:
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, ast.FunctionDef) and decs(s) in ([], ['property'], ['setter']) and not s.args.vararg and not s.args.kwarg and args_of(s)[:1] == ['self'] and \
                            not any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(s)) and \
                            not any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for x in ast.walk(s)):
                        pn = '_%s_%s' % (n.name.lower(), s.name.strip('_')) + ('_set' if decs(s) == ['setter'] else '') + ('_op' if s.name.startswith('__') else '')
                        new.append(ast.FunctionDef(pn, ast.arguments([], [ast.arg(x) for x in args_of(s)], None, [], [], None, []), s.body, []))
                        s.body = [ast.Return(ast.Call(name(pn), [name(x) for x in args_of(s)], []))]
                        if s.name == '__init__':
                            s.body = [ast.Expr(s.body[0].value)]
        k = max([i for i, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom)) and i < 40] + [-1]) + 1
        m.body[k:k] = new
        return m


class Rename(Base):
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for b in n.body for x in ast.walk(b)):
            return n
        loc = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - set(args_of(n)) - {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id = 'v_' + x.id
                elif isinstance(x, ast.ExceptHandler) and x.name in loc:
                    x.name = 'v_' + x.name
        return n


class Quant(Base):
    """ any([..]) / all([..]) / sum([..]) in return, assign, if -> loop before the statement """
    def stmt(self, s):
        fields = {ast.Return: 'value', ast.Assign: 'value', ast.If: 'test'}
        f = fields.get(type(s))
        if not f or getattr(s, f) is None:
            return s
        v = getattr(s, f)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('any', 'all', 'sum') and len(v.args) == 1 and \
                isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) and len(v.args[0].generators) == 1:
            c = v.args[0]
            g = c.generators[0]
            t = self.fresh('_q')
            m = {x.id: '_c_' + x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for b in [g.target, c.elt] + g.ifs:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and x.id in m:
                        x.id = m[x.id]
            if v.func.id == 'sum':
                body = [ast.Assign([name(t, ast.Store())], ast.BinOp(name(t), ast.Add(), c.elt))]
                init = 0
            elif v.func.id == 'any':
                body = [ast.If(c.elt, [ast.Assign([name(t, ast.Store())], ast.Constant(True)), ast.Break()], [])]
                init = False
            else:
                body = [ast.If(ast.UnaryOp(ast.Not(), c.elt), [ast.Assign([name(t, ast.Store())], ast.Constant(False)), ast.Break()], [])]
                init = True
            for q in reversed(g.ifs):
                body = [ast.If(q, body, [])]
            setattr(s, f, name(t))
            return [ast.Assign([name(t, ast.Store())], ast.Constant(init)), ast.For(g.target, g.iter, body, []), s]
        return s


class Temp(Base):
    """ operands of returned / assigned arithmetic get names """
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.BinOp):
            a, b = self.fresh(), self.fresh()
            v = s.value
            s.value = ast.BinOp(name(a), v.op, name(b))
            return [ast.Assign([name(a, ast.Store())], v.left), ast.Assign([name(b, ast.Store())], v.right), s]
        return s


class Arith(Base):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, ast.Mult) and not isinstance(n.left, (ast.List, ast.Constant)) and not isinstance(n.right, (ast.List, ast.Constant)):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            return ast.BinOp(ast.Constant(0.5), ast.Mult(), n.left)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'sqrt':
            return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
        return n


class AbsEps(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE)) and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == 'abs':
            e = n.comparators[0]
            return ast.Compare(ast.UnaryOp(ast.USub(), e), [n.ops[0], n.ops[0]], [n.left.args[0], copy.deepcopy(e)])
        return n


class InTuple(Base):
    """ x in (a, b) -> x == a or x == b; [..] -> tuple """
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and 1 <= len(n.comparators[0].elts) < 4 and \
                isinstance(n.left, (ast.Name, ast.Attribute)):
            e = [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [x]) for x in n.comparators[0].elts]
            e = ast.BoolOp(ast.Or(), e) if len(e) > 1 else e[0]
            return e if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), e)
        return n


class Pair(Base):
    """ consecutive independent simple assignments to names -> tuple assignment """
    def stmts(self, l, node, f):
        out = []
        i = 0
        while i < len(l):
            s = l[i]
            if i + 1 < len(l) and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in l[i:i + 2]):
                a, b = l[i:i + 2]
                if a.targets[0].id != b.targets[0].id and a.targets[0].id not in {x.id for x in ast.walk(b.value) if isinstance(x, ast.Name)} and not isinstance(node, (ast.Module, ast.ClassDef)):
                    out.append(ast.Assign([ast.Tuple([a.targets[0], b.targets[0]], ast.Store())], ast.Tuple([a.value, b.value], ast.Load())))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class SelfAlias(Base):
    """ repeated attribute chains self.x.y get a local name at the start: here only self -> me """
    def visit_FunctionDef(self, n):
        if args_of(n)[:1] == ['self'] and not any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for b in n.body for x in ast.walk(b)) and not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(n)):
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and x.id == 'self':
                        x.id = 'me'
            n.body = [ast.Assign([name('me', ast.Store())], name('self'))] + n.body
        return n


class Yoda(Base):
    """ if a and b: X  ->  if a: if b: X (no else) ; bool results through if """
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for v in reversed(s.test.values):
                body = [ast.If(v, body, [])]
            return body
        if isinstance(s, ast.If) and s.body and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or):
            e = s.orelse
            for v in reversed(s.test.values):
                e = [ast.If(v, copy.deepcopy(s.body), e)]
            return e
        return s


class BoolRet(Base):
    """ return COND -> if COND: return True / return False """
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Compare):
            return [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
        return s


class Dead(Base):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[k:k] = [ast.Assign([name('_unused_', ast.Store())], ast.Constant(0)), ast.Expr(ast.Constant('noted')), ast.Pass()]
        return n


class ListTuple(Base):
    """ generators for comprehensions in any/all/sum/set and back """
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all', 'sum', 'set', 'min', 'max', 'tuple', 'sorted') and len(n.args) == 1:
            a = n.args[0]
            if isinstance(a, ast.ListComp):
                n.args[0] = ast.GeneratorExp(a.elt, a.generators)
            elif isinstance(a, ast.GeneratorExp):
                n.args[0] = ast.ListComp(a.elt, a.generators)
        return n


class Aug(Base):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            t = name(s.target.id)
            if isinstance(s.value, (ast.Constant, ast.BinOp, ast.Call)):
                return ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
        return s


class Kw(Base):
    """ positional -> unchanged, keyword other=x -> positional when it is the only argument """
    def visit_Call(self, n):
        self.generic_visit(n)
        if not n.args and len(n.keywords) == 1 and n.keywords[0].arg in ('other', 'point', 'p', 'line'):
            n.args, n.keywords = [n.keywords[0].value], []
        return n


class Unparse(Base):
    pass


T = {c.__name__.lower(): c for c in (Unparse, Invert, Early, Comp, Ternary, Unternary, Result, Flip, Morgan, NotCmp, Index, While, Extract, Module, Rename, Quant, Temp, Arith, AbsEps, InTuple, Pair,
                                     SelfAlias, Yoda, BoolRet, Dead, ListTuple, Aug, Kw)}


def one(n, tests, props, keep):
    d = tempfile.mkdtemp(prefix='refac-')
    try:
        repo = os.path.join(d, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        for part in n.split('+'):
            for f in FILES:
                p = os.path.join(repo, f)
                t = T[part]().visit(ast.parse(open(p, encoding='utf-8').read()))
                ast.fix_missing_locations(t)
                open(p, 'w', encoding='utf-8').write('# -*- coding: utf-8 -*-\n' + ast.unparse(t) + '\n')
        out = []
        if tests:
            r = subprocess.run([PY, '-m', 'pytest', '-q', 'tests', '-p', 'no:cacheprovider'], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))
            out.append('tests: ' + r.stdout.strip().splitlines()[-1])
            if r.returncode:
                out += [l[:200] for l in r.stdout.splitlines() if l.startswith(('FAILED', 'E  '))][:8]
        for p in props:
            t0 = time.time()
            e = os.path.join(d, p)
            os.makedirs(e)
            r = subprocess.run(['python3', '-m', 'sa.check', p], cwd=ROOT, env=dict(os.environ, SA_REPO=repo, SA_EVIDENCE=e, VERIF_SEED='1'), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            l = [x for x in r.stdout.splitlines() if ' obligations' in x]
            bad = r.returncode != 0
            out.append('%s %s rc=%d %s %.0fs' % ('  ' if not bad else '!!', p, r.returncode, l[-1] if l else r.stdout[-300:], time.time() - t0))
            if bad:
                v = next((x.split('replay=')[1] for x in r.stdout.splitlines() if 'replay=' in x), '')
                if os.path.exists(v):
                    out.append('\n'.join('      ' + x[:300] for x in open(v).read().splitlines()[:14]))
            out += ['      ' + x[:260] for x in r.stdout.splitlines() if x.startswith('undecided')][:4]
        return n, '\n'.join(out)
    finally:
        if not keep:
            shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    tests = '-t' in a
    keep = '-k' in a
    props = None
    if '-p' in a:
        i = a.index('-p')
        props = a[i + 1].split(',')
        del a[i:i + 2]
    a = [x for x in a if not x.startswith('-')]
    if props is None:
        import json
        props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
        man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
        na = {x['property'] if isinstance(x, dict) and 'property' in x else None for x in man.get('not_applicable', [])}
        props = [p for p in props if p not in na]
    with cf.ThreadPoolExecutor(5) as ex:
        for n, m in ex.map(lambda n: one(n, tests, props, keep), a or list(T)):
            print('== %s\n%s' % (n, m), flush=True)


main()

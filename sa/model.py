# -*- coding: utf-8 -*-
"""
Program model: every non-test module of /repo, parsed; names, imports, classes and methods resolved.
"""
import ast
import os

from . import norm

REPO = os.environ.get('SA_REPO', '/repo')


class AnchorMissing(Exception):
    """a public construct the rules are anchored at is gone: the analysis is broken, not the property"""


class Func(object):
    def __init__(self, name, node, module, cls=None, kind='function', qual=None):
        self.name, self.node, self.module, self.cls, self.kind = name, node, module, cls, kind
        self.qual = qual or ((cls.name + '.' if cls else '') + name)

    @property
    def id(self):
        return '%s:%s' % (self.module.name, self.qual)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]

    def __repr__(self):
        return '<%s>' % self.id


class Cls(object):
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.own = {}        # name -> Func or AST expression (class attribute)
        self._mro = None

    @property
    def bases(self):
        r = []
        for b in self.node.bases:
            e = self.module.program.resolve_expr(self.module, b)
            if isinstance(e, Cls):
                r.append(e)
        return r

    @property
    def external_bases(self):
        """base expressions that are neither repository classes nor object"""
        r = []
        for b in self.node.bases:
            e = self.module.program.resolve_expr(self.module, b)
            if not isinstance(e, Cls) and not (isinstance(b, ast.Name) and b.id == 'object'):
                r.append(ast.dump(b))
        return r

    @property
    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def lookup(self, name):
        for c in self.mro:
            if name in c.own:
                return c.own[name]
        return None

    def subclass_of(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


def _c3(c):
    seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            h = seqs[0][0]
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                s.pop(0)


class External(object):
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return '<external %s>' % self.path


class ConstExpr(object):
    def __init__(self, node, module):
        self.node, self.module = node, module


class Module(object):
    def __init__(self, program, name, path):
        self.program, self.name, self.path = program, name, path
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = norm.normalise(ast.parse(self.src, path))
        self.ispkg = os.path.basename(path) == '__init__.py'
        self.env = {}
        self.assigned = {}     # module level names -> [AST value nodes]
        self._scan(self.tree.body)
        set_parents(self.tree)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.env[a.asname] = ('module', a.name)
                    else:
                        self.env[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = self.absolute(st)
                for a in st.names:
                    if a.name == '*':
                        self.env.setdefault('*', []).append(base)
                    else:
                        self.env[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.env[st.name] = Func(st.name, st, self)
            elif isinstance(st, ast.ClassDef):
                self.env[st.name] = self._class(st)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tg:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and st.value is not None:
                            self.assigned.setdefault(n.id, []).append(st.value)
                            if isinstance(t, ast.Name):
                                if not (n.id in self.env and isinstance(self.env[n.id], tuple)):
                                    self.env[n.id] = ConstExpr(st.value, self)
                            else:
                                self.env[n.id] = External('unpacked')
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.orelse)
                self._scan(st.finalbody)
            elif isinstance(st, ast.If):
                if not _is_main(st.test):
                    self._scan(st.body)
                    self._scan(st.orelse)

    def absolute(self, st):
        if not st.level:
            return st.module or ''
        parts = self.name.split('.')
        if not self.ispkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return '.'.join(parts + ([st.module] if st.module else []))

    def _class(self, node):
        c = Cls(node.name, node, self)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                kind = 'method'
                for d in st.decorator_list:
                    n = d.func if isinstance(d, ast.Call) else d
                    nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else '?'
                    if nm == 'property' or nm == 'abstractproperty':
                        kind = 'property'
                    elif nm in ('cached_property', 'cached_property_with_ttl', 'threaded_cached_property', 'reify', 'lazy'):
                        kind = 'cached'
                    elif nm == 'classmethod':
                        kind = 'classmethod'
                    elif nm == 'staticmethod':
                        kind = 'staticmethod'
                    elif nm in ('lru_cache', 'cache', 'memoize', 'memoized'):
                        kind = 'memo' if kind == 'method' else ('cached' if kind == 'property' else kind)
                    elif nm == 'setter':
                        kind = 'setter'
                    elif nm in ('deleter',):
                        kind = 'deleter'
                    elif nm == 'abstractmethod':
                        pass
                    else:
                        kind = 'decorated'
                f = Func(st.name, st, self, c, kind)
                if kind in ('setter', 'deleter'):
                    c.own.setdefault('@' + kind + ':' + st.name, f)
                else:
                    c.own[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.own[t.id] = ConstExpr(st.value, self)
        return c


def _is_main(test):
    return (isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and test.left.id == '__name__')


def set_parents(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._parent = n


class Program(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        for d, dirs, files in os.walk(self.root):
            dirs[:] = sorted(x for x in dirs if not x.startswith('.') and x not in ('__pycache__', 'tests', 'test', 'extra'))
            for f in sorted(files):
                if f.endswith('.py') and not (d == self.root and f == 'setup.py'):
                    p = os.path.join(d, f)
                    name = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    self.modules[name] = Module(self, name, p)
        if not self.modules:
            raise AnchorMissing('no modules under %s' % self.root)

    # -------------------------------------------------- resolution
    def resolve(self, module, name, _seen=()):
        e = module.env.get(name)
        if e is None:
            for base in module.env.get('*', []):
                m = self.modules.get(base)
                if m is not None and (base, name) not in _seen:
                    r = self.resolve(m, name, _seen + ((base, name),))
                    if r is not None:
                        return r
            return None
        if isinstance(e, tuple):
            if e[0] == 'module':
                return self.modules.get(e[1]) or External(e[1])
            _, base, nm = e
            m = self.modules.get(base)
            if m is not None:
                if (base, nm) in _seen:
                    return None
                r = self.resolve(m, nm, _seen + ((base, nm),))
                if r is not None:
                    return r
                sub = self.modules.get(base + '.' + nm)
                if sub is not None:
                    return sub
                return None
            return External(base + '.' + nm)
        return e

    def resolve_expr(self, module, expr):
        if isinstance(expr, ast.Name):
            return self.resolve(module, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(module, expr.value)
            if isinstance(b, Module):
                r = self.resolve(b, expr.attr)
                return r if r is not None else self.modules.get(b.name + '.' + expr.attr)
            if isinstance(b, External):
                return External(b.path + '.' + expr.attr)
            if isinstance(b, Cls):
                return b.lookup(expr.attr)
        return None

    def find_class(self, name, module=None):
        c = [e for m in self.modules.values() for e in m.env.values() if isinstance(e, Cls) and e.name == name]
        if module is not None:
            m = self.modules.get(module)
            e = self.resolve(m, name) if m is not None else None
            if isinstance(e, Cls):
                return e
        if len(c) >= 1:
            return c[0]
        raise AnchorMissing('class %s not found' % name)

    def cls(self, module, name):
        m = self.modules.get(module)
        if m is None:
            raise AnchorMissing('module %s not found' % module)
        e = self.resolve(m, name)
        if not isinstance(e, Cls):
            raise AnchorMissing('class %s.%s not found' % (module, name))
        return e

    def func(self, module, name):
        m = self.modules.get(module)
        if m is None:
            raise AnchorMissing('module %s not found' % module)
        e = self.resolve(m, name)
        if not isinstance(e, Func):
            raise AnchorMissing('function %s.%s not found' % (module, name))
        return e

    def method(self, cls, name):
        f = cls.lookup(name)
        if not isinstance(f, (Func, ConstExpr)):
            raise AnchorMissing('method %s.%s not found' % (cls.name, name))
        return f

    def classes(self):
        seen = []
        for m in self.modules.values():
            for e in m.env.values():
                if isinstance(e, Cls) and e.module is m and e not in seen:
                    seen.append(e)
        return seen

    def functions(self):
        """all functions and methods defined in the repository (nested ones belong to their parent)"""
        out = []
        for m in self.modules.values():
            for e in m.env.values():
                if isinstance(e, Func) and e.module is m:
                    out.append(e)
                elif isinstance(e, Cls) and e.module is m:
                    out.extend(x for x in e.own.values() if isinstance(x, Func))
        return out

    def subclasses(self, cls):
        return [c for c in self.classes() if cls in c.mro]

# -*- coding: utf-8 -*-
"""
Points-to, effect and typestate analysis of the repository's source.

Objects are abstracted to labels (allocation site, class, creation context).  A set-up program - plain constructor calls of
the repository's own classes - builds the world of the caller; every label it creates is "old".  A root (a query, an
operation) is then interpreted abstractly in that world: variables flow-sensitively, the heap by weak updates up to a
fixpoint, calls by re-analysis of the callee per receiver and arguments.  Every write to an old object is an effect and is
recorded with the construct that does it.  A watch (a finite automaton over the writes that concern one object) is carried
along every path: the set of automaton states at the normal exits decides must-properties ("whenever the outline is
replaced, the triangulation is dropped before returning").

Nothing is executed; values of numbers are not tracked.
"""
import ast
import os

from .model import Cls, Func, Module, External, ConstExpr, AnchorMissing



class Lab(object):
    __slots__ = ('kind', 'site', 'ctx', '_h', 'summary', 'serial')
    table = {}

    def __repr__(self):
        return '<%s@%s>' % (self.kind if isinstance(self.kind, str) else self.kind.name, self.site)

    @property
    def name(self):
        return self.kind if isinstance(self.kind, str) else self.kind.name


def lab(kind, site, ctx=()):
    key = (kind, site, ctx)
    r = Lab.table.get(key)
    if r is None:
        r = Lab()
        r.kind, r.site, r.ctx = kind, site, ctx
        r.summary = False
        r.serial = len(Lab.table)
        Lab.table[key] = r
    return r


class Const(object):
    """scalars: numbers and everything without interesting structure; True / False / None / strings kept apart"""

    def __init__(self, name, value=None):
        self.name, self.value = name, value

    def __repr__(self):
        return self.name


SC = Const('scalar')
TRUE_, FALSE_, NONE_ = Const('True', True), Const('False', False), Const('None', None)
_STR = {}


def str_(s):
    if s not in _STR:
        _STR[s] = Const('%r' % s, s)
    return _STR[s]


class BM(object):
    """bound method (or classmethod)"""
    table = {}

    def __repr__(self):
        return 'bound %s' % self.func.qual


def bm(func, recv):
    r = BM.table.get((func, recv))
    if r is None:
        r = BM()
        r.func, r.recv = func, recv
        BM.table[(func, recv)] = r
    return r


class BuiltinM(object):
    """method of a container or scalar"""
    table = {}


def bum(recv, name):
    r = BuiltinM.table.get((recv, name))
    if r is None:
        r = BuiltinM()
        r.recv, r.name = recv, name
        BuiltinM.table[(recv, name)] = r
    return r


class Clo(object):
    def __init__(self, node, frame, func):
        self.node, self.frame, self.func = node, frame, func


class Builtin(object):
    def __init__(self, name):
        self.name = name


class SuperV(object):
    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


_BUILTINS = {}
_SUPERS = {}
PURE = ('len', 'sum', 'any', 'all', 'sorted', 'min', 'max', 'print', 'enumerate', 'range', 'list', 'tuple', 'set', 'bool', 'str', 'repr', 'reversed', 'isinstance')
CONTAINERS = ('list', 'tuple', 'set', 'dict', 'gen', 'deque')
EMPTYV = frozenset()
SCV = frozenset([SC])

MUTATORS = {'append', 'add', 'insert', 'extend', 'remove', 'pop', 'popleft', 'discard', 'sort', 'reverse', 'clear', 'update',
            'setdefault', 'rotate', 'appendleft', 'extendleft', 'popitem', 'difference_update', 'intersection_update',
            'symmetric_difference_update', '__setitem__', '__delitem__'}


class Effect(object):
    def __init__(self, lab_, field, func, line, path):
        self.lab, self.field, self.func, self.line, self.path = lab_, field, func, line, path

    @property
    def key(self):
        return (self.lab, self.field, self.func, self.line)


class Frame(object):
    def __init__(self, func, module, env, recv=None, ctx=(), parent=None):
        self.func, self.module, self.env, self.recv, self.ctx, self.parent = func, module, env, recv, ctx, parent
        self.ret = set()
        self.ret_ts = EMPTYV
        self.loops = []
        self.globals = set()
        self.yields = None


class St(object):
    """what changes along a path: variables, the watch, and the containers made by this function that nothing but a variable refers to"""
    __slots__ = ('env', 'ts', 'fresh')

    def __init__(self, env, ts, fresh=EMPTYV):
        self.env, self.ts, self.fresh = env, ts, fresh

    def copy(self):
        return St(dict(self.env), self.ts, self.fresh)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = dict(a.env)
    for k, v in b.env.items():
        env[k] = env[k] | v if k in env else v
    return St(env, a.ts | b.ts, a.fresh & b.fresh)


def same(a, b):
    return a.ts == b.ts and a.env == b.env and a.fresh == b.fresh


class Engine(object):
    def __init__(self, program, depth=2):
        self.P = program
        self.depth = depth        # of creation contexts
        self.heap = {}
        self.old = set()
        self.effects = {}
        self.unknown = {}
        self.memo = {}
        self.stack = []
        self.changed = False
        self.watch = None
        self.frozen = False       # set-up phase over
        self.funcs = set()
        self.calls = 0
        self.budget = 0
        self.sites = {}
        self.quiet = 0
        self.log = {}
        self.constructing = []
        self.preserve = 0
        self.preserving = set()
        self.fieldidx = {}
        self.attrs = {}
        self.version = 0
        self.reset()

    def reset(self):
        self.memo, self.attrs, self.keys, self.envs = {}, {}, {}, {}
        self.ver, self.readers, self.stale, self.done, self.deps = {}, {}, set(), set(), set()

    # ------------------------------------------------------------------ heap
    def new(self, kind, node, fr, what='', ctx=None):
        n = lab(kind, (fr.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), what, self.frozen), fr.ctx if ctx is None else ctx)
        if (n, '#') not in self.heap:
            self.heap[(n, '#')] = SCV
            self.fieldidx.setdefault(n, set()).add('#')
        return n

    def load(self, l, field):
        self.deps.add(l)
        return self.heap.get((l, field), EMPTYV)

    def put(self, l, field, vals):
        if not vals:
            return
        cur = self.heap.get((l, field))
        if cur is None:
            self.heap[(l, field)] = frozenset(vals)
            self.fieldidx.setdefault(l, set()).add(field)
            self.touch(l)
        elif not vals <= cur:
            self.heap[(l, field)] = cur | vals
            self.touch(l)

    # a call is analysed again only when something it read has changed since
    def touch(self, dep):
        self.changed = True
        self.version += 1
        self.ver[dep] = self.version
        for k in self.readers.get(dep, ()):
            self.mark(k)

    def mark(self, k):
        todo = [k]
        while todo:
            k = todo.pop()
            if k not in self.stale:
                self.stale.add(k)
                todo.extend(self.readers.get(('m', k), ()))

    def enter(self, key):
        """remembered (result, watch states) when the call need not be analysed (again), else None"""
        k = self.keys.setdefault(key, len(self.keys))
        self.deps.add(('m', k))
        if k in self.done or (k in self.memo and k not in self.stale):
            return k, self.memo.get(k, (EMPTYV, EMPTYV))
        return k, None

    def analyse(self, k, body):
        outer, self.deps = self.deps, set()
        self.done.add(k)
        self.stale.discard(k)
        v0 = self.version
        try:
            ret, ts = body()
        finally:
            deps, self.deps = self.deps, outer
        o = self.memo.get(k)
        new = (ret, ts) if o is None else (o[0] | ret, o[1] | ts)
        if new != o:
            self.memo[k] = new
            if o is not None or ret or ts:
                self.touch(('m', k))
        for d in deps:
            self.readers.setdefault(d, set()).add(k)
        for d in deps:
            if self.ver.get(d, -1) > v0 or (type(d) is tuple and d[0] == 'm' and d[1] in self.stale):
                self.mark(k)
                break
        return new

    def write(self, labs, field, vals, node, fr, st, weak=False):
        """assignment to a field (or, field '*', to the content) of one of the labels"""
        labs = [x for x in labs if isinstance(x, Lab)]
        if field in self.log:
            self.log[field].extend((l, vals, self.preserve > 0, node, fr) for l in labs)
        for l in labs:
            self.put(l, field, vals)
            if l in self.old and not self.quiet:
                e = Effect(l, field, fr.func, getattr(node, 'lineno', 0), fr.module.path)
                if e.key not in self.effects:
                    self.effects[e.key] = e
        if self.watch is not None and st is not None and self.frozen:
            single = len(labs) == 1 and not weak
            for l in labs:
                if l in self.constructing and l not in self.old or l in st.fresh:
                    continue
                st.ts = self.watch.event(self, l, field, vals, st.ts, single and not l.summary, self.preserve > 0, node, fr)

    def fields(self, l):
        self.deps.add(l)
        return list(self.fieldidx.get(l, ()))

    def elements(self, v):
        out = set()
        for l in v:
            if isinstance(l, Lab):
                self.deps.add(l)
                if l.kind == 'dict':
                    out |= self.load(l, 'k')
                elif isinstance(l.kind, str):
                    for f in self.fieldidx.get(l, ()):
                        if f == '*' or isinstance(f, int):
                            out |= self.heap[(l, f)]
                else:
                    out.add(SC)
            else:
                out.add(SC)
        return frozenset(out)

    def reach(self, vals, skip=()):
        """labels reachable through fields other than those of `skip`"""
        seen, todo = set(), [x for x in vals]
        while todo:
            x = todo.pop()
            if isinstance(x, BM):
                x = x.recv
            if not isinstance(x, Lab) or x in seen:
                continue
            seen.add(x)
            self.deps.add(x)
            for f in self.fieldidx.get(x, ()):
                if f not in skip:
                    todo.extend(self.heap[(x, f)])
        return seen

    # ------------------------------------------------------------------ running
    def fixpoint(self, body, limit=300):
        """runs body() until heap and call results are stable"""
        for i in range(limit):
            self.changed = False
            self.done = set()
            self.version += 1
            c0 = self.calls
            r = body()
            if os.environ.get('SA_DEBUG'):
                pass
            if not self.changed:
                return r
        raise RuntimeError('no fixpoint')

    def setup(self, src, name='world'):
        """runs a set-up program; returns its variables.  All labels it creates are old afterwards"""
        from .core import SpecModule
        m = SpecModule(self.P, src)
        for mod in self.P.modules.values():
            for k, e in mod.env.items():
                if isinstance(e, (Cls, Func)) and e.module is mod:
                    m.env.setdefault(k, e)
        f = m.env[name]
        res = {}

        def body():
            fr = Frame(f, m, {}, ctx=())
            st = St({}, EMPTYV)
            out = self.block(f.node.body, st, fr)
            if out is None:
                raise RuntimeError('the set-up program does not end')
            res.clear()
            res.update(out.env)
            return res
        self.fixpoint(body)
        self.old = {l for (l, f) in self.heap} | {x for v in self.heap.values() for x in v if isinstance(x, Lab)}
        self.world, self.wmod = dict(res), m
        self.snapshot = dict(self.heap)
        self.frozen = True
        return res

    def run(self, expr, watch=None, keep=False):
        """abstract value of a root in the world; effects are in self.effects, the watch's exit states in self.exit.
        keep: on top of what earlier roots did, effects accumulate (one heap for all of them, cheaper)"""
        if not keep:
            self.heap = dict(self.snapshot)
            self.fieldidx = {}
            for (l, f) in self.heap:
                self.fieldidx.setdefault(l, set()).add(f)
            self.effects, self.unknown = {}, {}
            self.reset()
            self.funcs = set()
        self.watch = watch
        tree = ast.parse(expr)
        f = Func('<root>', tree, self.wmod)
        res = {}

        def body():
            fr = Frame(f, self.wmod, {}, ctx=('root',))
            st = St(dict(self.world), frozenset([watch.start]) if watch else EMPTYV)
            val = EMPTYV
            for i, s in enumerate(tree.body):
                if isinstance(s, ast.Expr):
                    val = self.ev(s.value, st, fr)
                else:
                    st = self.stmt(s, st, fr)
                    if st is None:
                        break
            res['v'] = val
            res['ts'] = st.ts if st is not None else EMPTYV
            return val
        self.fixpoint(body)
        self.exit = res['ts']
        return res['v']

    # ------------------------------------------------------------------ statements
    def block(self, body, st, fr):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st, fr):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return st
            self.ev(s.value, st, fr)
            return self.live(st)
        if t is ast.Assign:
            v = self.ev(s.value, st, fr)
            for tg in s.targets:
                self.assign(tg, v, st, fr)
            if self.watch is not None and self.frozen:
                self.own(s, v, st, fr)
            return self.live(st)
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st, fr), st, fr)
            return self.live(st)
        if t is ast.AugAssign:
            cur = self.ev(_load(s.target), st, fr)
            v = self.ev(s.value, st, fr)
            out = set()
            for l in cur:
                if isinstance(l, Lab) and l.kind in ('list', 'set', 'deque', 'dict'):
                    self.write([l], '*', self.elements(v), s, fr, st, weak=len(cur) > 1)
                    out.add(l)
                elif isinstance(l, Lab) and l.kind in ('tuple', 'gen'):
                    n = self.new('tuple', s, fr, 'aug')
                    self.put(n, '*', self.elements(cur) | self.elements(v))
                    out.add(n)
                elif isinstance(l, Lab):
                    out |= self.binop(s.op, frozenset([l]), v, s, st, fr)
                else:
                    out.add(SC)
            self.assign(s.target, frozenset(out), st, fr)
            return self.live(st)
        if t is ast.Return:
            v = self.ev(s.value, st, fr) if s.value is not None else frozenset([NONE_])
            if self.live(st) is None:
                return None
            fr.ret |= v
            fr.ret_ts = fr.ret_ts | st.ts
            return None
        if t is ast.If:
            c = self.truth(s.test, st, fr)
            if self.live(st) is None:
                return None
            a = b = None
            if c is not False:
                a = self.block(s.body, self.refine(s.test, True, st.copy(), fr), fr)
            if c is not True:
                b = self.block(s.orelse, self.refine(s.test, False, st.copy(), fr), fr)
            return join(a, b)
        if t in (ast.For, ast.While):
            return self.loop(s, st, fr)
        if t is ast.Break:
            fr.loops[-1][0] = join(fr.loops[-1][0], st)
            return None
        if t is ast.Continue:
            fr.loops[-1][1] = join(fr.loops[-1][1], st)
            return None
        if t is ast.Raise:
            if s.exc is not None:
                self.ev(s.exc, st, fr)
            return None
        if t is ast.Assert:
            self.ev(s.test, st, fr)
            return self.live(st)
        if t is ast.Try:
            acc = st.copy()
            cur = st
            for x in s.body:
                if cur is None:
                    break
                cur = self.stmt(x, cur, fr)
                acc = join(acc, cur.copy() if cur is not None else None)
            if cur is not None and s.orelse:
                cur = self.block(s.orelse, cur, fr)
            out = cur
            for h in s.handlers:
                hs = acc.copy()
                if h.name:
                    hs.env[h.name] = SCV
                out = join(out, self.block(h.body, hs, fr))
            if s.finalbody:
                out = self.block(s.finalbody, out, fr) if out is not None else None
            return out
        if t is ast.With:
            for it in s.items:
                v = self.ev(it.context_expr, st, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, st, fr)
            return self.block(s.body, st, fr)
        if t is ast.FunctionDef:
            st.fresh = EMPTYV
            c = self.closure(s, fr)
            self.assign(ast.Name(s.name, ast.Store()), frozenset([c]), st, fr)
            return st
        if t in (ast.Import, ast.ImportFrom):
            for a in s.names:
                nm = (a.asname or a.name).split('.')[0]
                if t is ast.Import:
                    e = self.P.modules.get(a.name if a.asname else nm) or _ext(a.name if a.asname else nm)
                else:
                    base = fr.module.absolute(s)
                    m = self.P.modules.get(base)
                    e = self.P.resolve(m, a.name) if m is not None else _ext(base + '.' + a.name)
                    if e is None:
                        e = _ext(base + '.' + a.name)
                self.assign(ast.Name(nm, ast.Store()), self.entity(e, a.name, fr), st, fr)
            return st
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Subscript):
                    o = self.ev(tg.value, st, fr)
                    self.ev(tg.slice, st, fr)
                    self.write(o, '*', SCV, s, fr, st, weak=True)
                elif isinstance(tg, ast.Attribute):
                    o = self.ev(tg.value, st, fr)
                    self.write(o, tg.attr, frozenset([NONE_]), s, fr, st)
            return st
        if t is ast.Global:
            fr.globals |= set(s.names)
            return st
        if t in (ast.Pass, ast.Nonlocal, ast.ClassDef):
            return st
        self.note('statement %s' % t.__name__, s, fr)
        return st

    def live(self, st):
        return st if st.ts or self.watch is None or not self.frozen else None

    def loop(self, s, st, fr):
        if isinstance(s, ast.For):
            it = self.ev(s.iter, st, fr)
        acc = st.copy()
        brk = None
        first = True
        for _ in range(60):
            cur = acc.copy()
            never = False
            if isinstance(s, ast.For):
                els = self.elements(it)
                self.assign(s.target, els, cur, fr)
                after = acc
                never = not els and bool(it)
            else:
                c = self.truth(s.test, cur, fr)
                after = None if c is True else cur.copy()
                never = c is False
            fr.loops.append([None, None])
            out = None
            if not never:
                out = self.block(s.body, cur, fr)
            b, c_ = fr.loops.pop()
            brk = join(brk, b)
            nxt = join(join(acc, out), c_)
            prev = acc
            if same(nxt, acc):
                break
            acc = nxt
        else:
            raise RuntimeError('loop does not stabilise: %s %d %r' % (fr.func.qual, s.lineno, {k: v for k, v in nxt.env.items() if v != prev.env.get(k)}))
        end = after
        if isinstance(s, ast.For):
            end = acc
        if end is not None and s.orelse:
            end = self.block(s.orelse, end.copy(), fr)
        return join(end, brk)

    def own(self, s, v, st, fr):
        """x = [..]: the container just made is known to x alone until x is used other than as a container"""
        t = s.targets[0]
        if len(s.targets) != 1 or not isinstance(t, ast.Name) or t.id in fr.globals or len(v) != 1:
            return
        l = next(iter(v))
        if not isinstance(l, Lab) or l.kind not in CONTAINERS or l in self.old or l.site[:3] != (fr.module.name, s.value.lineno, s.value.col_offset):
            return
        if isinstance(s.value, (ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp)) or \
                isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in CONTAINERS + ('sorted',):
            if not any(l in x for k, x in st.env.items() if k != t.id):
                st.fresh = st.fresh | {l}

    def used(self, e, v, st):
        """a variable is read: unless only its elements or its size matter, the container may become known elsewhere"""
        hit = st.fresh & v
        if not hit:
            return
        p = getattr(e, '_parent', None)
        if isinstance(p, ast.Attribute) and isinstance(getattr(p, '_parent', None), ast.Call) and p._parent.func is p or isinstance(p, (ast.Compare, ast.Return, ast.If, ast.While, ast.UnaryOp)):
            return
        if isinstance(p, ast.Subscript) and p.value is e or isinstance(p, (ast.For, ast.comprehension)) and p.iter is e:
            return
        if isinstance(p, ast.Call) and e in p.args and isinstance(p.func, ast.Name) and p.func.id in PURE:
            return
        st.fresh = st.fresh - hit

    def assign(self, tg, v, st, fr):
        if isinstance(tg, ast.Name):
            if tg.id in fr.globals:
                g = lab('module', ('module', fr.module.name, 0, '', False), ())
                self.old.add(g)
                self.write([g], tg.id, v, tg, fr, st)
                return
            st.env[tg.id] = v
            cur = fr.env.get(tg.id, EMPTYV)
            if not v <= cur:
                fr.env[tg.id] = cur | v
                d = ('env', fr.func.node, fr.ctx)
                old = self.envs.get((d, tg.id), EMPTYV)
                if not v <= old:
                    self.envs[(d, tg.id)] = old | v
                    if d in self.readers:
                        self.touch(d)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, st, fr)
            for l in o:
                if isinstance(l, Lab) and isinstance(l.kind, Cls):
                    f = l.kind.lookup('@setter:' + tg.attr)
                    if isinstance(f, Func):
                        self.call(frozenset([bm(f, l)]), [v], {}, tg, st, fr)
                        continue
                    self.write([l], tg.attr, v, tg, fr, st, weak=len(o) > 1)
                elif isinstance(l, Cls):
                    g = lab('class', ('class', l.module.name, l.name, '', False), ())
                    self.old.add(g)
                    self.write([g], tg.attr, v, tg, fr, st)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, st, fr)
            k = self.ev(tg.slice, st, fr) if not isinstance(tg.slice, ast.Slice) else SCV
            if isinstance(tg.slice, ast.Slice):
                v = self.elements(v)
            for l in o:
                if isinstance(l, Lab):
                    if l.kind == 'dict':
                        self.put(l, 'k', k)
                    self.write([l], '*', v, tg, fr, st, weak=True)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            for i, e in enumerate(tg.elts):
                if isinstance(e, ast.Starred):
                    c = self.new('list', e, fr, 'star')
                    self.put(c, '*', self.elements(v))
                    self.assign(e.value, frozenset([c]), st, fr)
                else:
                    self.assign(e, self.item(v, i), st, fr)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st, fr)

    def item(self, v, i):
        """v[i] for a constant index"""
        out = set()
        for l in v:
            if isinstance(l, Lab) and isinstance(l.kind, str):
                self.deps.add(l)
                if isinstance(i, int) and i >= 0 and (l, i) in self.heap:
                    out |= self.heap[(l, i)]
                    out |= self.load(l, '*')
                elif l.kind == 'dict':
                    out |= self.load(l, '*')
                else:
                    out |= self.elements(frozenset([l]))
            else:
                out.add(SC)
        return frozenset(out)

    # ------------------------------------------------------------------ expressions
    def truth(self, e, st, fr):
        """True / False when decided by the classes of objects, else None"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.truth(e.operand, st, fr)
            return None if r is None else not r
        if isinstance(e, ast.BoolOp):
            rs = []
            for x in e.values:
                r = self.truth(x, st, fr)
                rs.append(r)
                if isinstance(e.op, ast.And) and r is False:
                    return False
                if isinstance(e.op, ast.Or) and r is True:
                    return True
            if all(r is not None for r in rs):
                return all(rs) if isinstance(e.op, ast.And) else any(rs)
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            a, b = self.ev(e.left, st, fr), self.ev(e.comparators[0], st, fr)
            r = None
            if b == frozenset([NONE_]) and a:
                if a == frozenset([NONE_]):
                    r = True
                elif NONE_ not in a and SC not in a:
                    r = False
            return r if r is None or isinstance(e.ops[0], ast.Is) else not r
        v = self.ev(e, st, fr)
        if v and all(isinstance(x, Const) and x not in (SC,) for x in v):
            ts = {bool(x.value) for x in v}
            if len(ts) == 1:
                return ts.pop()
        if v and v <= frozenset([FALSE_, NONE_]):
            return False
        if v and all(isinstance(x, Lab) and x.kind == 'tuple' for x in v):
            n = self._fixed(v)
            if n is not None:
                return n > 0
        return None

    def refine(self, test, pos, st, fr):
        """narrows a variable by an isinstance / None test"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pos, st, fr)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if pos else ast.Or):
            for x in test.values:
                st = self.refine(x, pos, st, fr)
            return st
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2 \
                and isinstance(test.args[0], ast.Name) and test.args[0].id in st.env:
            v = st.env[test.args[0].id]
            cl = self.ev(test.args[1], st, fr)
            keep = frozenset(x for x in v if self._inst(x, cl) is not (not pos))
            st.env[test.args[0].id] = keep
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(test.left, ast.Name) and test.left.id in st.env and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None:
            isnone = pos == isinstance(test.ops[0], ast.Is)
            v = st.env[test.left.id]
            st.env[test.left.id] = frozenset(x for x in v if (x is NONE_ or x is SC if isnone else x is not NONE_))
        return st

    def _inst(self, x, cl):
        """True / False / None"""
        classes = [c for c in self.flat(cl)]
        ext = {c.name if isinstance(c, Builtin) else None for c in classes if not isinstance(c, Cls)}
        if isinstance(x, Lab):
            if isinstance(x.kind, Cls):
                return any(isinstance(c, Cls) and x.kind.subclass_of(c) for c in classes)
            if x.kind in ('list', 'tuple', 'set', 'dict'):
                if x.kind in ext:
                    return True
                return False if None not in ext else None
            return None
        if x is SC:
            return None if ext - {'list', 'tuple', 'dict', 'set'} or not ext and not classes else False if not ext else None
        if isinstance(x, Const):
            return None if ext else False
        return None

    def flat(self, v):
        out = []
        for x in v:
            if isinstance(x, Lab) and x.kind in CONTAINERS:
                out.extend(self.flat(self.elements(frozenset([x]))))
            else:
                out.append(x)
        return out

    def ev(self, e, st, fr):
        t = type(e)
        if t is ast.Constant:
            if e.value is True:
                return frozenset([TRUE_])
            if e.value is False:
                return frozenset([FALSE_])
            if e.value is None:
                return frozenset([NONE_])
            if isinstance(e.value, str):
                return frozenset([str_(e.value)])
            return SCV
        if t is ast.Name:
            return self.name(e, st, fr)
        if t is ast.Attribute:
            return self.attr(self.ev(e.value, st, fr), e.attr, e, st, fr)
        if t is ast.Call:
            return self.ev_call(e, st, fr)
        if t in (ast.Tuple, ast.List, ast.Set):
            kind = {ast.Tuple: 'tuple', ast.List: 'list', ast.Set: 'set'}[t]
            n = self.new(kind, e, fr)
            for i, x in enumerate(e.elts):
                if isinstance(x, ast.Starred):
                    self.put(n, '*', self.elements(self.ev(x.value, st, fr)))
                elif kind == 'tuple' and not any(isinstance(y, ast.Starred) for y in e.elts):
                    self.put(n, i, self.ev(x, st, fr))
                else:
                    self.put(n, '*', self.ev(x, st, fr))
            return frozenset([n])
        if t is ast.Dict:
            n = self.new('dict', e, fr)
            for k, v in zip(e.keys, e.values):
                if k is None:
                    o = self.ev(v, st, fr)
                    self.put(n, 'k', self.elements(o))
                    self.put(n, '*', self.values(o))
                else:
                    self.put(n, 'k', self.ev(k, st, fr))
                    self.put(n, '*', self.ev(v, st, fr))
            return frozenset([n])
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            return self.comp(e, st, fr)
        if t is ast.Subscript:
            o = self.ev(e.value, st, fr)
            if isinstance(e.slice, ast.Slice):
                for x in (e.slice.lower, e.slice.upper, e.slice.step):
                    if x is not None:
                        self.ev(x, st, fr)
                out = set()
                for l in o:
                    if isinstance(l, Lab) and isinstance(l.kind, str):
                        n = self.new(l.kind, e, fr, 'slice')
                        self.put(n, '*', self.elements(frozenset([l])))
                        out.add(n)
                    else:
                        out.add(SC)
                return frozenset(out)
            self.ev(e.slice, st, fr)
            i = _index(e.slice)
            return self.item(o, i)
        if t is ast.BoolOp:
            out = EMPTYV
            cur = st.copy()
            for i, x in enumerate(e.values):
                out = out | self.ev(x, cur, fr)
                st.ts = cur.ts if i == 0 else st.ts | cur.ts
                cur = self.refine(x, isinstance(e.op, ast.And), cur, fr)
            return out
        if t is ast.UnaryOp:
            v = self.ev(e.operand, st, fr)
            if isinstance(e.op, ast.Not):
                if v and v <= frozenset([TRUE_]):
                    return frozenset([FALSE_])
                if v and v <= frozenset([FALSE_, NONE_]):
                    return frozenset([TRUE_])
            return SCV
        if t is ast.BinOp:
            a, b = self.ev(e.left, st, fr), self.ev(e.right, st, fr)
            return self.binop(e.op, a, b, e, st, fr)
        if t is ast.Compare:
            vs = [self.ev(e.left, st, fr)]
            for x in e.comparators:
                vs.append(self.ev(x, st, fr))
            if len(vs) == 2 and all(v and all(isinstance(x, Const) and isinstance(x.value, str) for x in v) for v in vs) \
                    and all(len(v) == 1 for v in vs) and isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
                r = (vs[0] == vs[1]) == isinstance(e.ops[0], ast.Eq)
                return frozenset([TRUE_ if r else FALSE_])
            return SCV
        if t is ast.IfExp:
            c = self.truth(e.test, st, fr)
            out, ts = EMPTYV, EMPTYV
            for pos, x in ((True, e.body), (False, e.orelse)):
                if c is (not pos):
                    continue
                cur = self.refine(e.test, pos, st.copy(), fr)
                out = out | self.ev(x, cur, fr)
                ts = ts | cur.ts
            st.ts = ts
            return out
        if t is ast.Lambda:
            st.fresh = EMPTYV
            return frozenset([self.closure(e, fr)])
        if t is ast.JoinedStr:
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value, st, fr)
            return SCV
        if t is ast.Starred:
            return self.ev(e.value, st, fr)
        if t is ast.NamedExpr:
            v = self.ev(e.value, st, fr)
            self.assign(e.target, v, st, fr)
            return v
        if t in (ast.Yield, ast.YieldFrom):
            v = self.ev(e.value, st, fr) if e.value is not None else SCV
            g = self.new('gen', fr.func.node, fr, 'yield')
            self.put(g, '*', v if t is ast.Yield else self.elements(v))
            fr.yields = g
            return SCV
        self.note('expression %s' % t.__name__, e, fr)
        return SCV

    def note(self, what, node, fr):
        self.unknown['%s:%d %s' % (os.path.basename(fr.module.path), getattr(node, 'lineno', 0), what)] = True

    def values(self, v):
        out = set()
        for l in v:
            if isinstance(l, Lab) and l.kind == 'dict':
                out |= self.load(l, '*')
            elif isinstance(l, Lab) and isinstance(l.kind, str):
                out |= self.elements(frozenset([l]))
            else:
                out.add(SC)
        return frozenset(out)

    def binop(self, op, a, b, node, st, fr):
        if len(a) + len(b) > 3:
            key = ('op', type(op), a, b, node, fr.ctx, st.ts, self.preserve > 0)
            c = self.attrs.get(key)
            if c is not None and c[0] == self.version:
                self.deps |= c[3]
                self.leave(st, c[2])
                return c[1]
            v0 = self.version
            outer, self.deps = self.deps, set()
            out = self.binop1(op, a, b, node, st, fr)
            deps, self.deps = self.deps, outer
            self.deps |= deps
            if self.version == v0:
                self.attrs[key] = (v0, out, st.ts, deps)
            return out
        return self.binop1(op, a, b, node, st, fr)

    def binop1(self, op, a, b, node, st, fr):
        out = set()
        name = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__', ast.BitOr: '__or__',
                ast.BitAnd: '__and__', ast.BitXor: '__xor__', ast.Mod: '__mod__'}.get(type(op))
        for l in a:
            if isinstance(l, Lab):
                if isinstance(l.kind, str):
                    n = self.new(l.kind if l.kind != 'gen' else 'list', node, fr, 'op')
                    self.put(n, '*', self.elements(frozenset([l])))
                    if isinstance(op, (ast.Add, ast.BitOr, ast.BitXor, ast.BitAnd)):
                        self.put(n, '*', self.elements(b))
                    if l.kind == 'dict':
                        self.put(n, 'k', self.elements(frozenset([l])))
                        self.put(n, '*', self.values(a) | self.values(b))
                    out.add(n)
                else:
                    f = l.kind.lookup(name) if name else None
                    if isinstance(f, Func):
                        out |= self.call(frozenset([bm(f, l)]), [b], {}, node, st, fr)
                    else:
                        out.add(SC)
            elif isinstance(l, Const) and isinstance(l.value, str) and isinstance(op, ast.Mod):
                out.add(SC)
            else:
                out.add(SC)
                if isinstance(op, ast.Mult):
                    for x in b:
                        if isinstance(x, Lab) and isinstance(x.kind, str):
                            n = self.new(x.kind, node, fr, 'op')
                            self.put(n, '*', self.elements(frozenset([x])))
                            out.add(n)
        return frozenset(out)

    def comp(self, e, st, fr):
        kind = {ast.ListComp: 'list', ast.SetComp: 'set', ast.GeneratorExp: 'gen', ast.DictComp: 'dict'}[type(e)]
        n = self.new(kind, e, fr)
        ts = st.ts
        while True:
            inner = St(dict(st.env), ts, st.fresh)
            never = False
            for g in e.generators:
                it = self.ev(g.iter, inner, fr)
                els = self.elements(it)
                if not els:
                    never = True
                    break
                self.assign(g.target, els, inner, fr)
                for c in g.ifs:
                    r = self.truth(c, inner, fr)
                    if r is False:
                        never = True
                    inner = self.refine(c, True, inner, fr)
                if never:
                    break
            if not never:
                if kind == 'dict':
                    self.put(n, 'k', self.ev(e.key, inner, fr))
                    self.put(n, '*', self.ev(e.value, inner, fr))
                else:
                    self.put(n, '*', self.ev(e.elt, inner, fr))
            st.fresh = st.fresh & inner.fresh
            if inner.ts <= ts:
                break
            ts = ts | inner.ts       # the body may run any number of times
        st.ts = ts
        return frozenset([n])

    # ------------------------------------------------------------------ names
    def name(self, e, st, fr):
        n = e.id
        if n in st.env and n not in fr.globals:
            if st.fresh:
                self.used(e, st.env[n], st)
            return st.env[n]
        f = fr.parent
        while f is not None:
            self.deps.add(('env', f.func.node, f.ctx))
            if n in f.env:
                return f.env[n]
            f = f.parent
        r = self.P.resolve(fr.module, n)
        if r is None and fr.module is getattr(self, 'wmod', None):
            r = fr.module.env.get(n)
        if r is None:
            r = fr.module.env.get(n)
            if not isinstance(r, (Cls, Func, External, Module, ConstExpr)):
                r = None
        if r is not None:
            return self.entity(r, n, fr)
        if n not in _BUILTINS:
            _BUILTINS[n] = Builtin(n)
        return frozenset([_BUILTINS[n]])

    def entity(self, r, n, fr):
        if isinstance(r, ConstExpr):
            if isinstance(r.node, ast.Constant):
                return self.ev(r.node, St({}, EMPTYV), fr)
            f = Frame(Func('<module>', r.node, r.module), r.module, {}, ctx=('global', n))
            return self.definition(r.node, f)
        return frozenset([r])

    def closure(self, node, fr):
        key = (node, fr.ctx, fr.recv)
        c = self.sites.get(key)
        if c is None:
            c = Clo(node, fr, None)
            self.sites[key] = c
        c.frame = fr
        return c

    # ------------------------------------------------------------------ attributes
    def attr(self, o, name, node, st, fr):
        out = set()
        hit = False
        if len(o) > 2:
            key = (o, name, st.ts, self.preserve > 0)
            c = self.attrs.get(key)
            if c is not None and c[0] == self.version:
                self.deps |= c[3]
                self.leave(st, c[2])
                return c[1]
            v0, t0 = self.version, st.ts
            outer, self.deps = self.deps, set()
            ts = EMPTYV
            for l in o:
                st.ts = t0
                r = self.attr1(l, name, node, st, fr)
                ts = ts | st.ts
                if r is not None:
                    hit = True
                    out |= r
            deps, self.deps = self.deps, outer
            self.deps |= deps
            self.leave(st, ts)
            if not hit:
                self.note('attribute %s of %s' % (name, '/'.join(sorted({getattr(x, 'name', '?') for x in o}))), node, fr)
            out = frozenset(out)
            if self.version == v0:
                self.attrs[key] = (v0, out, st.ts, deps)
            return out
        for l in o:
            r = self.attr1(l, name, node, st, fr)
            if r is not None:
                hit = True
                out |= r
        if o and not hit:
            self.note('attribute %s of %s' % (name, '/'.join(sorted({getattr(x, 'name', '?') for x in o}))), node, fr)
        return frozenset(out)

    def attr1(self, l, name, node, st, fr):
        if isinstance(l, Lab):
            if isinstance(l.kind, Cls):
                self.deps.add(l)
                d = l.kind.lookup(name)
                out = None
                if isinstance(d, Func):
                    if d.kind == 'property':
                        return self.call(frozenset([bm(d, l)]), [], {}, node, st, fr)
                    if d.kind == 'cached':
                        v = self.call(frozenset([bm(d, l)]), [], {}, node, st, fr)
                        self.write([l], name, v, node, Frame(d, d.module, {}), st)
                        return v | self.load(l, name)
                    if d.kind == 'staticmethod':
                        return frozenset([d])
                    if d.kind == 'classmethod':
                        return frozenset([bm(d, l.kind)])
                    out = frozenset([bm(d, l)])
                elif isinstance(d, ConstExpr):
                    out = self.classattr(l.kind, name, d)
                if (l, name) in self.heap:
                    out = (out or EMPTYV) | self.heap[(l, name)]
                if out is None and name == '__class__':
                    return frozenset([l.kind])
                if out is None and name == '__dict__':
                    n = self.new('dict', node, fr, 'dict')
                    for f in self.fieldidx.get(l, ()):
                        self.put(n, '*', self.heap[(l, f)])
                    self.put(n, 'k', SCV)
                    return frozenset([n])
                if out is None and name in ('__eq__', '__ne__', '__hash__', '__repr__', '__str__'):
                    return frozenset([bum(SC, name)])
                return out
            return frozenset([bum(l, name)])
        if isinstance(l, Cls):
            if name == '__name__':
                return frozenset([str_(l.name)])
            d = l.lookup(name)
            if isinstance(d, Func):
                if d.kind == 'classmethod':
                    return frozenset([bm(d, l)])
                return frozenset([d])
            if isinstance(d, ConstExpr):
                return self.classattr(l, name, d)
            return SCV
        if isinstance(l, Module):
            r = self.P.resolve(l, name)
            if r is None:
                return None
            return self.entity(r, name, fr)
        if isinstance(l, External):
            return frozenset([_ext(l.path + '.' + name)])
        if isinstance(l, SuperV):
            mro = (l.recv.kind if isinstance(l.recv, Lab) else l.recv).mro
            i = mro.index(l.cls) if l.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.own:
                    d = c.own[name]
                    if isinstance(d, Func):
                        if d.kind in ('property', 'cached'):
                            return self.call(frozenset([bm(d, l.recv)]), [], {}, node, st, fr)
                        return frozenset([bm(d, l.recv)])
            return frozenset([bum(SC, name)])
        if isinstance(l, (Clo, Func, BM, Builtin, BuiltinM)):
            return SCV
        if isinstance(l, Const):
            if l is NONE_:
                return None
            return frozenset([bum(l, name)])
        return SCV

    def classattr(self, cls, name, d):
        f = Frame(Func('<class>', d.node, d.module), d.module, {}, ctx=('class', name))
        return self.definition(d.node, f)

    def definition(self, node, fr):
        """value of an expression that is evaluated once, when its module is loaded: what it creates is old"""
        w, ph = self.watch, self.frozen
        self.watch, self.frozen = None, False
        self.quiet += 1
        try:
            v = self.ev(node, St({}, EMPTYV), fr)
        finally:
            self.watch, self.frozen = w, ph
            self.quiet -= 1
        self.old |= {x for x in self.reach(v) if not x.site[4]}
        return v

    # ------------------------------------------------------------------ calls
    def ev_call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            return self.superv(e, st, fr)
        f = self.ev(e.func, st, fr)
        args, kw, star = [], {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                n = self._fixed(v)
                if n is not None:
                    args.extend(self.item(v, i) for i in range(n))
                else:
                    star = (star or EMPTYV) | self.elements(v)
            else:
                v = self.ev(a, st, fr)
                if star is not None:
                    star = star | v
                else:
                    args.append(v)
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                kw['**'] = self.values(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e, st, fr, star)

    def _fixed(self, v):
        """number of elements when v is one tuple of known length"""
        ns = set()
        for l in v:
            self.deps.add(l)
            if not (isinstance(l, Lab) and l.kind == 'tuple') or (l, '*') in self.heap:
                return None
            ns.add(len([f for f in self.fieldidx.get(l, ()) if isinstance(f, int)]))
        return ns.pop() if len(ns) == 1 else None

    def superv(self, e, st, fr):
        cls, recv = None, fr.recv
        f = fr
        while recv is None and f is not None:
            recv, f = f.recv, f.parent
        if e.args:
            c = self.ev(e.args[0], st, fr)
            cls = next((x for x in c if isinstance(x, Cls)), None)
        else:
            cls = fr.func.cls
        if recv is None or cls is None:
            self.note('super', e, fr)
            return SCV
        k = (cls, recv)
        if k not in _SUPERS:
            _SUPERS[k] = SuperV(cls, recv)
        return frozenset([_SUPERS[k]])

    def call(self, f, args, kw, node, st, fr, star=None):
        """several possible callees are alternatives of one another"""
        out = set()
        cands = sorted(f, key=_order) if len(f) > 1 else list(f)
        if len(cands) <= 1 or self.watch is None:
            for c in cands:
                out |= self.call1(c, args, kw, node, st, fr, star)
            return frozenset(out)
        ts = EMPTYV
        t0 = st.ts
        for c in cands:
            st.ts = t0
            out |= self.call1(c, args, kw, node, st, fr, star)
            ts = ts | st.ts
        st.ts = ts
        return frozenset(out)

    def call1(self, c, args, kw, node, st, fr, star):
        if isinstance(c, BM):
            return self.invoke(c.func, c.recv, args, kw, node, st, fr, star)
        if isinstance(c, Func):
            return self.invoke(c, None, args, kw, node, st, fr, star)
        if isinstance(c, Clo):
            return self.invoke_clo(c, args, kw, node, st, fr, star)
        if isinstance(c, Cls):
            n = self.new(c, node, fr)
            init = c.lookup('__init__')
            if isinstance(init, Func):
                self.constructing.append(n)
                self.invoke(init, n, args, kw, node, st, fr, star)
                self.constructing.pop()
            elif c.external_bases:
                pass
            return frozenset([n])
        if isinstance(c, Builtin):
            from . import efflib
            return efflib.builtin(self, c.name, args, kw, node, st, fr, star)
        if isinstance(c, External):
            from . import efflib
            return efflib.external(self, c.path, args, kw, node, st, fr, star)
        if isinstance(c, BuiltinM):
            from . import efflib
            return efflib.method(self, c.recv, c.name, args, kw, node, st, fr, star)
        if isinstance(c, Lab) and isinstance(c.kind, Cls):
            d = c.kind.lookup('__call__')
            if isinstance(d, Func):
                return self.invoke(d, c, args, kw, node, st, fr, star)
            return SCV
        return SCV

    def bind(self, a, args, kw, star, defaults, fr, f):
        """parameter name -> value"""
        env = {}
        pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        for i, p in enumerate(pos):
            if i < len(args):
                env[p] = args[i]
            elif star is not None:
                env[p] = star
        rest = args[len(pos):]
        if a.vararg:
            n = self.new('tuple', f.node, fr, 'vararg')
            if star is None:
                for i, v in enumerate(rest):
                    self.put(n, i, v)
            else:
                for v in rest:
                    self.put(n, '*', v)
                self.put(n, '*', star)
            env[a.vararg.arg] = frozenset([n])
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k == '**':
                for p in names:
                    if p not in env:
                        env[p] = v
            elif k in names:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            n = self.new('dict', f.node, fr, 'kwarg')
            for k, v in extra.items():
                self.put(n, 'k', SCV)
                self.put(n, '*', v)
            env[a.kwarg.arg] = frozenset([n])
        for p, d in defaults.items():
            if p not in env:
                env[p] = d
            elif '**' in kw or star is not None:
                env[p] = env[p] | d
        for p in names:
            env.setdefault(p, SCV)
        return env

    def defaults(self, f):
        """default values are created once, when the function is defined: they are old"""
        a = f.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        out = {}
        df = Frame(Func('<defaults>', f.node, f.module), f.module, {}, ctx=('default', f.id))
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            out[p] = self.definition(d, df)
        return out

    def invoke(self, f, recv, args, kw, node, st, fr, star):
        a = f.node.args
        args = list(args)
        if recv is not None and f.kind != 'staticmethod':
            args = [frozenset([recv])] + args
        k = self.depth - 1
        if isinstance(recv, Lab):
            ctx = (recv.site,) + recv.ctx[:k] if not recv.site[0] == 'root' else recv.ctx
        elif recv is not None:
            ctx = (('cls', f.module.name, recv.name, (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))),) + fr.ctx[:max(k - 1, 0)]
        else:
            ctx = ((fr.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), 'call'),) + fr.ctx[:k]
        key = (f, recv, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])), star, st.ts, ctx, self.preserve > 0, self.frozen, self.quiet > 0)
        k, r = self.enter(key)
        if r is not None:
            self.leave(st, r[1])
            return r[0]
        self.funcs.add(f)
        self.calls += 1

        def body():
            pres = f.qual in self.preserving
            self.preserve += pres
            try:
                nf = Frame(f, f.module, {}, recv, ctx)
                env = self.bind(a, args, kw, star, self.defaults(f), nf, f)
                nf.env = dict(env)
                ns = St(dict(env), st.ts)
                end = self.block(f.node.body, ns, nf)
            finally:
                self.preserve -= pres
            ret, ts = set(nf.ret), nf.ret_ts
            if end is not None:
                ret.add(NONE_)
                ts = ts | end.ts
            if nf.yields is not None:
                ret = {nf.yields}
                ts = ts | st.ts
            return frozenset(ret), ts
        new = self.analyse(k, body)
        self.leave(st, new[1])
        return new[0]

    def leave(self, st, ts):
        if self.watch is not None and self.frozen:
            st.ts = ts

    def invoke_clo(self, c, args, kw, node, st, fr, star):
        n = c.node
        a = n.args
        f = Func(getattr(n, 'name', '<lambda>'), n, c.frame.module, c.frame.func.cls, qual='%s.%s' % (c.frame.func.qual, getattr(n, 'name', '<lambda>')))
        key = ('clo', n, c.frame.ctx, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])), star, st.ts, self.preserve > 0, self.frozen, self.quiet > 0)
        k, r = self.enter(key)
        if r is not None:
            self.leave(st, r[1])
            return r[0]

        def body():
            ctx = ((c.frame.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), 'clo'),) + c.frame.ctx[:self.depth - 1]
            nf = Frame(f, c.frame.module, {}, None, ctx, parent=c.frame)
            nf.recv = c.frame.recv
            env = self.bind(a, args, kw, star, {}, nf, f)
            for p, d in zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults):
                if p not in {x.arg for x in a.args[:len(args)]} and p not in kw:
                    env[p] = self.ev(d, St(dict(c.frame.env), EMPTYV), c.frame)
            nf.env = dict(env)
            ns = St(dict(env), st.ts)
            if isinstance(n, ast.Lambda):
                v = self.ev(n.body, ns, nf)
                ret, ts = v, ns.ts
            else:
                end = self.block(n.body, ns, nf)
                ret, ts = set(nf.ret), nf.ret_ts
                if end is not None:
                    ret.add(NONE_)
                    ts = ts | end.ts
                if nf.yields is not None:
                    ret, ts = {nf.yields}, ts | st.ts
            return frozenset(ret), ts
        new = self.analyse(k, body)
        self.leave(st, new[1])
        return new[0]


_EXT = {}


def _ext(path):
    if path not in _EXT:
        _EXT[path] = External(path)
    return _EXT[path]


def _order(c):
    r = _ORDER.get(c)
    if r is None:
        r = _ORDER[c] = _order1(c)
    return r


_ORDER = {}


def _order1(c):
    if isinstance(c, Lab):
        return (0, str(c.site), c.name)
    if isinstance(c, BM):
        return (1, c.func.id, str(getattr(c.recv, 'site', '')), getattr(c.recv, 'name', ''))
    return (2, type(c).__name__, getattr(c, 'name', ''))


def _load(t):
    import copy
    x = copy.copy(t)
    return x


def _index(s):
    if isinstance(s, ast.Constant) and isinstance(s.value, int):
        return s.value
    return None

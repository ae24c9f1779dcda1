# -*- coding: utf-8 -*-
"""
Value numbering over the source: an abstract interpreter whose values are the normal forms of alg.py.

Both sides of every branch are analysed once and joined at the merge point (gated values, Phi); calls of
repository functions are resolved and inlined; loops over containers of unknown length are summarised with
one generic element (sum / min / max / exists / for-each), loops over containers whose length is written in
the source are unrolled.  There is no path enumeration.  Whatever is outside this fragment raises Undecided.
"""
import ast
import math
from fractions import Fraction

from . import alg
from .alg import Num, Bool, TRUE, FALSE, Undecided, num
from .model import Func, Cls, Module, External, ConstExpr, AnchorMissing


class PyRaise(Exception):
    """an exception the analysed code raises for certain at this point"""

    def __init__(self, name, msg=None):
        Exception.__init__(self, name)
        self.name, self.msg = name, msg
        self.explicit = False       # by an assert or raise statement of the analysed code itself


class Top(object):
    def __init__(self, reason=''):
        self.reason = reason

    def __repr__(self):
        return '<unknown: %s>' % self.reason


class Ref(object):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return '<obj %d>' % self.id

    def __eq__(self, o):
        return type(o) is type(self) and o.id == self.id

    def __hash__(self):
        return hash(self.id)


class LRef(Ref):
    __slots__ = ()


class DRef(Ref):
    __slots__ = ()


class Rec(object):
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class LRec(object):
    __slots__ = ('kind', 'pieces', 'perm')

    def __init__(self, kind, pieces, perm=False):
        self.kind, self.pieces, self.perm = kind, tuple(pieces), perm


class DRec(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Tup(object):
    __slots__ = ('pieces', 'kind')

    def __init__(self, pieces, kind='tuple'):
        self.pieces, self.kind = tuple(pieces), kind

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.pieces))


class Gen(object):
    """elements of an abstract collection: for each element of base (when guard) the values vals"""
    __slots__ = ('base', 'vals', 'guard', 'distinct', 'raw', 'dk')

    def __init__(self, base, vals, guard=TRUE, distinct=False, raw=False, dk=False):
        self.base, self.vals, self.guard, self.distinct, self.raw = base, tuple(vals), guard, distinct, raw
        self.dk = dk        # one element per distinct member of the collection, whatever was computed from it

    @property
    def aggbase(self):
        return self.base + '~' if self.dk else self.base

    def __repr__(self):
        return 'for %s: %s%s' % (self.base, ', '.join(map(repr, self.vals)),
                                 '' if self.guard.isconst else ' if %r' % self.guard)


class Shift(object):
    """base[1:]"""
    __slots__ = ('base',)

    def __init__(self, base):
        self.base = base


class GItem(object):
    """an item that is there when guard holds"""
    __slots__ = ('guard', 'val')

    def __init__(self, guard, val):
        self.guard, self.val = guard, val

    def __repr__(self):
        return '%r if %r' % (self.val, self.guard)


class Phi(object):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return '[%r if %r else %r]' % (self.a, self.c, self.b)


class Fn(object):
    __slots__ = ('func', 'self', 'env', 'hasself')

    def __init__(self, func, slf=None, env=None, hasself=False):
        self.func, self.self, self.env, self.hasself = func, slf, env, hasself

    def __repr__(self):
        return '<fn %s>' % self.func.id


class Ext(object):
    __slots__ = ('path', 'recv')

    def __init__(self, path, recv=None):
        self.path, self.recv = path, recv

    def __repr__(self):
        return '<%s>' % self.path


class Super(object):
    __slots__ = ('cls', 'self')

    def __init__(self, cls, slf):
        self.cls, self.self = cls, slf


class SymDict(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class HashOf(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class State(object):
    __slots__ = ('env', 'heap', 'pc', 'events')

    def __init__(self, env, heap, pc=TRUE, events=()):
        self.env, self.heap, self.pc, self.events = env, heap, pc, events

    def fork(self):
        return State(dict(self.env), dict(self.heap), self.pc, self.events)


class Frame(object):
    def __init__(self, func, module):
        self.func, self.module = func, module
        self.returns = []     # (pc, value, heap, events)
        self.raises = []      # (pc, name)
        self.loops = []       # stack of dict(breaks=[], continues=[])


BUILTINS = set('abs all any bool dict enumerate filter float frozenset getattr hasattr hash id int isinstance issubclass '
               'iter len list map max min next object open print range repr reversed round set setattr sorted str sum '
               'super tuple type vars zip callable divmod pow chr ord'.split())
EXC = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'TypeError': 'Exception',
       'ValueError': 'Exception', 'AttributeError': 'Exception', 'AssertionError': 'Exception',
       'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'NotImplementedError': 'RuntimeError',
       'RuntimeError': 'Exception', 'StopIteration': 'Exception', 'Exception': 'BaseException',
       'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'ImportError': 'Exception'}


def exc_matches(name, handler):
    while name:
        if name == handler:
            return True
        name = EXC.get(name)
    return False


class Interp(object):
    def __init__(self, program, intercepts=None, budget=600000):
        self.p = program
        self.ids = 0
        self.intercepts = intercepts or {}
        self.factories = {}       # base name -> factory(interp, state, tag)
        self.generic_ids = set()  # ids of objects that belong to generic elements
        self.steps = 0
        self.budget = budget
        self.depth = 0
        self.active = []          # bases being iterated
        self.consts = {}
        self.calls = set()        # functions analysed
        self.conds = []           # asserted conditions (assumptions)
        self.ph = 0
        self.frames = []
        self.setorder = None      # 'fwd' / 'rev': sets are iterated in (reverse) order of insertion, otherwise in an unknown one

    # ------------------------------------------------------------ heap
    def new_id(self):
        self.ids += 1
        return self.ids

    def alloc(self, st, cls, fields=None):
        r = Ref(self.new_id())
        st.heap[r.id] = Rec(cls, dict(fields or {}))
        return r

    def mklist(self, st, pieces, kind='list', perm=False):
        r = LRef(self.new_id())
        st.heap[r.id] = LRec(kind, pieces, perm)
        return r

    def mkdict(self, st, items):
        r = DRef(self.new_id())
        st.heap[r.id] = DRec(items)
        return r

    def setfield(self, st, ref, name, v):
        rec = st.heap[ref.id]
        f = dict(rec.f)
        f[name] = v
        st.heap[ref.id] = Rec(rec.cls, f)
        st.events = st.events + (('set', ref.id, name),)

    # ------------------------------------------------------------ phi
    def phi(self, c, a, b):
        if c.isconst:
            return a if c.value else b
        if a is b:
            return a
        if isinstance(a, Bool) and isinstance(b, Bool):
            return alg.b_ite(c, a, b)
        if isinstance(a, Num) and isinstance(b, Num):
            if a.eq(b):
                return a
            return Phi(c, a, b)
        if isinstance(a, Ref) and a == b:
            return a
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if a is None and b is None:
            return None
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.pieces) == len(b.pieces) and a.kind == b.kind:
            if all(not isinstance(x, (Gen, GItem, Shift)) for x in a.pieces + b.pieces):
                return Tup([self.phi(c, x, y) for x, y in zip(a.pieces, b.pieces)], a.kind)
        if isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path and a.recv is b.recv:
            return a
        if isinstance(a, Cls) and a is b:
            return a
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, Fn) and isinstance(b, Fn) and a.func is b.func and a.self == b.self:
            return a
        if isinstance(b, Phi) and b.c.key() == c.key():
            return self.phi(c, a, b.b)
        if isinstance(a, Phi) and a.c.key() == c.key():
            return self.phi(c, a.a, b)
        if isinstance(b, Phi) and self.same(a, b.a):
            return self.phi(alg.b_or(c, b.c), a, b.b)
        return Phi(c, a, b)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Num) and isinstance(b, Num):
            return a.eq(b)
        if isinstance(a, Bool) and isinstance(b, Bool):
            return a.key() == b.key()
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Tup) and isinstance(b, Tup):
            return a.kind == b.kind and len(a.pieces) == len(b.pieces) and all(self.same(x, y) for x, y in zip(a.pieces, b.pieces))
        if isinstance(a, Phi) and isinstance(b, Phi):
            return a.c.key() == b.c.key() and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, Gen) and isinstance(b, Gen):
            return (a.base == b.base and a.guard.key() == b.guard.key() and len(a.vals) == len(b.vals)
                    and all(self.same(x, y) for x, y in zip(a.vals, b.vals)))
        if isinstance(a, GItem) and isinstance(b, GItem):
            return a.guard.key() == b.guard.key() and self.same(a.val, b.val)
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.func is b.func and (a.self is b.self or a.self == b.self)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path and a.recv is b.recv
        return False

    def merge_rec(self, c, x, y):
        if x is y:
            return x
        if isinstance(x, Rec) and isinstance(y, Rec):
            f = {}
            for k in set(x.f) | set(y.f):
                if k in x.f and k in y.f:
                    f[k] = self.phi(c, x.f[k], y.f[k])
                else:
                    f[k] = Top('field %s set on one branch only' % k)
            return Rec(x.cls, f)
        if isinstance(x, LRec) and isinstance(y, LRec):
            a, b = x.pieces, y.pieces
            n = 0
            while n < len(a) and n < len(b) and self.same(a[n], b[n]):
                n += 1
            ra, rb = a[n:], b[n:]
            if len(ra) == len(rb) and all(not isinstance(z, (Gen, GItem, Shift)) for z in ra + rb):
                return LRec(x.kind, a[:n] + tuple(self.phi(c, p, q) for p, q in zip(ra, rb)), bool(x.perm or y.perm))
            out = list(a[:n])
            for g, rest in ((c, ra), (alg.b_not(c), rb)):
                for z in rest:
                    if isinstance(z, GItem):
                        out.append(GItem(alg.b_and(g, z.guard), z.val))
                    elif isinstance(z, Gen):
                        out.append(Gen(z.base, z.vals, alg.b_and(g, z.guard), z.distinct, False, z.dk))
                    elif isinstance(z, Shift):
                        raise Undecided('conditional slice')
                    else:
                        out.append(GItem(g, z))
            return LRec(x.kind, out, bool(x.perm or y.perm or ra and rb))
        if isinstance(x, DRec) and isinstance(y, DRec):
            if len(x.items) == len(y.items) and all(self.same(p[0], q[0]) for p, q in zip(x.items, y.items)):
                return DRec([(p[0], self.phi(c, p[1], q[1])) for p, q in zip(x.items, y.items)])
            raise Undecided('dicts with different keys on two branches')
        raise Undecided('objects of different kind')

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = dict(h1)
        for k, v in h2.items():
            o = h1.get(k)
            if o is None:
                out[k] = v
            elif o is not v:
                out[k] = self.merge_rec(c, o, v)
        return out

    def merge_states(self, states, basepc):
        """states with disjoint conditions that cover basepc (apart from exits)"""
        states = [s for s in states if s is not None and not (s.pc.isconst and not s.pc.value)]
        if not states:
            return None
        cur = states[-1]
        for s in reversed(states[:-1]):
            c = s.pc
            env = {}
            for k in set(s.env) | set(cur.env):
                if k in s.env and k in cur.env:
                    env[k] = self.phi(c, s.env[k], cur.env[k])
                else:
                    env[k] = Top('%s is bound on one branch only' % k)
            ev = s.events if s.events == cur.events else _merge_events(s.events, cur.events)
            cur = State(env, self.merge_heap(c, s.heap, cur.heap), alg.b_or(s.pc, cur.pc), ev)
        return cur

    # ------------------------------------------------------------ sequences
    def pieces(self, st, v, where=''):
        if isinstance(v, Tup):
            return v.pieces
        if isinstance(v, LRef):
            rec = st.heap[v.id]
            return rec.pieces[::-1] if self.setorder == 'rev' and rec.kind == 'set' else rec.pieces
        if isinstance(v, DRef):
            return tuple(k for k, _ in st.heap[v.id].items)
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, Phi):
            a, b = self.pieces(st, v.a), self.pieces(st, v.b)
            if len(a) == len(b) and all(not isinstance(x, (Gen, GItem, Shift)) for x in a + b):
                return tuple(self.phi(v.c, x, y) for x, y in zip(a, b))
            return tuple(self._guarded(v.c, a)) + tuple(self._guarded(alg.b_not(v.c), b))
        if v is None:
            raise PyRaise('TypeError', 'iterating None')
        raise Undecided('iteration over %r %s' % (v, where))

    def _guarded(self, g, ps):
        for z in ps:
            if isinstance(z, GItem):
                yield GItem(alg.b_and(g, z.guard), z.val)
            elif isinstance(z, Gen):
                yield Gen(z.base, z.vals, alg.b_and(g, z.guard), z.distinct, False, z.dk)
            elif isinstance(z, Shift):
                raise Undecided('conditional slice')
            else:
                yield GItem(g, z)

    def items(self, st, v, where=''):
        """pieces when all of them are plain items"""
        ps = self.pieces(st, v, where)
        if any(isinstance(x, (Gen, GItem, Shift)) for x in ps):
            raise Undecided('collection of unknown length %s' % where)
        return list(ps)

    def isperm(self, st, v):
        return isinstance(v, LRef) and bool(st.heap[v.id].perm)

    def generic(self, st, name, factory):
        """a list of unknown length with elements made by factory(interp, state, prefix)"""
        self.factories[name] = factory
        el = self.generic_element(st, name, 'e')
        return self.mklist(st, [Gen(name + '@e', [el], TRUE, False, True)])

    def generic_element(self, st, name, tag):
        before = self.ids
        el = self.factories[name](self, st, '%s[%s]' % (name, tag))
        for i in range(before + 1, self.ids + 1):
            self.generic_ids.add(i)
        return el

    def exists(self, base, f):
        if f.isconst and not f.value:
            return FALSE
        if f.isconst and f.value and ':' not in base:
            return TRUE           # the collections of the analysis have at least one element
        return alg.b_atom('exists', base, f)

    # ------------------------------------------------------------ truth / equality
    def truth_any(self, st, ps):
        cs = []
        for x in ps:
            if isinstance(x, GItem):
                cs.append(alg.b_and(x.guard, self.truth(st, x.val)))
            elif isinstance(x, Gen):
                t = alg.b_or(*[self.truth(st, v) for v in x.vals])
                cs.append(self.exists(x.base, alg.b_and(x.guard, t)))
            elif isinstance(x, Shift):
                raise Undecided('any of a slice')
            else:
                cs.append(self.truth(st, x))
        return alg.b_or(*cs)

    def truth(self, st, v):
        if isinstance(v, Bool):
            return v
        if isinstance(v, Num):
            return alg.b_rel(v, [alg.NEG, alg.POS])
        if v is None:
            return FALSE
        if isinstance(v, str):
            return alg.b_const(bool(v))
        if isinstance(v, (Tup, LRef, DRef)):
            ps = self.pieces(st, v)
            c = FALSE
            for x in ps:
                if isinstance(x, GItem):
                    c = alg.b_or(c, x.guard)
                elif isinstance(x, Gen):
                    c = alg.b_or(c, self.exists(x.base, x.guard))
                elif isinstance(x, Shift):
                    raise Undecided('truth of a slice')
                else:
                    return TRUE
            return c
        if isinstance(v, Phi):
            return alg.b_ite(v.c, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, Ref):
            cls = st.heap[v.id].cls
            for nm in ('__bool__', '__len__'):
                f = cls.lookup(nm)
                if isinstance(f, Func):
                    return self.truth(st, self.call(st, Fn(f, v, None, True), [], {}))
            return TRUE
        if isinstance(v, (Fn, Ext, Cls, Module)):
            return TRUE
        if isinstance(v, Top):
            raise Undecided('branch on %r' % v)
        raise Undecided('truth of %r' % (v,))

    def eqv(self, st, a, b):
        if isinstance(a, Phi):
            return alg.b_ite(a.c, self.eqv(st, a.a, b), self.eqv(st, a.b, b))
        if isinstance(b, Phi):
            return alg.b_ite(b.c, self.eqv(st, a, b.a), self.eqv(st, a, b.b))
        if isinstance(a, Top) or isinstance(b, Top):
            raise Undecided('comparison with %r' % (a if isinstance(a, Top) else b))
        if isinstance(a, Bool) and isinstance(b, Num) or isinstance(a, Num) and isinstance(b, Bool):
            raise Undecided('bool == number')
        if isinstance(a, Num) and isinstance(b, Num):
            return alg.eq(a, b)
        if isinstance(a, Bool) and isinstance(b, Bool):
            return alg.b_or(alg.b_and(a, b), alg.b_and(alg.b_not(a), alg.b_not(b)))
        if isinstance(a, HashOf) and isinstance(b, HashOf):
            return self.eqv(st, a.v, b.v)
        if isinstance(a, Ref) and not isinstance(a, (LRef, DRef)):
            f = st.heap[a.id].cls.lookup('__eq__')
            if isinstance(f, Func):
                return self.truth(st, self.call(st, Fn(f, a, None, True), [b], {}))
            return alg.b_const(a == b)
        if isinstance(b, Ref) and not isinstance(b, (LRef, DRef)):
            return self.eqv(st, b, a)
        if a is None or b is None:
            return alg.b_const(a is None and b is None)
        if isinstance(a, str) or isinstance(b, str):
            return alg.b_const(isinstance(a, str) and isinstance(b, str) and a == b)
        if isinstance(a, Cls) or isinstance(b, Cls):
            return alg.b_const(a is b)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return alg.b_const(a.path == b.path)
        seqs = (Tup, LRef)
        if isinstance(a, seqs) and isinstance(b, seqs):
            ka = a.kind if isinstance(a, Tup) else st.heap[a.id].kind
            kb = b.kind if isinstance(b, Tup) else st.heap[b.id].kind
            if 'set' in (ka, kb):
                if ka != kb:
                    return FALSE
                x, y = self.pieces(st, a), self.pieces(st, b)
                return alg.b_and(self._subset(st, x, y), self._subset(st, y, x))
            if ka != kb and not {ka, kb} <= {'list', 'deque'}:
                return FALSE
            x, y = self.items(st, a), self.items(st, b)
            if self.isperm(st, a) or self.isperm(st, b):
                return self._eq_sorted(st, a, b, x, y)
            if len(x) != len(y):
                return FALSE
            return alg.b_and(*[self.eqv(st, p, q) for p, q in zip(x, y)])
        if isinstance(a, seqs + (Num, Bool)) and isinstance(b, seqs + (Num, Bool)):
            return FALSE
        raise Undecided('%r == %r' % (a, b))

    def _eq_sorted(self, st, a, b, xs, ys):
        """lists sorted by one key: equal when they have the same elements, different when an element has no counterpart"""
        if len(xs) != len(ys):
            return FALSE
        left, same = list(ys), True
        for x in xs:
            es = [self.eqv(st, x, y) for y in left]
            hit = [k for k, e in enumerate(es) if e.isconst and e.value]
            if hit:
                del left[hit[0]]
            elif all(e.isconst for e in es) and len(left) == len(ys):
                return FALSE
            else:
                same = False
        pa, pb = [st.heap[v.id].perm if isinstance(v, LRef) else False for v in (a, b)]
        if same and isinstance(pa, tuple) and pa == pb:
            return TRUE
        if not same and not left[1:] and all(self.eqv(st, x, y) is FALSE for x in xs for y in left):
            return FALSE
        raise Undecided('comparison of sorted lists of unknown order')

    def _subset(self, st, xs, ys):
        cs = []
        for x in xs:
            if isinstance(x, GItem):
                cs.append(alg.b_or(alg.b_not(x.guard), self.contains(st, ys, x.val, True)))
            elif isinstance(x, Gen):
                inner = alg.b_and(*[self.contains(st, ys, v, True) for v in x.vals])
                cs.append(alg.b_not(self.exists(x.base, alg.b_and(x.guard, alg.b_not(inner)))))
            else:
                cs.append(self.contains(st, ys, x, True))
        return alg.b_and(*cs)

    def hashkey(self, st, v):
        if isinstance(v, Ref) and not isinstance(v, (LRef, DRef)):
            f = st.heap[v.id].cls.lookup('__hash__')
            if isinstance(f, Func):
                r = self.call(st, Fn(f, v, None, True), [], {})
                if isinstance(r, HashOf):
                    return r.v
                return r
        if isinstance(v, Tup):
            return Tup([self.hashkey(st, x) for x in self.items(st, v)])
        return v

    def set_eq(self, st, a, b):
        """a and b are the same element of a set: equal hash and equal"""
        return alg.b_and(self.eqv(st, self.hashkey(st, a), self.hashkey(st, b)), self.eqv(st, a, b))

    def contains(self, st, ps, x, hashed=False):
        eq = self.set_eq if hashed else self.eqv
        cs = []
        for y in ps:
            if isinstance(y, GItem):
                cs.append(alg.b_and(y.guard, eq(st, x, y.val)))
            elif isinstance(y, Gen):
                cs.append(self.exists(y.base, alg.b_and(y.guard, alg.b_or(*[eq(st, x, v) for v in y.vals]))))
            elif isinstance(y, Shift):
                raise Undecided('membership in a slice')
            else:
                if isinstance(x, Ref) and isinstance(y, Ref) and x == y and not hashed:
                    e = self.eqv(st, x, y)
                    cs.append(TRUE if True else e)   # `in` is true for the identical object
                else:
                    cs.append(eq(st, x, y))
        return alg.b_or(*cs)

    # ------------------------------------------------------------ distribute over Phi
    def lift(self, f, *args):
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                self.tick(5)
                x = self.lift(f, *(args[:i] + (a.a,) + args[i + 1:]))
                y = self.lift(f, *(args[:i] + (a.b,) + args[i + 1:]))
                return self.phi(a.c, x, y)
        for a in args:
            if isinstance(a, Top):
                return a
        return f(*args)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Undecided('analysis budget exhausted')

    def asnum(self, v):
        if isinstance(v, Num):
            return v
        if isinstance(v, Bool):
            if v.isconst:
                return num(int(v.value))
            return alg.of(alg.atom('ite', v, num(1), num(0)))
        if isinstance(v, Phi):
            return alg.of(alg.atom('ite', v.c, self.asnum(v.a), self.asnum(v.b)))
        if v is None:
            raise PyRaise('TypeError', 'None in arithmetic')
        if isinstance(v, Top):
            raise Undecided(v.reason)
        raise Undecided('not a number: %r' % (v,))

    # ------------------------------------------------------------ names
    def const_expr(self, st, ce, frame):
        key = id(ce.node)
        if key not in self.consts:
            f = Frame(None, ce.module)
            s = State({}, st.heap)
            self.consts[key] = self.ev(ce.node, s, f)
            st.heap = s.heap
        return self.consts[key]

    def lookup(self, name, st, frame):
        if name in st.env:
            return st.env[name]
        e = getattr(frame, 'closure', None)
        while e is not None:
            if name in e[0]:
                return e[0][name]
            e = e[1]
        return self.lookup_global(name, st, frame)

    def lookup_global(self, name, st, frame):
        e = self.p.resolve(frame.module, name)
        if e is None:
            if name in BUILTINS:
                return Ext('builtins.' + name)
            if name in EXC or name in ('BaseException',):
                return Ext('builtins.' + name)
            if name in ('None', 'True', 'False'):
                return {'None': None, 'True': TRUE, 'False': FALSE}[name]
            if name == '__name__':
                return frame.module.name
            raise PyRaise('NameError', name)
        return self.entity(e, st, frame)

    def entity(self, e, st, frame):
        if isinstance(e, Func):
            return Fn(e)
        if isinstance(e, (Cls, Module)):
            return e
        if isinstance(e, External):
            if e.path in ('math.pi', 'math.tau', 'math.inf', 'math.e'):
                return self.getattr(st, Ext('math'), e.path[5:], frame)
            return Ext(e.path)
        if isinstance(e, ConstExpr):
            if len(e.module.assigned.get(_constname(e), [])) > 1:
                return Top('module variable assigned more than once')
            return self.const_expr(st, e, frame)
        raise Undecided('name bound to %r' % (e,))

    # ------------------------------------------------------------ attributes
    def getattr(self, st, v, name, frame):
        if isinstance(v, Phi):
            fr = self.frames[-1] if self.frames else frame
            return self.fork2(st, v.c, lambda s: self.getattr(s, v.a, name, frame),
                              lambda s: self.getattr(s, v.b, name, frame), fr)
        if isinstance(v, Top):
            return Top('attribute %s of %s' % (name, v.reason))
        if v is None:
            raise PyRaise('AttributeError', name)
        if isinstance(v, (LRef, DRef, Tup, str, Num, Bool, SymDict)):
            if name == '__class__':
                if isinstance(v, LRef):
                    return Ext('builtins.' + st.heap[v.id].kind)
                if isinstance(v, Tup):
                    return Ext('builtins.tuple')
            return Ext('method.' + name, v)
        if isinstance(v, Ref):
            rec = st.heap[v.id]
            if name == '__class__':
                return rec.cls
            if name == '__dict__':
                raise Undecided('__dict__')
            f = rec.cls.lookup(name)
            if isinstance(f, Func) and f.kind in ('property', 'cached'):
                if name in rec.f:
                    return rec.f[name]
                return self.call(st, Fn(f, v, None, True), [], {})
            if name in rec.f:
                return rec.f[name]
            if isinstance(f, Func):
                if f.kind == 'classmethod':
                    return Fn(f, rec.cls, None, True)
                if f.kind == 'staticmethod':
                    return Fn(f)
                if f.kind == 'decorated':
                    raise Undecided('decorated method %s' % f.id)
                return Fn(f, v, None, True)
            if isinstance(f, ConstExpr):
                pr = self._property_call(f)
                if pr is not None:
                    g = rec.cls.lookup(pr)
                    if isinstance(g, Func):
                        return self.call(st, Fn(g, v, None, True), [], {})
                val = self.const_expr(st, f, frame)
                if isinstance(val, Fn) and not val.hasself:
                    return Fn(val.func, v, val.env, True)
                return val
            raise PyRaise('AttributeError', '%s.%s' % (rec.cls.name, name))
        if isinstance(v, Cls):
            if name == '__name__':
                return v.name
            if name == '__bases__':
                return Tup(v.bases)
            if name == '__mro__':
                return Tup(v.mro)
            f = v.lookup(name)
            if isinstance(f, Func):
                if f.kind == 'classmethod':
                    return Fn(f, v, None, True)
                return Fn(f)
            if isinstance(f, ConstExpr):
                return self.const_expr(st, f, frame)
            raise PyRaise('AttributeError', '%s.%s' % (v.name, name))
        if isinstance(v, Super):
            slf = v.self
            cls = slf if isinstance(slf, Cls) else st.heap[slf.id].cls
            mro = cls.mro
            i = mro.index(v.cls) if v.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.own:
                    f = c.own[name]
                    if isinstance(f, Func):
                        if f.kind in ('property', 'cached'):
                            return self.call(st, Fn(f, slf, None, True), [], {})
                        return Fn(f, slf, None, True)
                    return self.const_expr(st, f, frame)
            if name == '__init__':
                return Ext('object.__init__', slf)
            raise PyRaise('AttributeError', 'super().%s' % name)
        if isinstance(v, Module):
            e = self.p.resolve(v, name) or self.p.modules.get(v.name + '.' + name)
            if e is None:
                raise PyRaise('AttributeError', '%s.%s' % (v.name, name))
            fr = Frame(None, v)
            return self.entity(e, st, fr)
        if isinstance(v, Ext):
            if v.path == 'math' and name == 'pi':
                return alg.pi_()
            if v.path == 'math' and name == 'inf':
                return num(float('inf'))
            if name == '__name__' and v.path.startswith('builtins.'):
                return v.path[9:]
            return Ext(v.path + '.' + name)
        if isinstance(v, Fn):
            if name == '__name__':
                return v.func.name
            raise Undecided('attribute %s of a function' % name)
        raise Undecided('attribute %s of %r' % (name, v))

    def _property_call(self, ce):
        n = ce.node
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('property', 'cached_property') and n.args:
            if isinstance(n.args[0], ast.Name):
                return n.args[0].id
        return None

    def setattr(self, st, v, name, val, frame):
        if isinstance(v, Phi):
            s1, s2 = st.fork(), st.fork()
            self.setattr(s1, v.a, name, val, frame)
            self.setattr(s2, v.b, name, val, frame)
            st.heap = self.merge_heap(v.c, s1.heap, s2.heap)
            return
        if isinstance(v, Ref) and not isinstance(v, (LRef, DRef)):
            rec = st.heap[v.id]
            s = rec.cls.lookup('@setter:' + name)
            if isinstance(s, Func):
                self.call(st, Fn(s, v, None, True), [val], {})
                return
            f = rec.cls.lookup(name)
            if isinstance(f, Func) and f.kind == 'property':
                raise PyRaise('AttributeError', "can't set %s" % name)
            self.setfield(st, v, name, val)
            return
        if isinstance(v, Top):
            raise Undecided('store to an attribute of %r' % v)
        raise Undecided('attribute store on %r' % (v,))

    # ------------------------------------------------------------ calls
    def call(self, st, fn, args, kwargs, frame=None, node=None):
        self.tick()
        if isinstance(fn, Phi):
            fr = self.frames[-1] if self.frames else frame
            return self.fork2(st, fn.c, lambda s: self.call(s, fn.a, args, kwargs, frame, node),
                              lambda s: self.call(s, fn.b, args, kwargs, frame, node), fr)
        if isinstance(fn, Cls):
            return self.instantiate(st, fn, args, kwargs)
        if isinstance(fn, Fn):
            return self.call_func(st, fn, args, kwargs)
        if isinstance(fn, Ext):
            from . import vnlib
            return vnlib.call_ext(self, st, fn, args, kwargs, frame, node)
        if isinstance(fn, Top):
            if any(isinstance(a, Ref) for a in list(args) + list(kwargs.values())):
                raise Undecided('unknown function gets an object: %s' % fn.reason)
            return Top('result of ' + fn.reason)
        if isinstance(fn, Ref) and not isinstance(fn, (LRef, DRef)):
            f = st.heap[fn.id].cls.lookup('__call__')
            if isinstance(f, Func):
                return self.call_func(st, Fn(f, fn, None, True), args, kwargs)
        raise Undecided('call of %r' % (fn,))

    def instantiate(self, st, cls, args, kwargs):
        ic = self.intercepts.get((cls.name, '__new__'))
        if ic is not None:
            return ic(self, st, cls, args, kwargs)
        if cls.external_bases:
            raise Undecided('class %s with external base' % cls.name)
        new = cls.lookup('__new__')
        if new is not None:
            raise Undecided('__new__')
        r = self.alloc(st, cls)
        init = cls.lookup('__init__')
        if isinstance(init, Func):
            self.call_func(st, Fn(init, r, None, True), args, kwargs)
        elif args or kwargs:
            raise PyRaise('TypeError', '%s() takes no arguments' % cls.name)
        return r

    def bind(self, st, func, args, kwargs, defframe):
        a = func.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                env[p] = args[i]
                if p in kwargs:
                    raise PyRaise('TypeError', 'multiple values for %s' % p)
        if len(args) > len(pos):
            if a.vararg:
                env[a.vararg.arg] = Tup(args[len(pos):])
            else:
                raise PyRaise('TypeError', 'too many arguments for %s' % func.qual)
        elif a.vararg:
            env[a.vararg.arg] = Tup([])
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            if p in env:
                continue
            if p in kwargs:
                env[p] = kwargs.pop(p)
            elif i >= len(pos) - nd:
                env[p] = self.ev(a.defaults[i - (len(pos) - nd)], st, defframe)
            else:
                raise PyRaise('TypeError', 'missing argument %s of %s' % (p, func.qual))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if k.arg in kwargs:
                env[k.arg] = kwargs.pop(k.arg)
            elif d is not None:
                env[k.arg] = self.ev(d, st, defframe)
            else:
                raise PyRaise('TypeError', 'missing argument %s' % k.arg)
        if a.kwarg:
            env[a.kwarg.arg] = self.mkdict(st, [(k, v) for k, v in kwargs.items()])
        elif kwargs:
            raise PyRaise('TypeError', 'unexpected argument %s of %s' % (sorted(kwargs)[0], func.qual))
        return env

    def call_func(self, st, fn, args, kwargs):
        func = fn.func
        if fn.hasself:
            args = [fn.self] + list(args)
        if func.cls is not None and isinstance(args[0] if args else None, Ref):
            cl = st.heap[args[0].id]
            for c in (cl.cls.mro if isinstance(cl, Rec) else []):
                ic = self.intercepts.get((c.name, func.name))
                if ic is not None:
                    return ic(self, st, fn, args, kwargs)
        ic = self.intercepts.get((None, func.name))
        if ic is not None and func.cls is None:
            return ic(self, st, fn, args, kwargs)
        if func.kind in ('decorated', 'memo') or (func.cls is None and getattr(func.node, 'decorator_list', None)):
            raise Undecided('decorated function %s' % func.id)
        if isinstance(func.node, ast.AsyncFunctionDef):
            raise Undecided('async')
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Undecided('call depth (recursion?) at %s' % func.id)
        if sum(1 for f in self.frames if f.func is func) >= 4:
            self.depth -= 1
            raise Undecided('recursion in %s' % func.id)
        self.calls.add(func.id)
        frame = Frame(func, func.module)
        frame.closure = fn.env
        self.frames.append(frame)
        try:
            es = State({}, st.heap, TRUE, st.events)
            dfr = Frame(func, func.module)
            dfr.closure = fn.env
            env = self.bind(es, func, args, kwargs, dfr)
            inner = State(env, es.heap, TRUE, es.events)
            if isinstance(func.node, ast.Lambda):
                v = self.ev(func.node.body, inner, frame)
                frame.returns.append((inner.pc, v, inner.heap, inner.events))
            else:
                if _is_generator(func.node):
                    return self._generator(st, func, inner, frame)
                try:
                    end = self.block(func.node.body, inner, frame)
                except PyRaise as e:
                    # certain exception on the remaining path
                    if not frame.returns:
                        self._propagate(st, frame)
                        st.heap, st.events = inner.heap, inner.events
                        raise
                    frame.raises.append((alg.b_not(alg.b_or(*[r[0] for r in frame.returns])), e.name))
                    end = None
                if end is not None:
                    frame.returns.append((end.pc, None, end.heap, end.events))
            self._propagate(st, frame)
            if not frame.returns:
                raise PyRaise('Exception', 'no normal exit from %s' % func.id)
            rs = frame.returns
            pc, v, h, ev = rs[-1]
            for p, vv, hh, ee in reversed(rs[:-1]):
                v = self.phi(p, vv, v)
                h = self.merge_heap(p, hh, h)
                ev = ee if ee == ev else _merge_events(ee, ev)
            st.heap, st.events = h, ev
            return v
        finally:
            self.depth -= 1
            self.frames.pop()

    def _propagate(self, st, frame):
        if frame.raises and len(self.frames) > 1:
            up = self.frames[-2]
            for pc, nm in frame.raises:
                up.raises.append((alg.b_and(st.pc, pc), nm))
        elif frame.raises:
            self.top_raises = getattr(self, 'top_raises', []) + list(frame.raises)

    def _generator(self, st, func, inner, frame):
        acc = self.mklist(inner, [])
        frame.yields = acc
        end = self.block(func.node.body, inner, frame)
        outs = [s for s in [end] if s is not None]
        if frame.returns or not outs:
            raise Undecided('generator with return')
        self._propagate(st, frame)
        st.heap, st.events = outs[0].heap, outs[0].events
        return acc

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, frame):
        self.tick()
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(n).__name__)
        return m(n, st, frame)

    def ev_Constant(self, n, st, frame):
        v = n.value
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, bool):
            return alg.b_const(v)
        if isinstance(v, (int, float)):
            return num(v)
        if v is Ellipsis:
            return None
        raise Undecided('constant %r' % (v,))

    def ev_Name(self, n, st, frame):
        return self.lookup(n.id, st, frame)

    def ev_Attribute(self, n, st, frame):
        v = self.ev(n.value, st, frame)
        return self.getattr(st, v, n.attr, frame)

    def ev_Tuple(self, n, st, frame):
        return Tup(self.elts(n.elts, st, frame))

    def ev_List(self, n, st, frame):
        return self.mklist(st, self.elts(n.elts, st, frame))

    def ev_Set(self, n, st, frame):
        from . import vnlib
        return vnlib.mkset(self, st, self.elts(n.elts, st, frame))

    def elts(self, elts, st, frame):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.pieces(st, self.ev(e.value, st, frame)))
            else:
                out.append(self.ev(e, st, frame))
        return out

    def ev_Dict(self, n, st, frame):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Undecided('** in dict')
            items.append((self.ev(k, st, frame), self.ev(v, st, frame)))
        return self.mkdict(st, items)

    def ev_JoinedStr(self, n, st, frame):
        out = ''
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                v = plainval(self.ev(x.value, st, frame)) if x.conversion == -1 and x.format_spec is None else None
            else:
                v = x.value if isinstance(x, ast.Constant) else None
            if v is None:
                return Top('formatted string')
            out += str(v)
        return out

    def ev_Lambda(self, n, st, frame):
        return self.mkfn('<lambda>', n, st, frame)

    def mkfn(self, name, node, st, frame):
        cls = frame.func.cls if frame.func is not None else None
        f = Func(name, node, frame.module, None, 'function', (frame.func.qual + '.' if frame.func else '') + name)
        f.outer_cls = getattr(frame.func, 'outer_cls', None) or cls
        return Fn(f, None, (st.env, getattr(frame, 'closure', None)))

    def ev_IfExp(self, n, st, frame):
        c = self.truth(st, self.ev(n.test, st, frame))
        if c.isconst:
            return self.ev(n.body if c.value else n.orelse, st, frame)
        return self.fork2(st, c, lambda s: self.ev(n.body, s, frame), lambda s: self.ev(n.orelse, s, frame), frame)

    def fork2(self, st, c, fa, fb, frame):
        """evaluates both alternatives; a certain exception of one of them is recorded and the other is the value"""
        s1, s2 = st.fork(), st.fork()
        s1.pc, s2.pc = alg.b_and(st.pc, c), alg.b_and(st.pc, alg.b_not(c))
        env0 = st.env
        self.refine(s1, c)
        self.refine(s2, alg.b_not(c))
        r1 = r2 = None
        e1 = e2 = None
        try:
            r1 = fa(s1)
        except PyRaise as e:
            e1 = e
        try:
            r2 = fb(s2)
        except PyRaise as e:
            e2 = e
        if e1 and e2:
            raise e1
        if frame is None:
            frame = Frame(None, None)
            self.top_raises = getattr(self, 'top_raises', [])
            frame.raises = self.top_raises
        if e1:
            frame.raises.append((s1.pc, e1.name))
            st.heap, st.env, st.events = s2.heap, s2.env, s2.events
            return r2
        if e2:
            frame.raises.append((s2.pc, e2.name))
            st.heap, st.env, st.events = s1.heap, s1.env, s1.events
            return r1
        st.heap = self.merge_heap(c, s1.heap, s2.heap)
        st.events = _merge_events(s1.events, s2.events)
        return self.phi(c, r1, r2)

    def refine(self, st, c):
        """gated values whose gate is decided by c"""
        new = None
        facts = None
        for k, v in st.env.items():
            if isinstance(v, (Phi, Tup)):
                if facts is None:
                    facts = {x.key() for x in (c.args if c.op == 'and' else (c,))}
                w = self._refine(v, c, facts)
                if w is not v:
                    if new is None:
                        new = dict(st.env)
                    new[k] = w
        if new is not None:
            st.env = new

    def _refine(self, v, c, facts):
        if isinstance(v, Tup):
            ps = [self._refine(x, c, facts) if isinstance(x, (Phi, Tup)) else x for x in v.pieces]
            if any(x is not y for x, y in zip(ps, v.pieces)):
                return Tup(ps, v.kind)
            return v
        if not isinstance(v, Phi):
            return v
        d = self.decided(v.c, c, facts)
        if d is True:
            return self._refine(v.a, c, facts)
        if d is False:
            return self._refine(v.b, c, facts)
        a, b = self._refine(v.a, c, facts), self._refine(v.b, c, facts)
        if a is v.a and b is v.b:
            return v
        return self.phi(v.c, a, b)

    def decided(self, g, c, facts):
        ng = alg.b_not(g)
        if g.key() in facts:
            return True
        if ng.key() in facts:
            return False
        if g.op == 'and' and any(alg.b_not(x).key() in facts for x in g.args):
            return False
        if g.op == 'or' and any(x.key() in facts for x in g.args):
            return True
        if alg.proven_equiv(alg.b_or(alg.b_not(c), g), TRUE, 800):
            return True
        if alg.proven_equiv(alg.b_or(alg.b_not(c), ng), TRUE, 800):
            return False
        return None

    def ev_BoolOp(self, n, st, frame):
        isand = isinstance(n.op, ast.And)
        return self._boolop(n.values, isand, st, frame)

    def _boolop(self, vals, isand, st, frame):
        v = self.ev(vals[0], st, frame)
        if len(vals) == 1:
            return v
        c = self.truth(st, v)
        if c.isconst:
            if c.value == isand:
                return self._boolop(vals[1:], isand, st, frame)
            return v
        if isand:
            return self.fork2(st, c, lambda s: self._boolop(vals[1:], isand, s, frame),
                              lambda s: FALSE if isinstance(v, Bool) else v, frame)
        return self.fork2(st, c, lambda s: TRUE if isinstance(v, Bool) else v,
                          lambda s: self._boolop(vals[1:], isand, s, frame), frame)

    def ev_UnaryOp(self, n, st, frame):
        v = self.ev(n.operand, st, frame)
        if isinstance(n.op, ast.Not):
            return alg.b_not(self.truth(st, v))
        if isinstance(n.op, ast.USub):
            return self.lift(lambda x: -self._n(x), v)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Undecided('unary operator')

    def _n(self, x):
        if isinstance(x, Num):
            return x
        if isinstance(x, Bool):
            return self.asnum(x)
        if x is None:
            raise PyRaise('TypeError', 'None in arithmetic')
        if isinstance(x, str):
            raise PyRaise('TypeError', 'string in arithmetic')
        raise Undecided('arithmetic on %r' % (x,))

    def ev_BinOp(self, n, st, frame):
        a = self.ev(n.left, st, frame)
        b = self.ev(n.right, st, frame)
        return self.binop(n.op, a, b, st, frame)

    def binop(self, op, a, b, st, frame):
        seq = (Tup, LRef)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Mod):
                vals = [plainval(x) for x in (self.items(st, b) if isinstance(b, Tup) else [b])]
                if isinstance(a, str) and not any(x is None for x in vals):
                    try:
                        return a % tuple(vals)
                    except (TypeError, ValueError):
                        pass
                return Top('formatted string')
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(op, ast.Add) and (isinstance(a, Top) or isinstance(b, Top)):
                return Top('string')
        if isinstance(a, seq) and isinstance(b, seq):
            ka = a.kind if isinstance(a, Tup) else st.heap[a.id].kind
            kb = b.kind if isinstance(b, Tup) else st.heap[b.id].kind
            if isinstance(op, ast.Add):
                if ka != kb:
                    raise PyRaise('TypeError', 'tuple + list')
                ps = self.pieces(st, a) + self.pieces(st, b)
                return Tup(ps) if ka == 'tuple' else self.mklist(st, ps, ka, self.isperm(st, a) or self.isperm(st, b))
            from . import vnlib
            if ka == 'set' and kb == 'set':
                if isinstance(op, ast.BitOr):
                    return vnlib.mkset(self, st, self.pieces(st, a) + self.pieces(st, b))
                if isinstance(op, ast.BitAnd):
                    return vnlib.intersect(self, st, a, b)
                if isinstance(op, ast.Sub):
                    return vnlib.minus(self, st, a, b)
            raise Undecided('operator on sequences')
        if isinstance(a, seq) and isinstance(b, Num) and isinstance(op, ast.Mult):
            k = b.exactconst()
            if k is None or k != int(k):
                raise Undecided('list repetition')
            ps = self.pieces(st, a) * int(k)
            return Tup(ps) if isinstance(a, Tup) else self.mklist(st, ps)
        if isinstance(a, Ref) and not isinstance(a, (LRef, DRef)):
            nm = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__'}.get(type(op))
            f = st.heap[a.id].cls.lookup(nm) if nm else None
            if isinstance(f, Func):
                return self.call(st, Fn(f, a, None, True), [b], {})
            raise PyRaise('TypeError', 'operator on %s' % st.heap[a.id].cls.name)
        if isinstance(a, Phi) and any(isinstance(x, (LRef, Ref)) for x in (a.a, a.b)) or \
                isinstance(b, Phi) and any(isinstance(x, (LRef, Ref)) for x in (b.a, b.b)):
            raise Undecided('operator on a conditional object')

        def f(x, y):
            if isinstance(x, Bool) and isinstance(y, Bool):
                if isinstance(op, ast.BitAnd):
                    return alg.b_and(x, y)
                if isinstance(op, ast.BitOr):
                    return alg.b_or(x, y)
                if isinstance(op, ast.BitXor):
                    return alg.b_or(alg.b_and(x, alg.b_not(y)), alg.b_and(alg.b_not(x), y))
            x, y = self._n(x), self._n(y)
            if isinstance(op, ast.Add):
                return x + y
            if isinstance(op, ast.Sub):
                return x - y
            if isinstance(op, ast.Mult):
                return x * y
            if isinstance(op, ast.Div):
                if not y.n:
                    raise PyRaise('ZeroDivisionError')
                st.events = st.events + (('div', y, alg.TRUE),)
                return x / y
            if isinstance(op, ast.Pow):
                k = y.exactconst()
                if k is not None and k == int(k) and 0 <= k <= 12:
                    return x ** int(k)
                if k is not None and k == Fraction(1, 2):
                    return alg.sqrt_(x)
                if k is not None and k == int(k) and -4 <= k < 0:
                    return x ** int(k)
                cx = x.const()
                if cx is not None and k is not None:
                    return alg.fnum(float(cx) ** float(k))
                raise Undecided('power')
            if isinstance(op, ast.Mod):
                cx, cy = x.const(), y.const()
                if cx is not None and cy is not None:
                    if cy == 0:
                        raise PyRaise('ZeroDivisionError')
                    return num(cx % cy) if isinstance(cx, Fraction) and isinstance(cy, Fraction) else alg.fnum(_fmod(float(cx), float(cy)))
                return alg.of(alg.atom('mod', x, y))
            if isinstance(op, ast.FloorDiv):
                cx, cy = x.exactconst(), y.exactconst()
                if cx is not None and cy is not None and cy != 0:
                    return num(Fraction(cx // cy))
                return alg.of(alg.atom('floordiv', x, y))
            raise Undecided('operator %s' % type(op).__name__)
        return self.lift(f, a, b)

    def ev_Compare(self, n, st, frame):
        left = self.ev(n.left, st, frame)
        res = TRUE
        for op, c in zip(n.ops, n.comparators):
            if res.isconst and not res.value:
                return FALSE
            right = self.ev(c, st, frame)
            res = alg.b_and(res, self.compare(op, left, right, st, frame))
            left = right
        return res

    def compare(self, op, a, b, st, frame):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(st, a, b)
            return r if isinstance(op, ast.Is) else alg.b_not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains_in(st, a, b)
            return r if isinstance(op, ast.In) else alg.b_not(r)
        if isinstance(op, ast.Eq):
            return self.eqv(st, a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, Ref) and not isinstance(a, (LRef, DRef)):
                f = st.heap[a.id].cls.lookup('__ne__')
                if isinstance(f, Func):
                    return self.truth(st, self.call(st, Fn(f, a, None, True), [b], {}))
            return alg.b_not(self.eqv(st, a, b))

        def f(x, y):
            if isinstance(x, (Num, Bool)) and isinstance(y, (Num, Bool)):
                d = self._n(x) - self._n(y)
                s = {ast.Lt: [alg.NEG], ast.LtE: [alg.NEG, alg.ZERO], ast.Gt: [alg.POS],
                     ast.GtE: [alg.POS, alg.ZERO]}[type(op)]
                return alg.b_rel(d, s)
            if isinstance(x, Tup) and isinstance(y, Tup):
                return self._lexcmp(op, self.items(st, x), self.items(st, y), st)
            if isinstance(x, Ref) and not isinstance(x, (LRef, DRef)):
                nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[type(op)]
                m = st.heap[x.id].cls.lookup(nm)
                if isinstance(m, Func):
                    return self.truth(st, self.call(st, Fn(m, x, None, True), [y], {}))
                raise PyRaise('TypeError', '%s not supported' % nm)
            if isinstance(x, LRef) and isinstance(y, LRef) and st.heap[x.id].kind == 'set':
                x, y = self.pieces(st, x), self.pieces(st, y)
                if isinstance(op, ast.LtE):
                    return self._subset(st, x, y)
                if isinstance(op, ast.GtE):
                    return self._subset(st, y, x)
                if isinstance(op, ast.Gt):
                    x, y = y, x
                return alg.b_and(self._subset(st, x, y), alg.b_not(self._subset(st, y, x)))
            if x is None or y is None:
                raise PyRaise('TypeError', 'ordering None')
            raise Undecided('ordering of %r and %r' % (x, y))
        r = self.lift(f, a, b)
        if isinstance(r, Top):
            raise Undecided('comparison of %r' % r)
        return r

    def _lexcmp(self, op, xs, ys, st):
        strict = alg.NEG if isinstance(op, (ast.Lt, ast.LtE)) else alg.POS
        if not xs or not ys:
            if len(xs) == len(ys):
                return alg.b_const(isinstance(op, (ast.LtE, ast.GtE)))
            return alg.b_const((len(xs) < len(ys)) == (strict == alg.NEG))
        d = self.asnum(xs[0]) - self.asnum(ys[0])
        return alg.b_or(alg.b_rel(d, [strict]), alg.b_and(alg.b_rel(d, [alg.ZERO]), self._lexcmp(op, xs[1:], ys[1:], st)))

    def contains_in(self, st, a, b):
        if isinstance(b, Phi):
            return alg.b_ite(b.c, self.contains_in(st, a, b.a), self.contains_in(st, a, b.b))
        if isinstance(b, str) and isinstance(a, str):
            return alg.b_const(a in b)
        if isinstance(b, SymDict):
            return TRUE
        hashed = isinstance(b, DRef) or isinstance(b, LRef) and st.heap[b.id].kind == 'set'
        return self.contains(st, self.pieces(st, b), a, hashed)

    def identical(self, st, a, b):
        if isinstance(a, Phi):
            return alg.b_ite(a.c, self.identical(st, a.a, b), self.identical(st, a.b, b))
        if isinstance(b, Phi):
            return alg.b_ite(b.c, self.identical(st, a, b.a), self.identical(st, a, b.b))
        if isinstance(a, Top) or isinstance(b, Top):
            raise Undecided('identity of %r' % (a if isinstance(a, Top) else b))
        if a is None or b is None:
            return alg.b_const(a is None and b is None)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return alg.b_const(a == b)
        if isinstance(a, Cls) or isinstance(b, Cls):
            return alg.b_const(a is b)
        if isinstance(a, Bool) and isinstance(b, Bool):
            return self.eqv(st, a, b)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return alg.b_const(a.path == b.path)
        if type(a) != type(b):
            return FALSE
        raise Undecided('identity of %r and %r' % (a, b))

    def ev_Subscript(self, n, st, frame):
        v = self.ev(n.value, st, frame)
        if isinstance(n.slice, ast.Slice):
            return self.slice(st, v, n.slice, frame)
        i = self.ev(n.slice, st, frame)
        return self.index(st, v, i)

    def index(self, st, v, i):
        if isinstance(v, Phi):
            return self.phi(v.c, self.index(st, v.a, i), self.index(st, v.b, i))
        if isinstance(i, Phi):
            return self.phi(i.c, self.index(st, v, i.a), self.index(st, v, i.b))
        if isinstance(v, Top):
            return v
        if isinstance(v, SymDict):
            if not isinstance(i, str):
                raise Undecided('key of a symbolic dict')
            return alg.sym('%s.%s' % (v.name, i))
        if isinstance(v, DRef):
            for k, val in st.heap[v.id].items:
                e = self.eqv(st, k, i)
                if e.isconst:
                    if e.value:
                        return val
                else:
                    raise Undecided('dict key of unknown equality')
            raise PyRaise('KeyError')
        if isinstance(i, str):
            raise PyRaise('TypeError', 'index')
        if not isinstance(i, Num):
            raise Undecided('index %r' % (i,))
        k = i.exactconst()
        if k is None or k != int(k):
            raise Undecided('symbolic index')
        k = int(k)
        ps = self.pieces(st, v)
        if self.isperm(st, v):
            raise Undecided('index into a list of unknown order')
        if k in (0, -1) and ps:
            end = ps[0] if k == 0 else ps[-1]
            if isinstance(end, Gen) and end.raw and len(ps) == 1:
                name = end.base.split('@')[0]
                return self.named_element(st, name, 'first' if k == 0 else 'last')
        if k >= 0:
            head = ps[:k + 1]
        else:
            head = ps[k:]
        if any(isinstance(x, (Gen, GItem, Shift)) for x in head):
            raise Undecided('index into a collection of unknown length')
        if k >= len(ps) or -k > len(ps):
            if any(isinstance(x, (Gen, GItem, Shift)) for x in ps):
                raise Undecided('index into a collection of unknown length')
            raise PyRaise('IndexError')
        return ps[k]

    def named_element(self, st, name, tag):
        key = ('el', name, tag)
        if key not in self.consts:
            r = self.generic_element(st, name, tag)
            self.consts[key] = (r, dict(st.heap))
        r, heap = self.consts[key]
        for k, v in heap.items():
            st.heap.setdefault(k, v)
        return r

    def slice(self, st, v, s, frame):
        if isinstance(v, Phi):
            return self.phi(v.c, self.slice(st, v.a, s, frame), self.slice(st, v.b, s, frame))
        if isinstance(v, Top):
            return v

        def c(x):
            if x is None:
                return None
            y = self.ev(x, st, frame)
            if y is None:
                return None
            k = y.exactconst() if isinstance(y, Num) else None
            if k is None or k != int(k):
                raise Undecided('symbolic slice')
            return int(k)
        lo, hi, step = c(s.lower), c(s.upper), c(s.step)
        if isinstance(v, str):
            return v[lo:hi:step]
        ps = self.pieces(st, v)
        if any(isinstance(x, (Gen, GItem, Shift)) for x in ps):
            if (lo, hi, step) == (None, None, None):
                out = ps
            elif (lo, hi, step) == (1, None, None) and len(ps) == 1 and isinstance(ps[0], Gen) and ps[0].raw:
                out = (Shift(ps[0].base),)
            elif (lo, hi, step) == (None, None, -1):
                out = tuple(Gen(x.base, x.vals[::-1], x.guard, x.distinct, False, x.dk) if isinstance(x, Gen) else x for x in ps[::-1])
                return self.mklist(st, out, 'list', True)
            else:
                raise Undecided('slice of a collection of unknown length')
        else:
            out = ps[lo:hi:step]
        if isinstance(v, Tup):
            return Tup(out, v.kind)
        return self.mklist(st, out, st.heap[v.id].kind, self.isperm(st, v))

    def ev_Call(self, n, st, frame):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.env:
            if n.args:
                c = self.ev(n.args[0], st, frame)
                if len(n.args) < 2:
                    return Ext('builtins.super_unbound')
                o = self.ev(n.args[1], st, frame)
                return Super(c, o)
            fc = frame.func.cls if frame.func is not None else None
            first = frame.func.params[0]
            return Super(fc, st.env[first])
        if isinstance(n.func, ast.Name) and n.func.id == 'print' and 'print' not in st.env:
            return None
        fn = self.ev(n.func, st, frame)
        args = []
        star_gen = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                ps = self.pieces(st, self.ev(a.value, st, frame))
                if any(isinstance(x, (Gen, GItem, Shift)) for x in ps):
                    star_gen = True
                args.extend(ps)
            else:
                args.append(self.ev(a, st, frame))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, st, frame)
                if not isinstance(d, DRef):
                    raise Undecided('** argument')
                for kk, vv in st.heap[d.id].items:
                    if not isinstance(kk, str):
                        raise Undecided('** argument')
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, st, frame)
        if star_gen:
            if isinstance(fn, Ext) and fn.path == 'itertools.chain' and len(args) == len(n.args):
                return self.call(st, Ext('itertools.chain.from_iterable'), [Tup(args)], {}, frame, n)
            raise Undecided('* argument of unknown length')
        return self.call(st, fn, args, kwargs, frame, n)

    # comprehensions --------------------------------------------------
    def ev_ListComp(self, n, st, frame):
        return self.mklist(st, self.comp(n.generators, [n.elt], st, frame))

    def ev_GeneratorExp(self, n, st, frame):
        return self.mklist(st, self.comp(n.generators, [n.elt], st, frame), 'gen')

    def ev_SetComp(self, n, st, frame):
        from . import vnlib
        return vnlib.mkset(self, st, self.comp(n.generators, [n.elt], st, frame))

    def ev_DictComp(self, n, st, frame):
        ps = self.comp(n.generators, [ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())], st, frame)
        items = []
        for p in ps:
            if not isinstance(p, Tup):
                raise Undecided('dict of unknown length')
            items.append((p.pieces[0], p.pieces[1]))
        return self.mkdict(st, items)

    def comp(self, gens, elts, st, frame):
        saved = dict(st.env)
        try:
            return self._comp(gens, elts, st, frame)
        finally:
            st.env = saved if not any(isinstance(x, ast.NamedExpr) for e in elts for x in ast.walk(e)) else st.env

    def _comp(self, gens, elts, st, frame):
        if not gens:
            return [self.ev(e, st, frame) for e in elts]
        g = gens[0]
        it = self.ev(g.iter, st, frame)
        out = []
        for p in self.pieces(st, it, 'in %s' % (frame.func.id if frame.func else '')):
            if isinstance(p, Gen):
                p2 = self.enter(st, p)
                vals = []
                guard = None
                for v in p2.vals:
                    self.assign(g.target, v, st, frame)
                    c = TRUE
                    for f in g.ifs:
                        c = alg.b_and(c, self.truth(st, self.ev(f, st, frame)))
                    sub = self._comp(gens[1:], elts, st, frame) if not (c.isconst and not c.value) else []
                    for x in sub:
                        if isinstance(x, (Gen, Shift)):
                            self.leave()
                            raise Undecided('nested collections of unknown length')
                        if isinstance(x, GItem):
                            cc, x = alg.b_and(c, x.guard), x.val
                        else:
                            cc = c
                        vals.append((cc, x))
                self.leave()
                # group values with the same guard
                groups = []
                for cc, x in vals:
                    if groups and groups[-1][0].key() == cc.key():
                        groups[-1][1].append(x)
                    else:
                        groups.append((cc, [x]))
                for cc, xs in groups:
                    gg = alg.b_and(p2.guard, cc)
                    if not (gg.isconst and not gg.value):
                        same = len(xs) == len(p2.vals) and all(a is b for a, b in zip(xs, p2.vals)) and gg.key() == p2.guard.key()
                        out.append(Gen(p2.base, xs, gg, p2.distinct and all(any(a is b for b in p2.vals) for a in xs),
                                       same and p2.raw, p2.dk and len(xs) == len(p2.vals)))
                continue
            if isinstance(p, Shift):
                raise Undecided('iteration over a slice')
            guard, val = (p.guard, p.val) if isinstance(p, GItem) else (TRUE, p)
            self.assign(g.target, val, st, frame)
            c = guard
            for f in g.ifs:
                if c.isconst and not c.value:
                    break
                c = alg.b_and(c, self.truth(st, self.ev(f, st, frame)))
            if c.isconst and not c.value:
                continue
            sub = self._comp(gens[1:], elts, st, frame)
            out.extend(sub if c.isconst else self._guarded(c, sub))
        return out

    def enter(self, st, p):
        """starts the generic iteration over p; a base that is already being iterated gets a second element"""
        name = p.base.split('@')[0]
        if p.base in self.active:
            if not p.raw:
                raise Undecided('nested iteration over a derived collection')
            k = sum(1 for b in self.active if b.split('@')[0] == name)
            tag = 'e%d' % (k + 1)
            el = self.named_element(st, name, tag)
            p = Gen('%s@%s' % (name, tag), [el], p.guard, p.distinct, True, p.dk)
        self.active.append(p.base)
        return p

    def leave(self):
        self.active.pop()

    def ev_NamedExpr(self, n, st, frame):
        v = self.ev(n.value, st, frame)
        st.env[n.target.id] = v
        return v

    def ev_Yield(self, n, st, frame):
        v = self.ev(n.value, st, frame) if n.value is not None else None
        acc = frame.yields
        rec = st.heap[acc.id]
        st.heap[acc.id] = LRec(rec.kind, rec.pieces + (v,))
        return None

    def ev_Starred(self, n, st, frame):
        raise Undecided('starred expression')

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, frame):
        """returns the continuing state or None"""
        for s in stmts:
            st = self.stmt(s, st, frame)
            if st is None:
                return None
        return st

    def stmt(self, s, st, frame):
        self.tick()
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        return m(s, st, frame)

    def st_Expr(self, s, st, frame):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, frame)
        return st

    def st_Pass(self, s, st, frame):
        return st

    def st_Import(self, s, st, frame):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            path = a.name if a.asname else a.name.split('.')[0]
            st.env[nm] = self.p.modules.get(path) or Ext(path)
        return st

    def st_ImportFrom(self, s, st, frame):
        base = frame.module.absolute(s)
        for a in s.names:
            m = self.p.modules.get(base)
            if m is not None:
                e = self.p.resolve(m, a.name) or self.p.modules.get(base + '.' + a.name)
                if e is None:
                    raise PyRaise('ImportError')
                st.env[a.asname or a.name] = self.entity(e, st, Frame(None, m))
            else:
                st.env[a.asname or a.name] = Ext(base + '.' + a.name)
        return st

    def st_FunctionDef(self, s, st, frame):
        if s.decorator_list:
            raise Undecided('decorated nested function')
        st.env[s.name] = self.mkfn(s.name, s, st, frame)
        return st

    def st_Assign(self, s, st, frame):
        v = self.ev(s.value, st, frame)
        for t in s.targets:
            self.assign(t, v, st, frame)
        return st

    def st_AnnAssign(self, s, st, frame):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, frame), st, frame)
        return st

    def assign(self, t, v, st, frame):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, frame)
            self.setattr(st, o, t.attr, v, frame)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Top):
                for e in t.elts:
                    self.assign(e, v, st, frame)
                return
            if self.isperm(st, v):
                its = self.items(st, v)
                if len(its) > 1:
                    raise Undecided('unpacking a list of unknown order')
            its = self.items(st, v, 'in unpacking')
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                after = len(t.elts) - k - 1
                if len(its) < len(t.elts) - 1:
                    raise PyRaise('ValueError')
                for e, x in zip(t.elts[:k], its[:k]):
                    self.assign(e, x, st, frame)
                self.assign(t.elts[k].value, self.mklist(st, its[k:len(its) - after]), st, frame)
                for e, x in zip(t.elts[k + 1:], its[len(its) - after:]):
                    self.assign(e, x, st, frame)
                return
            if len(its) != len(t.elts):
                raise PyRaise('ValueError', 'unpack')
            for e, x in zip(t.elts, its):
                self.assign(e, x, st, frame)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, frame)
            if isinstance(t.slice, ast.Slice):
                if isinstance(o, LRef) and t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                    rec = st.heap[o.id]
                    st.heap[o.id] = LRec(rec.kind, self.pieces(st, v), self.isperm(st, v))
                    return
                raise Undecided('slice assignment')
            i = self.ev(t.slice, st, frame)
            if isinstance(o, DRef):
                items = list(st.heap[o.id].items)
                for n, (k, _) in enumerate(items):
                    e = self.eqv(st, k, i)
                    if not e.isconst:
                        raise Undecided('dict key of unknown equality')
                    if e.value:
                        items[n] = (k, v)
                        break
                else:
                    items.append((i, v))
                st.heap[o.id] = DRec(items)
                return
            if isinstance(o, LRef):
                k = i.exactconst() if isinstance(i, Num) else None
                if k is None:
                    raise Undecided('symbolic index store')
                k = int(k)
                rec = st.heap[o.id]
                ps = list(rec.pieces)
                if any(isinstance(x, (Gen, GItem, Shift)) for x in ps) or rec.perm:
                    raise Undecided('store into a collection of unknown length')
                if not -len(ps) <= k < len(ps):
                    raise PyRaise('IndexError')
                ps[k] = v
                st.heap[o.id] = LRec(rec.kind, ps, rec.perm)
                return
            raise Undecided('item store on %r' % (o,))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, frame)
        else:
            raise Undecided('assignment target')

    def st_AugAssign(self, s, st, frame):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        cur = self.ev(load, st, frame)
        v = self.ev(s.value, st, frame)
        if isinstance(cur, LRef) and isinstance(s.op, ast.Add):
            rec = st.heap[cur.id]
            ps = self.pieces(st, v)
            st.heap[cur.id] = LRec(rec.kind, rec.pieces + tuple(ps), bool(rec.perm) or self.isperm(st, v))
            self.assign(t, cur, st, frame)
            return st
        if isinstance(cur, LRef) and st.heap[cur.id].kind == 'set' and isinstance(s.op, ast.BitOr):
            from . import vnlib
            r = vnlib.mkset(self, st, self.pieces(st, cur) + self.pieces(st, v))
            st.heap[cur.id] = st.heap[r.id]
            return st
        self.assign(t, self.binop(s.op, cur, v, st, frame), st, frame)
        return st

    def st_Return(self, s, st, frame):
        v = self.ev(s.value, st, frame) if s.value is not None else None
        frame.returns.append((st.pc, v, st.heap, st.events))
        return None

    def st_Assert(self, s, st, frame):
        try:
            c = self.truth(st, self.ev(s.test, st, frame))
        except Undecided:
            return st
        if c.isconst:
            if not c.value:
                e = PyRaise('AssertionError', 'assert at line %d' % s.lineno)
                e.explicit = not getattr(frame, 'handling', None)
                raise e
            return st
        frame.raises.append((alg.b_and(st.pc, alg.b_not(c)), 'AssertionError'))
        return st

    def st_Raise(self, s, st, frame):
        name = 'Exception'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(e, ast.Name):
                name = e.id
        else:
            name = getattr(frame, 'handling', 'Exception')
        e = PyRaise(name, 'raise at line %d' % s.lineno)
        e.explicit = not getattr(frame, 'handling', None)
        raise e

    def st_Delete(self, s, st, frame):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                raise Undecided('del')
        return st

    def st_Global(self, s, st, frame):
        raise Undecided('global')

    def st_Nonlocal(self, s, st, frame):
        raise Undecided('nonlocal')

    def st_With(self, s, st, frame):
        raise Undecided('with')

    def st_If(self, s, st, frame):
        c = self.truth(st, self.ev(s.test, st, frame))
        if c.isconst:
            return self.block(s.body if c.value else s.orelse, st, frame)
        return self.branch(c, st, frame, lambda x: self.block(s.body, x, frame), lambda x: self.block(s.orelse, x, frame))

    def branch(self, c, st, frame, fa, fb):
        s1, s2 = st.fork(), st.fork()
        s1.pc = alg.b_and(st.pc, c)
        s2.pc = alg.b_and(st.pc, alg.b_not(c))
        p1, p2 = s1.pc, s2.pc
        out = []
        errs = []
        if p1.isconst and not p1.value:
            return fb(s2)
        if p2.isconst and not p2.value:
            return fa(s1)
        self.refine(s1, c)
        self.refine(s2, alg.b_not(c))
        nret = len(frame.returns)
        exits = 0
        for s0, f in ((s1, fa), (s2, fb)):
            before = len(frame.raises)
            nr = len(frame.returns)
            try:
                r = f(s0)
            except PyRaise as e:
                errs.append(e)
                # the part of this branch that did not leave otherwise raises
                frame.raises.append((s0.pc, e.name))
                r = None
            if r is None or len(frame.returns) != nr:
                exits += 1
            out.append(r)
        if len(errs) == 2 and len(frame.returns) == nret:
            del frame.raises[-2:]
            raise errs[0]
        r1, r2 = out
        if r1 is None and r2 is None:
            return None
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        env = {}
        for k in set(r1.env) | set(r2.env):
            if k in r1.env and k in r2.env:
                env[k] = self.phi(c, r1.env[k], r2.env[k])
            else:
                env[k] = Top('%s is bound on one branch only' % k)
        if r1.pc is p1 and r2.pc is p2:
            pc = st.pc
        else:
            pc = alg.b_or(r1.pc, r2.pc)
        return State(env, self.merge_heap(c, r1.heap, r2.heap), pc, _merge_events(r1.events, r2.events))

    def st_Try(self, s, st, frame):
        nraise = len(frame.raises)
        try:
            end = self.block(s.body, st, frame)
        except PyRaise as e:
            for h in s.handlers:
                names = _handler_names(h)
                if names is None or any(exc_matches(e.name, x) for x in names):
                    if h.name:
                        st.env[h.name] = Top('exception')
                    old = getattr(frame, 'handling', None)
                    frame.handling = e.name
                    end = self.block(h.body, st, frame)
                    frame.handling = old
                    if s.finalbody and end is not None:
                        end = self.block(s.finalbody, end, frame)
                    return end
            raise
        for pc, nm in frame.raises[nraise:]:
            for h in s.handlers:
                names = _handler_names(h)
                if names is None or any(exc_matches(nm, x) for x in names):
                    # a handler that only re-raises changes nothing
                    if all(isinstance(x, (ast.Raise, ast.Expr)) for x in h.body) and any(isinstance(x, ast.Raise) for x in h.body):
                        continue
                    raise Undecided('conditional exception inside try')
        if end is not None and s.orelse:
            end = self.block(s.orelse, end, frame)
        if end is not None and s.finalbody:
            end = self.block(s.finalbody, end, frame)
        return end

    def st_While(self, s, st, frame):
        n = 0
        while True:
            c = self.truth(st, self.ev(s.test, st, frame))
            if not c.isconst:
                raise Undecided('while loop with a symbolic condition in %s' % (frame.func.id if frame.func else ''))
            if not c.value:
                break
            n += 1
            if n > 400:
                raise Undecided('while loop does not end')
            lp = {'breaks': [], 'continues': []}
            frame.loops.append(lp)
            end = self.block(s.body, st, frame)
            frame.loops.pop()
            if lp['breaks'] and (end is not None or lp['continues'] or len(lp['breaks']) > 1):
                raise Undecided('conditional break in a while loop')
            if lp['breaks']:
                return lp['breaks'][0]
            outs = [x for x in lp['continues'] + [end] if x is not None]
            if not outs:
                return None
            st = self.merge_states(outs, None)
        if s.orelse:
            return self.block(s.orelse, st, frame)
        return st

    def st_Break(self, s, st, frame):
        frame.loops[-1]['breaks'].append(st)
        return None

    def st_Continue(self, s, st, frame):
        frame.loops[-1]['continues'].append(st)
        return None

    def st_For(self, s, st, frame):
        it = self.ev(s.iter, st, frame)
        ps = self.pieces(st, it, 'in %s' % (frame.func.id if frame.func else ''))
        if self.isperm(st, it):
            st.events = st.events + (('unordered', s.lineno),)
        broken = []
        for p in ps:
            if st is None:
                break
            if isinstance(p, Shift):
                raise Undecided('iteration over a slice')
            if isinstance(p, Gen):
                st = self.generic_for(s, p, st, frame, broken)
                continue
            lp = {'breaks': [], 'continues': []}
            frame.loops.append(lp)

            def body(x, val=(p.val if isinstance(p, GItem) else p)):
                self.assign(s.target, val, x, frame)
                return self.block(s.body, x, frame)
            try:
                if isinstance(p, GItem):
                    end = self.branch(p.guard, st, frame, body, lambda x: x)
                else:
                    end = body(st)
            finally:
                frame.loops.pop()
            broken.extend(lp['breaks'])
            outs = [x for x in lp['continues'] + [end] if x is not None]
            if len(outs) > 1:
                st = self.merge_states(outs, None)
            else:
                st = outs[0] if outs else None
        if st is not None and s.orelse:
            st = self.block(s.orelse, st, frame)
        if broken:
            st = self.merge_states(broken + ([st] if st is not None else []), None)
        return st

    # ------------------------------------------------------------ generic loop
    def generic_for(self, s, p, st, frame, broken):
        p = self.enter(st, p)
        try:
            return self._generic_for(s, p, st, frame, broken)
        finally:
            self.leave()

    def _generic_for(self, s, p, st, frame, broken):
        assigned = _assigned(s.body) - _assigned_targets(s.target)
        init = {}
        phs = {}
        for nm in assigned:
            if nm in st.env:
                v = st.env[nm]
                init[nm] = v
                if isinstance(v, Num) or isinstance(v, Phi) and _numphi(v):
                    self.ph += 1
                    phs[nm] = alg.sym('#loop%d' % self.ph)
                    st.env[nm] = phs[nm]
                elif isinstance(v, Bool):
                    self.ph += 1
                    phs[nm] = alg.b_atom('loopvar', self.ph)
                    st.env[nm] = phs[nm]
        heap0 = dict(st.heap)
        pc0 = st.pc
        events0 = st.events
        nret = len(frame.returns)
        st.pc = TRUE
        lp = {'breaks': [], 'continues': []}
        frame.loops.append(lp)
        first = True
        try:
            for v in p.vals:
                def body(x, v=v):
                    self.assign(s.target, v, x, frame)
                    return self.block(s.body, x, frame)
                if p.guard.isconst:
                    end = body(st)
                else:
                    end = self.branch(p.guard, st, frame, body, lambda x: x)
                outs = [x for x in lp['continues'] + [end] if x is not None]
                lp['continues'] = []
                if lp['breaks']:
                    break
                if not outs:
                    st = None
                    break
                st = self.merge_states(outs, None) if len(outs) > 1 else outs[0]
        finally:
            frame.loops.pop()
        rets = frame.returns[nret:]
        del frame.returns[nret:]
        if lp['breaks']:
            outs = [x for x in [end] if x is not None]
            if len(p.vals) > 1 or len(lp['breaks']) > 1 or rets:
                raise Undecided('break in a loop over a collection of unknown length')
            b = lp['breaks'][0]
            cond = self.exists(p.base, b.pc)
            st2 = outs[0] if outs else None
            if any(heap0.get(k) is not v for k, v in b.heap.items() if k in heap0):
                raise Undecided('break after a change')
            if st2 is None:
                raise Undecided('loop that always leaves')
            if any(heap0.get(k) is not v for k, v in st2.heap.items() if k in heap0):
                raise Undecided('break and change in a loop')
            env = dict(st2.env)
            for nm in assigned:
                bv = b.env.get(nm)
                nv = st2.env.get(nm)
                iv = init.get(nm, Top('unset'))
                if nm in phs:
                    if not self.same(nv, phs[nm]) and not (isinstance(nv, Bool) and nv.key() == phs[nm].key()):
                        raise Undecided('break and accumulation in a loop')
                    if self.mentions(bv, p.base) or self.mentions_sym(bv, phs[nm]):
                        env[nm] = Top('value at break')
                    else:
                        env[nm] = self.phi(cond, bv, iv)
                elif nm in init:
                    env[nm] = self.phi(cond, bv, iv) if not self.mentions(bv, p.base) and self.same(nv, iv) else Top('value at break')
                else:
                    env[nm] = Top('loop variable')
            for t in _assigned_targets(s.target):
                env[t] = Top('loop variable after the loop')
            return State(env, dict(heap0), pc0, events0)
        if st is None and not rets:
            raise Undecided('loop body never ends normally')
        if st is None:
            # returns in the first iteration
            raise Undecided('loop that returns in its first iteration')
        # ---- changes of objects
        newheap = dict(st.heap)
        changed = [k for k in heap0 if st.heap.get(k) is not heap0[k]]
        for k in changed:
            old, new = heap0[k], st.heap[k]
            if k in self.generic_ids:
                if isinstance(new, Rec):
                    st.events = st.events + (('foreach', new.cls.name, p.base, p.distinct, p.guard),)
                continue
            if isinstance(old, LRec) and isinstance(new, LRec):
                n = len(old.pieces)
                if new.pieces[:n] == old.pieces and not new.perm:
                    extra = []
                    for x in new.pieces[n:]:
                        if isinstance(x, (Gen, Shift)):
                            raise Undecided('nested accumulation')
                        if isinstance(x, GItem):
                            extra.append(Gen(p.base, [x.val], alg.b_and(p.guard, x.guard)))
                        else:
                            extra.append(Gen(p.base, [x], p.guard))
                    # one piece when all guards agree
                    if extra and all(e.guard.key() == extra[0].guard.key() for e in extra):
                        extra = [Gen(p.base, [e.vals[0] for e in extra], extra[0].guard)]
                    newheap[k] = LRec(old.kind, old.pieces + tuple(extra), bool(old.perm) or len(extra) > 1)
                    continue
                raise Undecided('list changed in a loop over a collection of unknown length')
            if isinstance(old, Rec) and isinstance(new, Rec):
                f = dict(new.f)
                for fn in new.f:
                    if fn not in old.f or not self.same(old.f[fn], new.f[fn]):
                        if self.mentions(new.f[fn], p.base) or fn not in old.f:
                            f[fn] = Top('field changed in a loop')
                        else:
                            f[fn] = Top('field changed in a loop')
                newheap[k] = Rec(new.cls, f)
                continue
            raise Undecided('object changed in a loop over a collection of unknown length')
        env = dict(st.env)
        for nm in assigned:
            v = st.env.get(nm)
            if nm in phs:
                env[nm] = self.close_loop(p, phs[nm], init[nm], v)
            elif nm in init:
                if self.same(v, init[nm]):
                    env[nm] = init[nm]
                elif isinstance(v, Phi) and self.same(v.b, init[nm]) and not self.mentions(v.a, p.base):
                    env[nm] = self.phi(self.exists(p.base, v.c), v.a, init[nm])
                elif isinstance(v, Phi) and self.same(v.a, init[nm]) and not self.mentions(v.b, p.base):
                    env[nm] = self.phi(self.exists(p.base, alg.b_not(v.c)), v.b, init[nm])
                elif isinstance(v, LRef) and isinstance(init[nm], LRef) and v == init[nm]:
                    env[nm] = v
                else:
                    env[nm] = Top('%s after the loop' % nm)
            else:
                env[nm] = Top('%s after the loop' % nm)
        for t in _assigned_targets(s.target):
            env[t] = Top('loop variable after the loop')
        pc = pc0
        if rets:
            if changed:
                raise Undecided('return from a loop that changes objects')
            tot = FALSE
            for rpc, rv, rh, rev in rets:
                for nm, ph in phs.items():
                    if self.mentions_sym(rpc, ph) or self.mentions_sym(rv, ph):
                        raise Undecided('return depends on accumulated values')
                if self.mentions(rv, p.base):
                    rv = Top('value of the element found')
                c = self.exists(p.base, rpc)
                frame.returns.append((alg.b_and(pc0, alg.b_not(tot), c), rv, dict(heap0), events0))
                tot = alg.b_or(tot, c)
            pc = alg.b_and(pc0, alg.b_not(tot))
        return State(env, newheap, pc, st.events)

    def close_loop(self, p, ph, init, v):
        base, guard = p.base, p.guard
        if isinstance(ph, Bool):
            if not isinstance(v, Bool):
                return Top('accumulated value')
            t, f = subst_bool(v, ph, True), subst_bool(v, ph, False)
            if t.isconst and t.value:
                return alg.b_or(init, self.exists(base, f))
            if f.isconst and not f.value:
                return alg.b_and(init, alg.b_not(self.exists(base, alg.b_not(t))))
            if self.same(t, f) and not self.mentions(t, base):
                return Top('last value')
            return Top('accumulated condition')
        if isinstance(v, Num) and v.eq(ph):
            return init
        initn = init
        if isinstance(v, Num):
            d = v - ph
            if not self.mentions_sym(d, ph):
                return self.lift(lambda a: self._n(a) + self.agg('aggsum', p.aggbase, TRUE, d), initn)
            a = alg.single_atom(v)
            if a is not None and a.kind in ('min', 'max'):
                rest = [x for x in a.args if not x.eq(ph)]
                if len(rest) == len(a.args) - 1 and not any(self.mentions_sym(x, ph) for x in rest):
                    e = alg.minmax(a.kind, rest)
                    return self.lift(lambda z: alg.minmax(a.kind, [self._n(z), self.agg('agg' + a.kind, base, TRUE, e)]), initn)
        if isinstance(v, Phi) and isinstance(v.a, Num) and isinstance(v.b, Num):
            c, x, y = v.c, v.a, v.b
            for cc, e, other in ((c, x, y), (alg.b_not(c), y, x)):
                if other.eq(ph) and not self.mentions_sym(e, ph):
                    for kind, rel in (('min', alg.lt(e, ph)), ('min', alg.le(e, ph)), ('max', alg.lt(ph, e)), ('max', alg.le(ph, e))):
                        if cc.key() == rel.key():
                            return self.lift(lambda z: alg.minmax(kind, [self._n(z), self.agg('agg' + kind, base, TRUE, e)]), initn)
                    if not self.mentions_sym(cc, ph) and not self.mentions(e, base):
                        return self.phi(self.exists(base, cc), e, init)
                if other.eq(ph) and not self.mentions_sym(cc, ph):
                    d = e - ph
                    if not self.mentions_sym(d, ph):
                        return self.lift(lambda z: self._n(z) + self.agg('aggsum', p.aggbase, cc, d), initn)
        return Top('accumulated value')

    def agg(self, kind, base, guard, e):
        """aggregate over the elements of base, in a canonical form"""
        if kind == 'aggsum':
            if not e.n:
                return num(0)
            if guard.isconst and guard.value and e.d == alg.ONE:
                # linear: constants and coefficients move out
                tot = num(0)
                for m, c in e.n.items():
                    t = Num({m: Fraction(1)}, alg.ONE)
                    if not m:
                        tot = tot + Num({(): c}, alg.ONE) * alg.of(alg.atom('aggcount', base, TRUE, num(1)))
                    elif not self.mentions(t, base):
                        tot = tot + Num({m: c}, alg.ONE) * alg.of(alg.atom('aggcount', base, TRUE, num(1)))
                    else:
                        out = [(x, k) for x, k in m if not self.mentions(alg.of(alg.ATOMS[x]), base)]
                        inn = [(x, k) for x, k in m if (x, k) not in out]
                        tot = tot + Num({tuple(out): c}, alg.ONE) * alg.of(alg.atom('aggsum', base, TRUE, Num({tuple(inn): Fraction(1)}, alg.ONE)))
                return tot
            return alg.of(alg.atom('aggsum', base, guard, e))
        if kind in ('aggmin', 'aggmax'):
            if not self.mentions(e, base):
                return e
            a = alg.single_atom(e)
            if a is not None and a.kind == kind[3:]:
                return alg.minmax(a.kind, [self.agg(kind, base, guard, x) for x in a.args])
        return alg.of(alg.atom(kind, base, guard, e))

    def mentions(self, v, base):
        """does v depend on the generic element of base"""
        name = base.split('@')[0].split(':')[0]
        tags = ['cur', 'next'] if ':' in base else [base.split('@')[1].rstrip('~')]
        pre = tuple('%s[%s]' % (name, t) for t in tags)
        return self._mentions(v, pre)

    def _mentions(self, v, pre):
        if isinstance(v, (Num, Bool)):
            return any(x.startswith(pre) for x in alg.sym_names(v))
        if isinstance(v, Phi):
            return self._mentions(v.c, pre) or self._mentions(v.a, pre) or self._mentions(v.b, pre)
        if isinstance(v, Tup):
            return any(self._mentions(x, pre) for x in v.pieces)
        if isinstance(v, Ref):
            return v.id in self.generic_ids or True
        if isinstance(v, (Gen,)):
            return True
        if isinstance(v, Top):
            return True
        return False

    def mentions_sym(self, v, ph):
        if isinstance(ph, Bool):
            aid = ph.args[0].id
            return _has_atom(v, aid)
        nm = alg.single_atom(ph).args[0]
        if isinstance(v, (Num, Bool)):
            return nm in alg.sym_names(v)
        if isinstance(v, Phi):
            return self.mentions_sym(v.c, ph) or self.mentions_sym(v.a, ph) or self.mentions_sym(v.b, ph)
        return False


def subst_bool(b, ph, val):
    if b.isconst:
        return b
    if b.op == 'atom':
        if b.args[0].id == ph.args[0].id:
            return alg.b_const(val)
        return b
    if b.op == 'rel':
        return b
    if b.op == 'not':
        return alg.b_not(subst_bool(b.args[0], ph, val))
    xs = [subst_bool(a, ph, val) for a in b.args]
    return alg.b_and(*xs) if b.op == 'and' else alg.b_or(*xs)


def _has_atom(v, aid):
    if isinstance(v, Bool):
        if v.op == 'atom':
            if v.args[0].id == aid:
                return True
            return any(_has_atom(x, aid) for x in v.args[0].args)
        if v.op == 'rel':
            return _has_atom(Num(v.args[0]), aid)
        if v.op == 'const':
            return False
        return any(_has_atom(x, aid) for x in v.args)
    if isinstance(v, Num):
        for x in v.atoms():
            if x == aid or any(_has_atom(y, aid) for y in alg.ATOMS[x].args if isinstance(y, (Num, Bool))):
                return True
    if isinstance(v, Phi):
        return _has_atom(v.c, aid) or _has_atom(v.a, aid) or _has_atom(v.b, aid)
    return False


def _numphi(v):
    if isinstance(v, Phi):
        return _numphi(v.a) and _numphi(v.b)
    return isinstance(v, Num)


def _constname(e):
    for k, v in e.module.env.items():
        if v is e:
            return k
    return None


def _merge_events(a, b):
    if a == b:
        return a
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    if len(a) == n:
        return a + tuple(('maybe',) + (e,) for e in b[n:])
    if len(b) == n:
        return b + tuple(('maybe',) + (e,) for e in a[n:])
    return a[:n] + tuple(('maybe',) + (e,) for e in a[n:] + b[n:])


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    return t2


def plainval(v):
    """a string or an integer, as Python value; None otherwise"""
    if isinstance(v, str) or isinstance(v, int) and not isinstance(v, bool):
        return v
    if isinstance(v, Num):
        c = v.const()
        if c is not None and c == int(c) and not isinstance(c, float):
            return int(c)
    return None


def _fmod(x, y):
    return x % y


def _handler_names(h):
    if h.type is None:
        return None
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else '?' for t in ts]


def _assigned(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    # names of nested functions/comprehensions are local there, harmless
    return out


def _assigned_targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _is_generator(node):
    r = getattr(node, 'sa_generator', None)
    if r is None:
        r = node.sa_generator = _has_yield(node)
    return r


def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False

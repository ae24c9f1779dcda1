# -*- coding: utf-8 -*-
"""models of the library functions the analysed code calls (for the value numbering in vn.py)"""
import itertools
import math
from fractions import Fraction

from . import alg
from .alg import Num, Bool, TRUE, FALSE, Undecided, num
from .model import Func, Cls
from . import vn
from .vn import (PyRaise, Top, Ref, LRef, DRef, Rec, LRec, DRec, Tup, Gen, Shift, GItem, Phi, Fn, Ext, SymDict, HashOf)

SYMBOLIC = (Gen, GItem, Shift)


def plain(ps):
    return not any(isinstance(x, SYMBOLIC) for x in ps)


# ---------------------------------------------------------------- sets

def mkset(ip, st, ps):
    ps = list(ps)
    if any(isinstance(x, Shift) for x in ps):
        raise Undecided('set of a slice')
    if any(isinstance(x, Gen) for x in ps):
        if len(ps) == 1:
            g = ps[0]
            return ip.mklist(st, [Gen(g.base, g.vals, g.guard, True, False, True)], 'set')
        return ip.mklist(st, ps, 'set')
    out = []
    for x in ps:
        g, v = (x.guard, x.val) if isinstance(x, GItem) else (TRUE, x)
        seen = FALSE
        for y in out:
            yg, yv = (y.guard, y.val) if isinstance(y, GItem) else (TRUE, y)
            same = TRUE if isinstance(v, Ref) and isinstance(yv, Ref) and v == yv else ip.set_eq(st, v, yv)
            seen = alg.b_or(seen, alg.b_and(yg, same))
        c = alg.b_and(g, alg.b_not(seen))
        if c.isconst:
            if c.value:
                out.append(v)
        else:
            out.append(GItem(c, v))
    return ip.mklist(st, out, 'set', perm=False)


def intersect(ip, st, a, b):
    pb = ip.pieces(st, b)
    out = []
    for x in ip.pieces(st, a):
        out.extend(_filt(ip, st, x, lambda v: ip.contains(st, pb, v, True)))
    return ip.mklist(st, out, 'set')


def minus(ip, st, a, b):
    pb = ip.pieces(st, b)
    out = []
    for x in ip.pieces(st, a):
        out.extend(_filt(ip, st, x, lambda v: alg.b_not(ip.contains(st, pb, v, True))))
    return ip.mklist(st, out, 'set')


def _filt(ip, st, x, f):
    if isinstance(x, Gen):
        r = []
        for v in x.vals:
            c = alg.b_and(x.guard, f(v))
            if not (c.isconst and not c.value):
                r.append(Gen(x.base, [v], c, x.distinct, False, x.dk))
        return r
    if isinstance(x, Shift):
        raise Undecided('filter of a slice')
    g, v = (x.guard, x.val) if isinstance(x, GItem) else (TRUE, x)
    c = alg.b_and(g, f(v))
    if c.isconst:
        return [v] if c.value else []
    return [GItem(c, v)]


# ---------------------------------------------------------------- helpers

def kconst(v, what='argument'):
    k = v.exactconst() if isinstance(v, Num) else None
    if isinstance(v, Bool) and v.isconst:
        return int(v.value)
    if k is None or k != int(k):
        raise Undecided('symbolic %s' % what)
    return int(k)


def mapp(ip, st, f, ps):
    out = []
    for p in ps:
        if isinstance(p, Gen):
            p2 = ip.enter(st, p)
            try:
                out.append(Gen(p2.base, [f(v) for v in p2.vals], p2.guard, False, False, p2.dk))
            finally:
                ip.leave()
        elif isinstance(p, Shift):
            raise Undecided('map over a slice')
        elif isinstance(p, GItem):
            out.append(GItem(p.guard, f(p.val)))
        else:
            out.append(f(p))
    return out


def length(ip, st, v):
    if isinstance(v, Phi):
        return ip.phi(v.c, length(ip, st, v.a), length(ip, st, v.b))
    if isinstance(v, str):
        return num(len(v))
    if isinstance(v, Top):
        raise Undecided('len of %s' % v.reason)
    if isinstance(v, (Num, Bool)) or v is None:
        raise PyRaise('TypeError', 'len')
    if isinstance(v, Ref) and not isinstance(v, (LRef, DRef)):
        f = st.heap[v.id].cls.lookup('__len__')
        if isinstance(f, Func):
            return ip.call(st, Fn(f, v, None, True), [], {})
        raise PyRaise('TypeError', 'len')
    isset = isinstance(v, LRef) and st.heap[v.id].kind == 'set'
    t = num(0)
    for x in ip.pieces(st, v):
        if isinstance(x, GItem):
            t = t + ip.asnum(x.guard)
        elif isinstance(x, Gen):
            if isset and not x.dk:
                return alg.of(alg.atom('opaque', 'card', x.base, repr([repr(z) for z in x.vals]), repr(x.guard)))
            t = t + alg.of(alg.atom('aggcount', x.aggbase, x.guard, num(1))) * num(len(x.vals))
        elif isinstance(x, Shift):
            t = t + alg.of(alg.atom('aggcount', x.base, TRUE, num(1))) - num(1)
        else:
            t = t + num(1)
    return t


def total(ip, st, ps, start):
    acc = start
    for x in ps:
        if isinstance(x, (LRef, Tup)) or isinstance(acc, (LRef, Tup)):
            if isinstance(x, Gen):
                vals = []
                for v in x.vals:
                    sub = ip.pieces(st, v)
                    if not plain(sub):
                        raise Undecided('nested collections')
                    vals.extend(sub)
                acc = ip.mklist(st, ip.pieces(st, acc) + (Gen(x.base, vals, x.guard, False),))
                continue
            if isinstance(x, (GItem, Shift)):
                raise Undecided('sum of conditional lists')
            ka = acc.kind if isinstance(acc, Tup) else 'list'
            ps2 = ip.pieces(st, acc) + ip.pieces(st, x)
            acc = Tup(ps2) if ka == 'tuple' else ip.mklist(st, ps2)
            continue
        if isinstance(x, GItem):
            a = ip.asnum(x.val)
            acc = ip.lift(lambda p: p + alg.of(alg.atom('ite', x.guard, a, num(0))), acc)
        elif isinstance(x, Gen):
            for v in x.vals:
                e = ip.asnum(v)
                acc = ip.lift(lambda p: ip._n(p) + ip.agg('aggsum', x.aggbase, x.guard, e), acc)
        elif isinstance(x, Shift):
            raise Undecided('sum of a slice')
        else:
            acc = ip.lift(lambda p, q: ip._n(p) + ip._n(q), acc, x)
    return acc


def extreme(ip, st, kind, ps, key=None):
    if key is not None:
        if not plain(ps):
            raise Undecided('%s with key' % kind)
        ks = [ip.asnum(ip.call(st, key, [x], {})) for x in ps]
        best = 0
        val, kb = ps[0], ks[0]
        for x, k in list(zip(ps, ks))[1:]:
            c = alg.lt(k, kb) if kind == 'min' else alg.lt(kb, k)
            val = ip.phi(c, x, val)
            kb = alg.minmax(kind, [kb, k])
        return val
    out = []
    for x in ps:
        if isinstance(x, Gen):
            for v in x.vals:
                out.append(ip.agg('agg' + kind, x.base, x.guard, ip.asnum(v)))
        elif isinstance(x, (GItem, Shift)):
            raise Undecided('%s over a conditional collection' % kind)
        else:
            out.append(x)
    if not out:
        raise PyRaise('ValueError', 'empty')

    def f(*a):
        if all(isinstance(x, Tup) for x in a):
            raise Undecided('min of tuples')
        return alg.minmax(kind, [ip._n(x) for x in a])
    return ip.lift(f, *out)


def _lt(ip, st, a, b):
    import ast
    return ip.compare(ast.Lt(), a, b, st, None)


def dosort(ip, st, ps, key=None, reverse=False):
    """-> (pieces, perm)"""
    ps = list(ps)
    if len(ps) <= 1 and plain(ps):
        return ps, False
    if plain(ps):
        ks = [ip.call(st, key, [x], {}) if key is not None else x for x in ps]
        try:
            if len(ps) == 2:
                c = _lt(ip, st, ks[1], ks[0]) if not reverse else _lt(ip, st, ks[0], ks[1])
                return [ip.phi(c, ps[1], ps[0]), ip.phi(c, ps[0], ps[1])], False
            out, ko = [], []
            for x, k in zip(ps, ks):
                i = len(out)
                while i > 0:
                    c = _lt(ip, st, k, ko[i - 1]) if not reverse else _lt(ip, st, ko[i - 1], k)
                    if not c.isconst:
                        raise Undecided('order')
                    if not c.value:
                        break
                    i -= 1
                out.insert(i, x)
                ko.insert(i, k)
            return out, False
        except Undecided:
            return ps, ('sorted', _keyid(key), reverse)
    return ps, ('sorted', _keyid(key), reverse)


def _keyid(key):
    f = getattr(key, 'func', None)
    return (f.id, getattr(f.node, 'lineno', 0)) if f is not None else repr(key)


def flatten(ip, st, ps):
    out = []
    for x in ps:
        if isinstance(x, Gen):
            vals = []
            ok = True
            for v in x.vals:
                sub = ip.pieces(st, v)
                if not plain(sub):
                    ok = False
                    for z in sub:
                        if isinstance(z, GItem):
                            out.append(Gen(x.base, [z.val], alg.b_and(x.guard, z.guard)))
                        elif isinstance(z, (Gen, Shift)):
                            raise Undecided('nested collections of unknown length')
                        else:
                            out.append(Gen(x.base, [z], x.guard))
                else:
                    vals.extend(sub)
            if vals:
                out.append(Gen(x.base, vals, x.guard, False))
        elif isinstance(x, Shift):
            raise Undecided('chain of a slice')
        elif isinstance(x, GItem):
            out.extend(ip._guarded(x.guard, ip.pieces(st, x.val)))
        else:
            out.extend(ip.pieces(st, x))
    return out


def dozip(ip, st, seqs):
    pss = [ip.pieces(st, s) for s in seqs]
    if any(ip.isperm(st, s) for s in seqs) and len(seqs) > 1:
        raise Undecided('zip of a list of unknown order')
    if all(plain(p) for p in pss):
        return [Tup(t) for t in zip(*pss)]
    if len(pss) == 2:
        a, b = pss
        if len(a) == 1 and isinstance(a[0], Gen) and a[0].raw and a[0].guard.isconst and len(b) and isinstance(b[0], Shift) \
                and b[0].base == a[0].base:
            name = a[0].base.split('@')[0]
            kind = None
            if len(b) == 1:
                kind = 'pairs'
            elif len(b) == 2 and isinstance(b[1], Ref) and b[1] == ip.named_element(st, name, 'first'):
                kind = 'cyc'
            if kind:
                return [Gen('%s:%s' % (name, kind), [Tup([ip.named_element(st, name, 'cur'), ip.named_element(st, name, 'next')])])]
        if len(a) == len(b) == 1 and isinstance(a[0], Gen) and isinstance(b[0], Gen) and a[0].base == b[0].base \
                and len(a[0].vals) == len(b[0].vals) and a[0].guard.key() == b[0].guard.key():
            return [Gen(a[0].base, [Tup([x, y]) for x, y in zip(a[0].vals, b[0].vals)], a[0].guard)]
    raise Undecided('zip of collections of unknown length')


def clone(ip, st, v, memo, deep=True):
    if isinstance(v, Phi):
        return ip.phi(v.c, clone(ip, st, v.a, memo, deep), clone(ip, st, v.b, memo, deep))
    if isinstance(v, Tup):
        return Tup([_clone_piece(ip, st, p, memo, deep) for p in v.pieces], v.kind)
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        rec = st.heap[v.id]
        if isinstance(rec, LRec):
            n = LRef(ip.new_id())
        elif isinstance(rec, DRec):
            n = DRef(ip.new_id())
        else:
            n = Ref(ip.new_id())
            for nm in ('__deepcopy__', '__copy__'):
                if rec.cls.lookup(nm) is not None:
                    raise Undecided(nm)
        memo[v.id] = n
        if v.id in ip.generic_ids:
            ip.generic_ids.add(n.id)
        st.heap[n.id] = rec
        if isinstance(rec, LRec):
            st.heap[n.id] = LRec(rec.kind, [_clone_piece(ip, st, p, memo, deep) for p in rec.pieces], rec.perm)
        elif isinstance(rec, DRec):
            st.heap[n.id] = DRec([(clone(ip, st, k, memo, deep), clone(ip, st, x, memo, deep)) for k, x in rec.items])
        else:
            st.heap[n.id] = Rec(rec.cls, {k: (clone(ip, st, x, memo) if deep else x) for k, x in rec.f.items()})
        return n
    return v


def _clone_piece(ip, st, p, memo, deep):
    if not deep:
        return p
    if isinstance(p, Gen):
        return Gen(p.base, [clone(ip, st, x, memo) for x in p.vals], p.guard, p.distinct, False, p.dk)
    if isinstance(p, GItem):
        return GItem(p.guard, clone(ip, st, p.val, memo))
    if isinstance(p, Shift):
        raise Undecided('copy of a slice')
    return clone(ip, st, p, memo)


def typeof(ip, st, v):
    if isinstance(v, Phi):
        return ip.phi(v.c, typeof(ip, st, v.a), typeof(ip, st, v.b))
    if isinstance(v, (LRef,)):
        return Ext('builtins.' + st.heap[v.id].kind)
    if isinstance(v, DRef):
        return Ext('builtins.dict')
    if isinstance(v, Ref):
        return st.heap[v.id].cls
    if isinstance(v, Tup):
        return Ext('builtins.' + v.kind)
    if isinstance(v, Num):
        return Ext('builtins.float')
    if isinstance(v, Bool):
        return Ext('builtins.bool')
    if isinstance(v, str):
        return Ext('builtins.str')
    if v is None:
        return Ext('builtins.NoneType')
    raise Undecided('type of %r' % (v,))


NUMERIC = {'builtins.int', 'builtins.float', 'numbers.Number', 'numbers.Real'}


def isinst(ip, st, v, c):
    if isinstance(v, Phi):
        return alg.b_ite(v.c, isinst(ip, st, v.a, c), isinst(ip, st, v.b, c))
    if isinstance(c, (Tup, LRef)):
        return alg.b_or(*[isinst(ip, st, v, x) for x in ip.items(st, c)])
    if isinstance(v, Top):
        raise Undecided('isinstance of %s' % v.reason)
    if isinstance(c, Cls):
        if isinstance(v, Ref) and not isinstance(v, (LRef, DRef)):
            return alg.b_const(st.heap[v.id].cls.subclass_of(c))
        return FALSE
    if isinstance(c, Ext):
        if c.path == 'builtins.object':
            return TRUE
        if isinstance(v, Num):
            if c.path in ('builtins.float', 'builtins.int') and v.const() is None:
                return TRUE
            return alg.b_const(c.path in NUMERIC)
        t = typeof(ip, st, v)
        if isinstance(t, Ext):
            return alg.b_const(t.path == c.path)
        return FALSE
    raise Undecided('isinstance with %r' % (c,))


def has_attr(ip, st, v, name):
    if isinstance(v, Ref) and not isinstance(v, (LRef, DRef)):
        rec = st.heap[v.id]
        f = rec.cls.lookup(name)
        if name in rec.f or isinstance(f, Func) and f.kind not in ('property', 'cached') or f is not None and not isinstance(f, Func):
            return TRUE
        if isinstance(f, Func):
            try:
                ip.getattr(st, v, name, None)
            except PyRaise as e:
                if e.name == 'AttributeError':
                    return FALSE
                raise
            return TRUE
        return FALSE
    raise Undecided('hasattr')


# ---------------------------------------------------------------- dispatch

def call_ext(ip, st, fn, args, kwargs, frame, node):
    path = fn.path
    if path.startswith('method.'):
        return method(ip, st, fn.recv, path[7:], list(args), kwargs, frame)
    if path == 'object.__init__':
        return None
    h = ip.intercepts.get(('ext', path))
    if h is not None:
        return h(ip, st, list(args), dict(kwargs), frame)
    h = TABLE.get(path)
    if h is None:
        raise Undecided('library function %s' % path)
    return h(ip, st, list(args), dict(kwargs), frame)


TABLE = {}


def lib(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


@lib('builtins.len')
def _(ip, st, a, k, fr):
    return length(ip, st, a[0])


@lib('builtins.abs', 'math.fabs')
def _(ip, st, a, k, fr):
    return ip.lift(lambda x: alg.abs_(ip._n(x)), a[0])


def _minmax(kind):
    def f(ip, st, a, k, fr):
        key = k.pop('key', None)
        if 'default' in k and len(a) == 1:
            ps = ip.pieces(st, a[0])
            if not ps:
                return k['default']
        elif k:
            raise Undecided('keyword of %s' % kind)
        ps = ip.pieces(st, a[0]) if len(a) == 1 else a
        return extreme(ip, st, kind, list(ps), key)
    return f


TABLE['builtins.min'] = _minmax('min')
TABLE['builtins.max'] = _minmax('max')


@lib('builtins.sum', 'math.fsum')
def _(ip, st, a, k, fr):
    start = a[1] if len(a) > 1 else k.get('start', num(0))
    return total(ip, st, ip.pieces(st, a[0]), start)


@lib('builtins.any')
def _(ip, st, a, k, fr):
    return ip.truth_any(st, ip.pieces(st, a[0]))


@lib('builtins.all')
def _(ip, st, a, k, fr):
    cs = []
    for x in ip.pieces(st, a[0]):
        if isinstance(x, GItem):
            cs.append(alg.b_or(alg.b_not(x.guard), ip.truth(st, x.val)))
        elif isinstance(x, Gen):
            t = alg.b_and(*[ip.truth(st, v) for v in x.vals])
            cs.append(alg.b_not(ip.exists(x.base, alg.b_and(x.guard, alg.b_not(t)))))
        elif isinstance(x, Shift):
            raise Undecided('all of a slice')
        else:
            cs.append(ip.truth(st, x))
    return alg.b_and(*cs)


@lib('builtins.bool')
def _(ip, st, a, k, fr):
    return ip.truth(st, a[0]) if a else FALSE


@lib('builtins.sorted')
def _(ip, st, a, k, fr):
    rev = k.get('reverse', FALSE)
    rev = ip.truth(st, rev)
    if not rev.isconst:
        raise Undecided('reverse')
    key = k.get('key')
    src = a[0]
    ps, perm = dosort(ip, st, ip.pieces(st, src), key, rev.value)
    return ip.mklist(st, ps, 'list', perm)


@lib('builtins.list', 'builtins.iter')
def _(ip, st, a, k, fr):
    if not a:
        return ip.mklist(st, [])
    perm = ip.isperm(st, a[0]) or isinstance(a[0], LRef) and st.heap[a[0].id].kind == 'set' and not ip.setorder and len(ip.pieces(st, a[0])) > 1
    return ip.mklist(st, ip.pieces(st, a[0]), 'list', perm)


@lib('builtins.tuple')
def _(ip, st, a, k, fr):
    if not a:
        return Tup([])
    if isinstance(a[0], Tup):
        return a[0]
    if ip.isperm(st, a[0]) and len(ip.pieces(st, a[0])) > 1:
        raise Undecided('tuple of a list of unknown order')
    return Tup(ip.pieces(st, a[0]))


@lib('builtins.set', 'builtins.frozenset')
def _(ip, st, a, k, fr):
    return mkset(ip, st, ip.pieces(st, a[0]) if a else [])


@lib('builtins.dict', 'collections.OrderedDict')
def _(ip, st, a, k, fr):
    items = []
    if a:
        if isinstance(a[0], DRef):
            items = list(st.heap[a[0].id].items)
        else:
            for p in ip.items(st, a[0]):
                kv = ip.items(st, p)
                items.append((kv[0], kv[1]))
    items += list(k.items())
    return ip.mkdict(st, items)


@lib('collections.Counter')
def _(ip, st, a, k, fr):
    items = []
    for x in (ip.items(st, a[0]) if a else []):
        for i, (key, n) in enumerate(items):
            same = ip.set_eq(st, key, x)
            if not same.isconst:
                raise Undecided('counting things of unknown equality')
            if same.value:
                items[i] = (key, n + num(1))
                break
        else:
            items.append((x, num(1)))
    return ip.mkdict(st, items)


@lib('builtins.zip')
def _(ip, st, a, k, fr):
    return ip.mklist(st, dozip(ip, st, a))


@lib('builtins.enumerate')
def _(ip, st, a, k, fr):
    start = kconst(a[1]) if len(a) > 1 else kconst(k['start']) if 'start' in k else 0
    if ip.isperm(st, a[0]):
        raise Undecided('enumerate of a list of unknown order')
    return ip.mklist(st, [Tup([num(i), x]) for i, x in enumerate(ip.items(st, a[0]), start)])


@lib('builtins.range')
def _(ip, st, a, k, fr):
    ks = [kconst(x, 'range') for x in a]
    r = range(*ks)
    if len(r) > 200:
        raise Undecided('long range')
    return ip.mklist(st, [num(i) for i in r])


@lib('builtins.reversed')
def _(ip, st, a, k, fr):
    ps = ip.pieces(st, a[0])
    if not plain(ps):
        return ip.mklist(st, tuple(Gen(x.base, x.vals[::-1], x.guard, x.distinct, False, x.dk) if isinstance(x, Gen) else x for x in ps[::-1]), 'list', True)
    return ip.mklist(st, ps[::-1], 'list', ip.isperm(st, a[0]))


@lib('builtins.map')
def _(ip, st, a, k, fr):
    if len(a) == 2:
        return ip.mklist(st, mapp(ip, st, lambda v: ip.call(st, a[0], [v], {}), ip.pieces(st, a[1])), 'list', ip.isperm(st, a[1]))
    return ip.mklist(st, mapp(ip, st, lambda v: ip.call(st, a[0], list(v.pieces), {}), dozip(ip, st, a[1:])))


@lib('itertools.starmap')
def _(ip, st, a, k, fr):
    return ip.mklist(st, mapp(ip, st, lambda v: ip.call(st, a[0], list(ip.pieces(st, v)), {}), ip.pieces(st, a[1])))


@lib('builtins.filter')
def _(ip, st, a, k, fr):
    out = []
    for x in ip.pieces(st, a[1]):
        out.extend(_filt(ip, st, x, lambda v: ip.truth(st, v if a[0] is None else ip.call(st, a[0], [v], {}))))
    return ip.mklist(st, out, 'list', ip.isperm(st, a[1]))


@lib('builtins.isinstance')
def _(ip, st, a, k, fr):
    return isinst(ip, st, a[0], a[1])


@lib('builtins.issubclass')
def _(ip, st, a, k, fr):
    if isinstance(a[0], Cls) and isinstance(a[1], Cls):
        return alg.b_const(a[0].subclass_of(a[1]))
    raise Undecided('issubclass')


@lib('builtins.type')
def _(ip, st, a, k, fr):
    return typeof(ip, st, a[0])


@lib('builtins.hasattr')
def _(ip, st, a, k, fr):
    if not isinstance(a[1], str):
        raise Undecided('hasattr with a computed name')
    return has_attr(ip, st, a[0], a[1])


@lib('builtins.getattr')
def _(ip, st, a, k, fr):
    if not isinstance(a[1], str):
        raise Undecided('getattr with a computed name')
    try:
        return ip.getattr(st, a[0], a[1], fr)
    except PyRaise as e:
        if e.name == 'AttributeError' and len(a) > 2:
            return a[2]
        raise


@lib('builtins.setattr')
def _(ip, st, a, k, fr):
    if not isinstance(a[1], str):
        raise Undecided('setattr with a computed name')
    ip.setattr(st, a[0], a[1], a[2], fr)
    return None


@lib('builtins.hash')
def _(ip, st, a, k, fr):
    if isinstance(a[0], LRef):
        raise PyRaise('TypeError', 'unhashable')
    v = ip.hashkey(st, a[0])
    return v if isinstance(v, HashOf) else HashOf(v)


@lib('builtins.callable')
def _(ip, st, a, k, fr):
    return alg.b_const(isinstance(a[0], (Fn, Ext, Cls)))


@lib('builtins.round')
def _(ip, st, a, k, fr):
    n = a[1] if len(a) > 1 else k.get('ndigits')

    def f(x):
        x = ip._n(x)
        if n is None:
            nd = 0
        else:
            nd = kconst(n)
        if nd >= 8:
            return x
        c = x.exactconst()
        if c is not None:
            return num(Fraction(round(c, nd)))
        return alg.of(alg.atom('round', x, nd))
    return ip.lift(f, a[0])


@lib('builtins.float')
def _(ip, st, a, k, fr):
    def f(x):
        if isinstance(x, str):
            if x.strip().lower().lstrip('+') in ('inf', 'infinity'):
                return num(float('inf'))
            if x.strip().lower() in ('-inf', '-infinity'):
                return -num(float('inf'))
            try:
                return num(float(x))
            except ValueError:
                raise PyRaise('ValueError', x)
        if x is None or isinstance(x, (Tup, LRef, DRef)) or isinstance(x, Ref):
            raise PyRaise('TypeError', 'float()')
        return ip._n(x)
    return ip.lift(f, a[0]) if a else num(0)


@lib('builtins.int', 'math.floor', 'math.trunc')
def _(ip, st, a, k, fr):
    def f(x):
        if isinstance(x, Bool):
            return ip.asnum(x)
        x = ip._n(x)
        c = x.const()
        if c is not None:
            return num(Fraction(int(c)))
        s = alg.single_atom(x)
        if s is not None and s.kind in ('aggcount', 'int'):
            return x
        return alg.of(alg.atom('int', x))
    return ip.lift(f, a[0]) if a else num(0)


@lib('builtins.print', 'pprint.pprint', 'time.sleep')
def _(ip, st, a, k, fr):
    return None


@lib('builtins.str', 'builtins.repr', 'builtins.chr')
def _(ip, st, a, k, fr):
    if a and isinstance(a[0], str) :
        return a[0]
    return Top('text')


@lib('builtins.id')
def _(ip, st, a, k, fr):
    if isinstance(a[0], Ref):
        return num(100000 + a[0].id)
    raise Undecided('id')


@lib('builtins.next')
def _(ip, st, a, k, fr):
    ps = ip.pieces(st, a[0])
    if not ps:
        if len(a) > 1:
            return a[1]
        raise PyRaise('StopIteration')
    if isinstance(ps[0], SYMBOLIC):
        if len(a) > 1 and all(isinstance(p, (GItem,)) or not isinstance(p, SYMBOLIC) for p in ps):
            v = a[1]
            for p in reversed(ps):
                v = ip.phi(p.guard, p.val, v) if isinstance(p, GItem) else p
            return v
        raise Undecided('next of a conditional collection')
    if ip.isperm(st, a[0]) and len(ps) > 1:
        raise Undecided('next of a collection of unknown order')
    if isinstance(a[0], LRef):
        rec = st.heap[a[0].id]
        st.heap[a[0].id] = LRec(rec.kind, rec.pieces[1:], rec.perm)
    return ps[0]


@lib('builtins.divmod')
def _(ip, st, a, k, fr):
    import ast
    return Tup([ip.binop(ast.FloorDiv(), a[0], a[1], st, fr), ip.binop(ast.Mod(), a[0], a[1], st, fr)])


@lib('builtins.pow', 'math.pow')
def _(ip, st, a, k, fr):
    import ast
    return ip.binop(ast.Pow(), a[0], a[1], st, fr)


# math
def _un(f):
    def g(ip, st, a, k, fr):
        return ip.lift(lambda x: f(ip._n(x)), a[0])
    return g


def _sqrt(ip, st, a, k, fr):
    def f(x):
        x = ip._n(x)
        c = x.const()
        if c is not None and float(c) < 0:
            raise PyRaise('ValueError', 'sqrt')
        return alg.sqrt_(x)
    return ip.lift(f, a[0])


TABLE['math.sqrt'] = _sqrt
TABLE['math.sin'] = _un(alg.sin_)
TABLE['math.cos'] = _un(alg.cos_)
TABLE['math.acos'] = _un(alg.acos_)
TABLE['math.tan'] = _un(lambda x: alg.sin_(x) / alg.cos_(x))
TABLE['math.asin'] = _un(lambda x: alg.pi_() / num(2) - alg.acos_(x))
TABLE['math.radians'] = _un(lambda x: x * alg.pi_() / num(180))
TABLE['math.degrees'] = _un(lambda x: x * num(180) / alg.pi_())


@lib('math.atan2')
def _(ip, st, a, k, fr):
    return ip.lift(lambda x, y: alg.of(alg.atom('atan2', ip._n(x), ip._n(y))), a[0], a[1])


@lib('math.hypot')
def _(ip, st, a, k, fr):
    def f(*xs):
        t = num(0)
        for x in xs:
            t = t + ip._n(x) * ip._n(x)
        return alg.sqrt_(t)
    return ip.lift(f, *a)


@lib('math.dist')
def _(ip, st, a, k, fr):
    t = num(0)
    for p, q in zip(ip.items(st, a[0]), ip.items(st, a[1])):
        d = ip.asnum(p) - ip.asnum(q)
        t = t + d * d
    return alg.sqrt_(t)


@lib('math.copysign')
def _(ip, st, a, k, fr):
    raise Undecided('copysign')


@lib('math.isclose')
def _(ip, st, a, k, fr):
    if 'rel_tol' in k and 'abs_tol' in k:
        r, t = ip.asnum(k['rel_tol']).const(), ip.asnum(k['abs_tol'])
        if r == 0:
            d = ip.asnum(a[0]) - ip.asnum(a[1])
            return alg.le(alg.abs_(d), t)
    raise Undecided('isclose')


# itertools
@lib('itertools.chain')
def _(ip, st, a, k, fr):
    return ip.mklist(st, flatten(ip, st, a), 'list', any(ip.isperm(st, x) for x in a))


@lib('itertools.chain.from_iterable')
def _(ip, st, a, k, fr):
    perm = ip.isperm(st, a[0]) or any(ip.isperm(st, x) for x in ip.pieces(st, a[0]))
    return ip.mklist(st, flatten(ip, st, ip.pieces(st, a[0])), 'list', perm)


@lib('itertools.combinations', 'itertools.permutations', 'itertools.product')
def _(ip, st, a, k, fr):
    raise Undecided('combinations')


def _combi(name):
    f = getattr(itertools, name)

    def g(ip, st, a, k, fr):
        r = a[1] if len(a) > 1 else k.get('r')
        its = ip.items(st, a[0], name)
        if len(its) > 12:
            raise Undecided(name)
        r = kconst(r) if r is not None else len(its)
        return ip.mklist(st, [Tup(t) for t in f(its, r)])
    return g


TABLE['itertools.combinations'] = _combi('combinations')
TABLE['itertools.permutations'] = _combi('permutations')


@lib('itertools.product')
def _(ip, st, a, k, fr):
    if k:
        raise Undecided('product with repeat')
    return ip.mklist(st, [Tup(t) for t in itertools.product(*[ip.items(st, x) for x in a])])


@lib('itertools.islice')
def _(ip, st, a, k, fr):
    ks = [None if x is None else kconst(x) for x in a[1:]]
    return ip.mklist(st, list(itertools.islice(ip.items(st, a[0]), *ks)))


@lib('itertools.tee')
def _(ip, st, a, k, fr):
    n = kconst(a[1]) if len(a) > 1 else 2
    return Tup([ip.mklist(st, ip.pieces(st, a[0])) for _ in range(n)])


@lib('functools.reduce')
def _(ip, st, a, k, fr):
    its = ip.items(st, a[1])
    acc = a[2] if len(a) > 2 else its.pop(0)
    for x in its:
        acc = ip.call(st, a[0], [acc, x], {})
    return acc


@lib('copy.copy')
def _(ip, st, a, k, fr):
    return clone(ip, st, a[0], {}, False)


@lib('copy.deepcopy')
def _(ip, st, a, k, fr):
    return clone(ip, st, a[0], {}, True)


@lib('collections.deque')
def _(ip, st, a, k, fr):
    return ip.mklist(st, ip.pieces(st, a[0]) if a else [], 'deque', ip.isperm(st, a[0]) if a else False)


@lib('random.uniform', 'random.random')
def _(ip, st, a, k, fr):
    ip.ph += 1
    r = alg.of(alg.atom('rand', ip.ph))
    if not a:
        return r
    return ip.lift(lambda x, y: ip._n(x) + r * (ip._n(y) - ip._n(x)), a[0], a[1])


# ---------------------------------------------------------------- methods of builtin types

def method(ip, st, recv, name, args, kwargs, frame):
    if isinstance(recv, str):
        if all(isinstance(a, str) for a in args) and name in ('startswith', 'endswith', 'lower', 'upper', 'strip', 'title'):
            r = getattr(recv, name)(*args)
            return alg.b_const(r) if isinstance(r, bool) else r
        if name in ('format', 'join'):
            return Top('text')
        raise Undecided('str.%s' % name)
    if isinstance(recv, SymDict):
        if name == 'get':
            return ip.index(st, recv, args[0])
        if name in ('keys', 'items', 'values', '__contains__', 'copy'):
            raise Undecided('keys of a symbolic dict')
        raise Undecided('dict.%s' % name)
    if isinstance(recv, Tup):
        if name == 'index' or name == 'count':
            return _seqq(ip, st, recv, name, args)
        raise Undecided('tuple.%s' % name)
    if isinstance(recv, DRef):
        return dmethod(ip, st, recv, name, args, kwargs)
    if isinstance(recv, LRef):
        return lmethod(ip, st, recv, name, args, kwargs, frame)
    if isinstance(recv, Num):
        if name == 'is_integer':
            c = recv.exactconst()
            if c is not None:
                return alg.b_const(c == int(c))
        raise Undecided('float.%s' % name)
    raise Undecided('method %s' % name)


def _seqq(ip, st, recv, name, args):
    ps = ip.pieces(st, recv)
    if name == 'count':
        t = num(0)
        for x in ps:
            if isinstance(x, Gen):
                for v in x.vals:
                    t = t + alg.of(alg.atom('aggcount', x.base, alg.b_and(x.guard, ip.eqv(st, v, args[0])), num(1)))
            elif isinstance(x, GItem):
                t = t + ip.asnum(alg.b_and(x.guard, ip.eqv(st, x.val, args[0])))
            elif isinstance(x, Shift):
                raise Undecided('count')
            else:
                t = t + ip.asnum(ip.eqv(st, x, args[0]))
        return t
    for i, x in enumerate(ps):
        if isinstance(x, SYMBOLIC):
            raise Undecided('index')
        c = TRUE if isinstance(x, Ref) and x == args[0] else ip.eqv(st, x, args[0])
        if not c.isconst:
            raise Undecided('index of unknown equality')
        if c.value:
            return num(i)
    raise PyRaise('ValueError', 'index')


def lmethod(ip, st, recv, name, args, kwargs, frame):
    rec = st.heap[recv.id]
    kind, ps = rec.kind, rec.pieces

    def put(pieces, perm=None):
        st.heap[recv.id] = LRec(kind, pieces, bool(rec.perm) if perm is None else perm)
    if kind == 'set':
        if name == 'add':
            r = mkset(ip, st, ps + (args[0],))
            put(st.heap[r.id].pieces)
            return None
        if name == 'update':
            r = mkset(ip, st, ps + tuple(x for a in args for x in ip.pieces(st, a)))
            put(st.heap[r.id].pieces)
            return None
        if name == 'union':
            return mkset(ip, st, ps + tuple(x for a in args for x in ip.pieces(st, a)))
        if name == 'intersection':
            r = recv
            for a in args:
                r = intersect(ip, st, r, a)
            return r
        if name == 'difference':
            r = recv
            for a in args:
                r = minus(ip, st, r, a)
            return r
        if name == 'symmetric_difference':
            x = minus(ip, st, recv, args[0])
            y = minus(ip, st, mkset(ip, st, ip.pieces(st, args[0])), recv)
            return ip.mklist(st, ip.pieces(st, x) + ip.pieces(st, y), 'set')
        if name in ('issubset',):
            return ip._subset(st, ps, ip.pieces(st, args[0]))
        if name in ('issuperset',):
            return ip._subset(st, ip.pieces(st, args[0]), ps)
        if name == 'isdisjoint':
            return alg.b_not(ip.truth(st, intersect(ip, st, recv, args[0])))
        if name == 'copy':
            return ip.mklist(st, ps, 'set')
        if name == 'clear':
            put([])
            return None
        if name in ('discard', 'remove'):
            out = []
            for x in ps:
                out.extend(_filt(ip, st, x, lambda v: alg.b_not(ip.set_eq(st, v, args[0]))))
            put(out)
            return None
        if name == 'pop':
            if len(ps) == 1 and not isinstance(ps[0], SYMBOLIC):
                put([])
                return ps[0]
            if not ps:
                raise PyRaise('KeyError')
        raise Undecided('set.%s' % name)
    if name == 'append':
        put(ps + (args[0],))
        return None
    if name == 'extend':
        put(ps + tuple(ip.pieces(st, args[0])), bool(rec.perm) or ip.isperm(st, args[0]))
        return None
    if name in ('appendleft',):
        put((args[0],) + ps)
        return None
    if name == 'insert':
        i = kconst(args[0])
        if i != 0 and not plain(ps[:i] if i > 0 else ps):
            raise Undecided('insert')
        l = list(ps)
        l.insert(i, args[1])
        put(l)
        return None
    if name == 'pop' or name == 'popleft':
        i = kconst(args[0]) if args else (0 if name == 'popleft' else -1)
        if not plain(ps) or rec.perm and len(ps) > 1:
            raise Undecided('pop')
        l = list(ps)
        if not -len(l) <= i < len(l):
            raise PyRaise('IndexError')
        v = l.pop(i)
        put(l)
        return v
    if name == 'remove':
        l = list(ps)
        for n, x in enumerate(l):
            if isinstance(x, SYMBOLIC):
                raise Undecided('remove')
            c = TRUE if isinstance(x, Ref) and x == args[0] else ip.eqv(st, x, args[0])
            if not c.isconst:
                raise Undecided('remove of unknown equality')
            if c.value:
                del l[n]
                put(l)
                return None
        raise PyRaise('ValueError', 'remove')
    if name == 'reverse':
        if not plain(ps):
            raise Undecided('reverse')
        put(ps[::-1])
        return None
    if name == 'rotate':
        if not plain(ps) or rec.perm:
            raise Undecided('rotate')
        n = kconst(args[0]) if args else 1
        l = list(ps)
        if l:
            n %= len(l)
            l = l[-n:] + l[:-n] if n else l
        put(l)
        return None
    if name == 'sort':
        rev = ip.truth(st, kwargs.get('reverse', FALSE))
        if not rev.isconst:
            raise Undecided('reverse')
        out, perm = dosort(ip, st, ps, kwargs.get('key'), rev.value)
        put(out, perm)
        return None
    if name in ('index', 'count'):
        return _seqq(ip, st, recv, name, args)
    if name == 'copy':
        return ip.mklist(st, ps, kind, rec.perm)
    if name == 'clear':
        put([])
        return None
    raise Undecided('list.%s' % name)


def dmethod(ip, st, recv, name, args, kwargs):
    items = st.heap[recv.id].items
    if name == 'keys':
        return ip.mklist(st, [k for k, _ in items])
    if name == 'values':
        return ip.mklist(st, [v for _, v in items])
    if name == 'items':
        return ip.mklist(st, [Tup([k, v]) for k, v in items])
    if name == 'copy':
        return ip.mkdict(st, items)
    if name in ('get', 'setdefault', 'pop'):
        for n, (k, v) in enumerate(items):
            e = ip.eqv(st, k, args[0])
            if not e.isconst:
                raise Undecided('dict key of unknown equality')
            if e.value:
                if name == 'pop':
                    st.heap[recv.id] = DRec(items[:n] + items[n + 1:])
                return v
        if name == 'pop' and len(args) < 2:
            raise PyRaise('KeyError')
        d = args[1] if len(args) > 1 else None
        if name == 'setdefault':
            st.heap[recv.id] = DRec(items + ((args[0], d),))
        return d
    if name == 'update':
        out = list(items)
        new = list(st.heap[args[0].id].items) if args and isinstance(args[0], DRef) else []
        new += list(kwargs.items())
        for k, v in new:
            for n, (kk, _) in enumerate(out):
                e = ip.eqv(st, kk, k)
                if not e.isconst:
                    raise Undecided('dict key of unknown equality')
                if e.value:
                    out[n] = (kk, v)
                    break
            else:
                out.append((k, v))
        st.heap[recv.id] = DRec(out)
        return None
    raise Undecided('dict.%s' % name)

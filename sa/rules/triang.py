# -*- coding: utf-8 -*-
"""Triangles, triangulation and point classification."""
import itertools

from ..core import *
from .shapes import chain, coords, G
from . import segments as SEG

NOP = lambda ip, st, fn, a, k: None
RAW = {('PolygonLine', 'purge'): NOP, ('PolygonLine', 'order'): NOP}
MADE = dict(RAW)
MADE[('PolygonLine', 'is_triangle')] = lambda ip, st, fn, a, k: TRUE

SPEC = SEG.SPEC + '''
def heron(ax, ay, bx, by, cx, cy):
    return abs((bx - ax) * (cy - ay) - (by - ay) * (cx - ax)) / 2

def flat(ax, ay, bx, by, cx, cy):
    return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax) == 0

def corners(ax, ay, bx, by, cx, cy):
    return (angle3(ax, ay, bx, by, cx, cy), angle3(bx, by, ax, ay, cx, cy), angle3(cx, cy, ax, ay, bx, by))

def quality(ax, ay, bx, by, cx, cy):
    return sum([abs(x - 60) for x in corners(ax, ay, bx, by, cx, cy)])
'''


def T(ctx):
    return ctx.P.cls(G, 'Triangle')


def tri(w, names):
    """a triangle through the named corners, its edges in this order"""
    objs = {n: w.pt(n) for n in names}
    segs = [w.new(w.Segment, objs[names[i]], objs[names[(i + 1) % 3]]) for i in range(3)]
    return w.new(T(w.ctx), w.ip.mklist(w.st, segs))


# ------------------------------------------------------------------ P28
def measures(ctx):
    S = ctx.spec(SPEC)
    P = ctx.P
    t = T(ctx)
    for names in ('ABC', 'ACB', 'BCA'):
        xy = coords(*'ABC')
        value_rule(ctx, 'triangle measure', P.method(t, 'area'), lambda w, n=names: w.attr_or_call(tri(w, n), 'area'),
                   lambda w: w.spec(S, 'heron', *xy), intercepts=MADE, generic=True, construct='Triangle.area ' + names)
        value_rule(ctx, 'triangle measure', P.method(t, 'quality'), lambda w, n=names: w.attr_or_call(tri(w, n), 'quality'),
                   lambda w: w.spec(S, 'quality', *xy), intercepts=MADE, generic=True, construct='Triangle.quality ' + names)
        f = P.method(t, 'angles')

        def go(names=names, f=f):
            w = World(ctx, MADE, (), True)
            got = w.ip.items(w.st, w.attr_or_call(tri(w, names), 'angles'))
            ctx.calls |= w.ip.calls
            want = w.ip.items(w.st, w.spec(S, 'corners', *xy))
            if len(got) != 3:
                ctx.bad('triangle measure', ctx.where(f), '%d angles' % len(got), 'Triangle.angles ' + names)
                return
            why, open_ = None, None
            for p in itertools.permutations(range(3)):
                try:
                    compare(ctx, Tup(got), Tup([want[i] for i in p]))
                except Differ as e:
                    why = why or e
                except Undecided as e:
                    open_ = e
                else:
                    ctx.ok('triangle measure', ctx.where(f), 'the angles at the three corners', 'Triangle.angles ' + names)
                    return
            if open_ is not None:
                raise open_
            ctx.bad('triangle measure', ctx.where(f), 'not the angles at the corners: %s' % why.detail, 'Triangle.angles ' + names)
        ctx.guard('triangle measure', ctx.where(f), go, 'Triangle.angles ' + names)
    # three corners on one line are refused, others are not
    f = P.method(t, '__init__')
    value_rule(ctx, 'triangle accepted', f, lambda w: (tri(w, 'ABC'), TRUE)[1], lambda w: TRUE, intercepts=RAW, generic=True,
               raises=lambda w: w.spec(S, 'flat', *coords(*'ABC')), construct='Triangle')
    # congruent: the same corners, in whatever order
    f = P.method(t, 'congruent')
    for n in itertools.permutations('ABC'):
        n = ''.join(n)
        truth_rule(ctx, 'congruent', f, lambda w, n=n: w.call(tri(w, 'ABC'), 'congruent', tri(w, n)), True, 'congruent ' + n)
    for n in ('DEF', 'ABD', 'ADC', 'DBC'):
        truth_rule(ctx, 'congruent', f, lambda w, n=n: w.call(tri(w, 'ABC'), 'congruent', tri(w, n)), False, 'congruent ' + n)
    relations(ctx)


def truth_rule(ctx, rule, f, build, want, construct, intercepts=MADE):
    value_rule(ctx, rule, f, lambda w: w.ip.truth(w.st, build(w)), lambda w: alg.b_const(want), intercepts=intercepts, generic=True, construct=construct)


def bsym(n):
    return alg.lt(sym(n), num(0))


def relations(ctx):
    """two triangles are disjunct when none of the relations holds; polygons when none of their triangles meet"""
    P = ctx.P
    t, pl = T(ctx), P.cls(G, 'PolygonLine')
    names = ('congruent', 'overlap', 'enclosed', 'touch')

    def rel(nm, ids):
        def f(ip, st, fn, a, k):
            o = a[1] if len(a) > 1 else list(k.values())[0]
            s = '%s.%s.%s' % (nm, ids.get(a[0].id, '?'), ids.get(o.id, '?'))
            if '?' in s:
                raise Undecided('relation of other objects')
            if nm in ('congruent',) and s > '%s.%s.%s' % (nm, ids[o.id], ids[a[0].id]):
                s = '%s.%s.%s' % (nm, ids[o.id], ids[a[0].id])
            return bsym(s)
        return f
    f = P.method(t, 'disjunct')

    def go():
        ids = {}
        ic = dict(MADE)
        for nm in names:
            ic[('Triangle', nm)] = rel(nm, ids)
        w = World(ctx, ic, (), True)
        x, y = tri(w, 'ABC'), tri(w, 'DEF')
        ids[x.id], ids[y.id] = 'x', 'y'
        got = w.ip.truth(w.st, w.call(x, 'disjunct', y))
        ctx.calls |= w.ip.calls
        no = alg.b_or(bsym('congruent.x.y'), bsym('overlap.x.y'), bsym('overlap.y.x'), bsym('touch.x.y'),
                      alg.b_and(bsym('enclosed.x.y'), alg.b_not(bsym('enclosed.y.x'))))
        some = alg.b_or(no, bsym('touch.y.x'), bsym('enclosed.x.y'), bsym('enclosed.y.x'))
        cond_rule(ctx, 'disjunct', ctx.where(f), alg.b_or(alg.b_not(no), alg.b_not(got)), 'meeting triangles are not disjunct', 'Triangle.disjunct meeting')
        cond_rule(ctx, 'disjunct', ctx.where(f), alg.b_or(some, got), 'triangles without relation are disjunct', 'Triangle.disjunct apart')
    ctx.guard('disjunct', ctx.where(f), go, 'Triangle.disjunct')
    f2 = P.method(pl, 'disjunct')

    def go2():
        ids = {}
        ic = dict(MADE)
        for nm in names:
            ic[('Triangle', nm)] = rel(nm, ids)
        ic[('PolygonLine', 'triangulate')] = NOP
        sets = {}
        ic[('PolygonLine', 'triangles')] = lambda ip, st, fn, a, k: ip.mklist(st, sets[a[0].id], 'set')
        w = World(ctx, ic, (), True)
        x, y = chain(w, 'ABC', True), chain(w, 'DEF', True)
        ts = {n: tri(w, v) for n, v in (('a', 'ABG'), ('b', 'BCG'), ('c', 'DEH'), ('d', 'EFH'))}
        for n, o in ts.items():
            ids[o.id] = n
        sets[x.id], sets[y.id] = [ts['a'], ts['b']], [ts['c'], ts['d']]
        got = w.ip.truth(w.st, w.call(x, 'disjunct', y))
        ctx.calls |= w.ip.calls
        def either(nm, p, q):
            if nm == 'congruent':
                return bsym('%s.%s.%s' % ((nm,) + tuple(sorted((p, q)))))
            return alg.b_and(bsym('%s.%s.%s' % (nm, p, q)), bsym('%s.%s.%s' % (nm, q, p)))
        cross = alg.b_or(*[either(nm, p, q) for nm in ('congruent', 'overlap') for p in 'ab' for q in 'cd'])
        cond_rule(ctx, 'disjunct', ctx.where(f2), alg.b_or(alg.b_not(cross), alg.b_not(got)), 'polygons with meeting triangles are not disjunct', 'PolygonLine.disjunct meeting')
        any_ = alg.b_or(*[bsym('%s.%s.%s' % (nm, p, q)) for nm in ('congruent', 'overlap') for p in 'abcd' for q in 'abcd' if p != q])
        cond_rule(ctx, 'disjunct', ctx.where(f2), alg.b_or(any_, got), 'polygons without meeting triangles are disjunct', 'PolygonLine.disjunct apart')
    ctx.guard('disjunct', ctx.where(f2), go2, 'PolygonLine.disjunct')


# ------------------------------------------------------------------ P31
class Rays(object):
    """a polygon whose edges are crossed by the rays as the script says; random numbers are symbols between 0 and 1"""

    def __init__(self, ctx, names, script, generic=True, place=None):
        self.us, self.rays, self.order = [], [], {}
        self.script = script
        self.edges = {}

        def uniform(ip, st, a, k, fr):
            t = sym('t%d' % len(self.us))
            self.us.append(t)
            return a[0] + t * (a[1] - a[0]) if a else t

        def rand(ip, st, a, k, fr):
            return uniform(ip, st, [], k, fr)

        def cross(ip, st, fn, a, k):
            me, other = a[0], (a[1] if len(a) > 1 else list(k.values())[0])
            for ray, edge in ((me, other), (other, me)):
                key = self.key(ip, st, edge)
                if key in self.edges:
                    break
            else:
                raise Undecided('not an edge of the polygon')
            if ray.id not in self.order:
                self.order[ray.id] = len(self.order)
                self.rays.append([ip.asnum(ip.getattr(st, ip.getattr(st, ray, e, None), c, None)) for e in 'ij' for c in 'xy'])
            return alg.b_const(bool(self.script(self.order[ray.id], self.edges[key])))
        ic = {('ext', 'random.uniform'): uniform, ('ext', 'random.random'): rand, ('LineSegment', 'intersection_on_segment'): cross}
        self.w = w = World(ctx, ic, (), generic)
        if place:
            pts = [w.new(w.Point, Tup([num(x), num(y)])) for x, y in place]
            n = len(pts)
            self.poly = w.new(ctx.P.cls(G, 'PolygonLine'), w.ip.mklist(w.st, [w.new(w.Segment, pts[i], pts[(i + 1) % n]) for i in range(n)]))
        else:
            self.poly = chain(w, names, True)
        for i, s in enumerate(w.ip.items(w.st, w.get(self.poly, 'segments'))):
            self.edges[self.key(w.ip, w.st, s)] = i

    def key(self, ip, st, s):
        return tuple(ip.asnum(ip.getattr(st, ip.getattr(st, s, e, None), c, None)).key() for e in 'ij' for c in 'xy')

    def inside(self, p=None, name='is_internal_point'):
        w = self.w
        return w.ip.truth(w.st, w.call(self.poly, name, p or w.pt('q')))


PLACES = [[(-900, -800), (-700, -810), (-760, -600)], [(5, 3), (9, 4), (6, 8)], [(-10, 2000), (40, 1990), (3, 2100)], [(3000, -7), (3002, -6), (3001, -5), (2999, -6)],
          [(0, 0), (0, 0.001), (0.001, 0)], [(-1, -1), (-1, -2), (-1, -3)], [(-5, -1), (-6, -1), (-9, -1)]]


def containment(ctx):
    P = ctx.P
    pl = P.cls(G, 'PolygonLine')
    f = P.method(pl, 'is_internal_point')
    where = ctx.where(f)

    def verdict(rule, label, r, want, name='is_internal_point', p=None):
        def go():
            got = r.inside(p, name)
            ctx.calls |= r.w.ip.calls
            cond_rule(ctx, rule, where, got if want else alg.b_not(got), '%s is %s: %s' % (name, want, label), '%s %s' % (name, label))
        ctx.guard(rule, where, go, '%s %s' % (name, label))
    # parity of the crossed edges
    sizes = (3, 4) if ctx.tier == 'quick' else (3, 4, 5, 6)
    for n in sizes:
        for k in range(n + 1):
            for hit in itertools.combinations(range(n), k):
                if ctx.tier == 'quick' and n == 4 and hit[:1] == (0,) and k > 1:
                    continue
                label = '%d edges, crossed %s' % (n, ','.join(map(str, hit)) or 'none')
                for name, want in (('is_internal_point', k % 2 == 1), ('is_external_point', k % 2 == 0)):
                    if name == 'is_external_point' and (n > 3 or k > 2):
                        continue
                    r = Rays(ctx, 'ABCDEF'[:n], lambda ray, e, hit=hit: e in hit)
                    verdict('parity', label, r, want, name)
    # one ray that slips through a corner does not decide
    for stray in range(3):
        for odd in (True, False):
            r = Rays(ctx, 'ABC', lambda ray, e, stray=stray, odd=odd: (ray == stray) != odd and e == 1)
            verdict('stray ray', 'ray %d differs, others %s' % (stray, 'odd' if odd else 'even'), r, odd)
    # two more: with different numbers of crossings of one parity
    r = Rays(ctx, 'ABC', lambda ray, e: True if ray % 2 else e == 0)
    verdict('parity', 'rays crossing one or three edges', r, True)
    r = Rays(ctx, 'ABC', lambda ray, e: e < 2 if ray % 2 else False)
    verdict('parity', 'rays crossing none or two edges', r, False)
    # a corner of the polygon is not inside
    for n in 'ABC':
        r = Rays(ctx, 'ABC', lambda ray, e: e == 0)
        verdict('corner', 'at corner ' + n, r, False, p=r.w.pt(n))
        r = Rays(ctx, 'ABC', lambda ray, e: e == 0)
        verdict('corner', 'at corner ' + n, r, True, 'is_external_point', p=r.w.pt(n))
    # the rays start at the point and end outside the extent
    for i, place in enumerate(PLACES):
        label = 'outline %d' % i

        def go(place=place, label=label):
            r = Rays(ctx, None, lambda ray, e: False, place=place)
            w = r.w
            r.inside()
            ctx.calls |= w.ip.calls
            if not r.rays:
                raise Undecided('no ray seen')
            unit = alg.b_and(*([alg.b_not(alg.lt(t, num(0))) for t in r.us] + [alg.b_not(alg.lt(num(1), t)) for t in r.us]))
            for k, (px, py, ex, ey) in enumerate(r.rays):
                cond_rule(ctx, 'ray start', where, alg.b_or(alg.b_and(alg.eq(px, sym('q.x')), alg.eq(py, sym('q.y'))),
                                                            alg.b_and(alg.eq(ex, sym('q.x')), alg.eq(ey, sym('q.y')))), 'a ray starts at the point', '%s ray %d' % (label, k))
                if px.key() != sym('q.x').key():
                    ex, ey = px, py
                xs, ys = [num(x) for x, y in place], [num(y) for x, y in place]
                out = alg.b_or(alg.b_and(*[alg.lt(x, ex) for x in xs]), alg.b_and(*[alg.lt(ex, x) for x in xs]),
                               alg.b_and(*[alg.lt(y, ey) for y in ys]), alg.b_and(*[alg.lt(ey, y) for y in ys]))
                try:
                    compare(ctx, out, TRUE, unit)
                except Differ as e:
                    ctx.bad('ray end', where, 'a ray can end within the extent of the polygon: %s' % e.detail, '%s ray %d' % (label, k))
                except Undecided as e:
                    ctx.und('ray end', where, str(e)[:200], '%s ray %d' % (label, k))
                else:
                    ctx.ok('ray end', where, 'every ray ends outside the extent', '%s ray %d' % (label, k))
        ctx.guard('ray end', where, go, label)


# ------------------------------------------------------------------ P34
ALG = {'delaunay': 'triangulate_delaunay', 'ear clipping': 'ear_clipping', 'triangle': 'triangle_mesh'}


def dispatch(ctx):
    P = ctx.P
    pl = P.cls(G, 'PolygonLine')
    f = P.method(pl, 'triangulate')
    where = ctx.where(f)

    def run(has, args, kw):
        log = []
        ic = {('PolygonLine', m): (lambda ip, st, fn, a, k, m=m: log.append(m)) for m in ALG.values()}
        w = World(ctx, ic, (), True)
        p = chain(w, 'ABC', True)
        if has:
            t = chain(w, 'ABC', True)
            rec = w.st.heap[p.id]
            if '_triangles' not in rec.f:
                raise Undecided('where triangles are kept')
            w.st.heap[p.id] = Rec(rec.cls, dict(rec.f, _triangles=w.ip.mklist(w.st, [t], 'set')))
        try:
            w.call(p, 'triangulate', *args, **kw)
            exc = any(c.isconst and c.value for c, e in w.raises)
        except PyRaise as e:
            exc = True
        ctx.calls |= w.ip.calls
        return log, exc

    def case(label, has, args, kw, want, refused):
        def go():
            log, exc = run(has, args, kw)
            if exc != refused or not refused and log != want:
                ctx.bad('algorithm', where, '%s: runs %s%s instead of %s' % (label, log, ', refused' if exc else '', 'being refused' if refused else want), label)
            else:
                ctx.ok('algorithm', where, '%s: %s' % (label, 'refused' if refused else want), label)
        ctx.guard('algorithm', where, go, label)
    for name, m in ALG.items():
        case('%s, nothing kept' % name, False, (), {'algorithm': name}, [m], False)
        case('%s, kept' % name, True, (), {'algorithm': name}, [], False)
        case('%s, kept, forced' % name, True, (), {'algorithm': name, 'force': TRUE}, [m], False)
        case('%s, nothing kept, forced' % name, False, (name,), {'force': TRUE}, [m], False)
    case('default', False, (), {}, ['triangle_mesh'], False)
    case('default, kept', True, (), {}, [], False)
    case('unknown name', False, (), {'algorithm': 'no such algorithm'}, [], True)
    case('unknown name, forced', True, (), {'algorithm': 'no such algorithm', 'force': TRUE}, [], True)
    case('no name', False, (), {'algorithm': None}, [], True)
    case('no name, kept', True, (), {'algorithm': None}, [], True)
    # the area is that of the triangles
    fa = P.method(pl, 'area')
    S = ctx.spec(SPEC)
    for n in (1, 2, 3):
        def build(w, n=n):
            p = chain(w, 'ABC', True)
            w.ts = [tri(w, x) for x in ('DEF', 'GHI', 'JKL')[:n]]
            return w.attr_or_call(p, 'area')

        def world(n=n):
            ic = dict(MADE)
            for m in list(ALG.values()) + ['triangulate']:
                ic[('PolygonLine', m)] = NOP
            ic[('PolygonLine', 'triangles')] = lambda ip, st, fn, a, k: ip.mklist(st, w.ts, 'set')
            w = World(ctx, ic, (), True)
            return w

        def want(w, n=n):
            s = num(0)
            for x in ('DEF', 'GHI', 'JKL')[:n]:
                s = s + w.ip.asnum(w.spec(S, 'heron', *coords(*x)))
            return s
        value_rule(ctx, 'area', fa, build, want, world=world, construct='area of %d triangles' % n)
    mesh(ctx)


def mesh(ctx):
    """only triangles with their centre inside, no other vertex inside and positive area are kept"""
    P = ctx.P
    pl = P.cls(G, 'PolygonLine')
    f = P.method(pl, 'triangle_mesh')
    where = ctx.where(f)
    S = ctx.spec(SPEC)

    def sides(w, kind, x, y):
        return alg.lt(alg.of(alg.atom('in_' + kind, x, y)), num(0))

    def corners(ip, st, t):
        out = []
        for s in ip.items(st, ip.getattr(st, t, 'segments', None)):
            p = ip.getattr(st, s, 'i', None)
            out.append(p)
        return out

    def world(result, names):
        ic = dict(MADE)

        def inside(ip, st, fn, a, k):
            p = a[1] if len(a) > 1 else k['p']
            x, y = [ip.asnum(ip.getattr(st, p, c, None)) for c in 'xy']
            if a[0].id == w.outer.id:
                return bsym('poly|%s|%s' % (x.key(), y.key()))
            c = sorted((ip.asnum(ip.getattr(st, q, 'x', None)).key(), ip.asnum(ip.getattr(st, q, 'y', None)).key()) for q in corners(ip, st, a[0]))
            return bsym('tri|%s|%s|%s' % (c, x.key(), y.key()))
        ic[('PolygonLine', 'is_internal_point')] = inside
        ic[('PolygonLine', 'point_set')] = lambda ip, st, fn, a, k: ip.mklist(st, w.pts if a[0].id == w.outer.id else corners(ip, st, a[0]))
        ic[('PolygonLine', 'close')] = lambda ip, st, fn, a, k: _close(ip, st, a[0])
        ic[('ext', 'numpy.asarray')] = ic[('ext', 'numpy.array')] = lambda ip, st, a, k, fr: a[0]

        def triangulate(ip, st, a, k, fr):
            d = dict((x, y) for x, y in st.heap[a[0].id].items)
            items = [('vertices', d['vertices'])]
            if result is not None:
                items.append(('triangles', ip.mklist(st, [Tup([num(i) for i in t]) for t in result])))
            return ip.mkdict(st, items)
        ic[('ext', 'triangle.triangulate')] = triangulate
        w = World(ctx, ic, (), True)
        w.pts = [w.pt(n) for n in names]
        w.outer = w.new(pl, w.ip.mklist(w.st, [w.new(w.Segment, w.pts[i], w.pts[(i + 1) % len(names)]) for i in range(len(names))]))
        return w

    def _close(ip, st, p):
        segs = ip.getattr(st, p, 'segments', None)
        ps = ip.items(st, segs)
        if ip.getattr(st, ps[-1], 'j', None) != ip.getattr(st, ps[0], 'i', None):
            s = ip.call(st, P.cls('geometry.SR_line', 'LineSegment'), [ip.getattr(st, ps[-1], 'j', None), ip.getattr(st, ps[0], 'i', None)], {})
            st.heap[segs.id] = LRec('list', tuple(ps) + (s,))

    def go(result, label, names):
        w = world(result, names)
        w.call(w.outer, 'triangle_mesh')
        ctx.calls |= w.ip.calls
        got = w.ip.pieces(w.st, w.get(w.outer, 'triangles'))
        if result is None:
            if got:
                raise Undecided('triangles from nowhere')
            ctx.ok('kept triangles', where, 'none', label)
            return
        found = {}
        for g in got:
            guard, t = (g.guard, g.val) if isinstance(g, GItem) else (TRUE, g)
            if not isinstance(t, Ref):
                raise Undecided('not a triangle')
            key = frozenset((w.ip.asnum(w.get(q, 'x')).key()) for q in corners(w.ip, w.st, t))
            found[key] = alg.b_or(found[key], guard) if key in found else guard
        for idx in result:
            ns = [names[i] for i in idx]
            guard = found.pop(frozenset(sym(n + '.x').key() for n in ns), FALSE)
            mx = sum([sym(n + '.x') for n in ns], num(0)) / num(3)
            my = sum([sym(n + '.y') for n in ns], num(0)) / num(3)
            c = sorted((sym(n + '.x').key(), sym(n + '.y').key()) for n in ns)
            rest = [n for n in names if n not in ns]
            want = alg.b_and(bsym('poly|%s|%s' % (mx.key(), my.key())),
                             *[alg.b_not(bsym('tri|%s|%s|%s' % (c, sym(n + '.x').key(), sym(n + '.y').key()))) for n in rest])
            area = w.ip.asnum(w.spec(S, 'heron', *coords(*ns)))
            want = alg.b_and(want, alg.lt(num(0), area))
            label2 = '%s triangle %s' % (label, ''.join(ns))
            try:
                compare(ctx, guard, want)
            except Differ as e:
                ctx.bad('kept triangles', where, e.detail, label2)
            except Undecided as e:
                ctx.und('kept triangles', where, str(e)[:300], label2)
            else:
                ctx.ok('kept triangles', where, 'kept exactly when its centre is inside, no other vertex is and its area is positive', label2)
        if found:
            ctx.bad('kept triangles', where, 'a triangle that was not delivered is kept', label)
    todo = [(4, [(0, 1, 2), (0, 2, 3)]), (4, [(1, 2, 3)]), (4, None), (5, [(0, 1, 3)])]
    if ctx.tier == 'thorough':
        todo += [(5, [(0, 1, 2), (0, 2, 3), (0, 3, 4)]), (6, [(0, 2, 4)])]
    for n, result in todo:
        names = [chr(97 + i) for i in range(n)]
        label = 'mesh of %d vertices %s' % (n, result)
        ctx.guard('kept triangles', where, lambda result=result, label=label, names=names: go(result, label, names), label)


PROPS = {
    'P28': (measures, 'value numbering of the triangle queries; normal forms compared with the angles at the corners, the area by cross product and the combination of relations',
            'exact reals; corners in general position; edges joined head to tail, as the constructor leaves them'),
    'P31': (containment, 'value numbering of the point-in-polygon test with the crossing predicate as a table and random numbers as symbols in [0, 1]; parity, corners and ray ends decided',
            'the crossing predicate itself is decided by P08; polygons of 3 and 4 edges (thorough: 6)'),
    'P34': (dispatch, 'value numbering of the triangulation entry with the algorithms as recorded calls, and of the mesh import with the external mesher as an unknown table',
            'the external mesher, ear clipping and the incremental Delaunay construction are not analysed'),
}

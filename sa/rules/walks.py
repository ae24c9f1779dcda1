# -*- coding: utf-8 -*-
"""Ordering the segments of a loop, walking a set of segments, finding the loops of a group."""
import itertools
import random

from ..core import *
from . import segments as SEG

G = 'geometry.SR_polygon'
HT = 'SR_Vessel.SR_hauptteile'
PGM = 'geometry.SR_polygon_group'
NAMES = 'ABCDEFGHI'


class Walk(object):
    """segments between named points in general position; which point is closest to the origin is given by the ranks"""

    def __init__(self, ctx, edges, rank=None, order='fwd', kinds=None, shared=True, more=None, turn=0):
        self.rank = rank or {n: i + 1 for i, n in enumerate(NAMES)}
        ic = {(None, 'distance'): self.distance}
        ic.update(more or {})
        self.w = w = World(ctx, ic, ['step%d' % i for i in range(len(NAMES))], True)
        w.ip.setorder = order
        # from left to right in the order of their names, at any distances and heights
        self.x = {n: sum([sym('step%d' % j) for j in range((i * (2 if turn % 2 else 1) + turn) % len(NAMES) + 1)], sym('left')) for i, n in enumerate(NAMES)}
        self.pts = {}
        self.named = {}
        for n in NAMES:
            self.named[(self.x[n].key(), sym(n + '.y').key())] = n
        self.objs = []
        for i, e in enumerate(edges):
            a, b = (self.point(n, shared) for n in e)
            c = w.Segment if kinds is None else w.P.cls(HT, kinds[i % len(kinds)])
            self.objs.append(w.new(c, a, b))

    def point(self, n, shared):
        if n not in self.pts or not shared:
            self.pts[n] = self.w.new(self.w.Point, Tup([self.x[n], sym(n + '.y')]))
        return self.pts[n]

    def at(self, ip, st, p):
        return tuple(ip.asnum(ip.getattr(st, p, c, None)).key() for c in 'xy')

    def distance(self, ip, st, fn, a, k):
        at = [self.at(ip, st, p) for p in list(a) + list(k.values())]
        z = num(0).key()
        for p, q in (at, at[::-1]):
            if p == (z, z) and q in self.named:
                return num(self.rank[self.named[q]])
        ic = ip.intercepts.pop((None, 'distance'))
        try:
            return ip.call_func(st, fn, a, k)
        finally:
            ip.intercepts[(None, 'distance')] = ic

    def list(self):
        return self.w.ip.mklist(self.w.st, self.objs)

    def poly(self):
        return self.w.new(self.w.P.cls(G, 'PolygonLine'), self.list())

    def ends(self, s):
        ip, st = self.w.ip, self.w.st
        out = ''
        for e in 'ij':
            key = self.at(ip, st, ip.getattr(st, s, e, None))
            if key not in self.named:
                raise Undecided('an end point that is none of the given ones')
            out += self.named[key]
        return out

    def chain(self, v):
        """the segments of a polygon line as pairs of names"""
        return [self.ends(s) for s in self.w.ip.items(self.w.st, self.w.get(v, 'segments'))]


def isloop(ch, names):
    """the chain visits the names once each, every segment starts where the one before ends"""
    n = len(ch)
    return n == len(names) and all(ch[i][1] == ch[(i + 1) % n][0] for i in range(n)) and sorted(c[0] for c in ch) == sorted(names)


def flipped(edges, flips):
    return [e[::-1] if f else e for e, f in zip(edges, flips)]


def loop(n):
    return [NAMES[i] + NAMES[(i + 1) % n] for i in range(n)]


def arrangements(ctx, edges, quick, thorough):
    """orders and directions in which the segments may be stored: all of them where there are few"""
    n = len(edges)
    full = [(p, f) for p in itertools.permutations(range(n)) for f in itertools.product((0, 1), repeat=n)] if n <= 4 else None
    k = quick if ctx.tier == 'quick' else thorough
    rnd = random.Random('%s %s' % (''.join(edges), ctx.seed))
    if full is not None:
        if len(full) > k:
            full = rnd.sample(full, k)
        return [flipped([edges[i] for i in p], f) for p, f in full]
    out = []
    for _ in range(k):
        p = list(edges)
        rnd.shuffle(p)
        out.append(flipped(p, [rnd.random() < .5 for _ in p]))
    return out


# ------------------------------------------------------------------ P38
def ordering(ctx):
    f = ctx.P.method(ctx.P.cls(G, 'PolygonLine'), 'order')
    where = ctx.where(f)

    def one(edges, near, closed, kinds=None, shared=True):
        names = sorted(set(''.join(edges)))
        label = '%s, nearest %s%s%s' % (' '.join(edges), near, '' if shared else ', own points', ', kinds' if kinds else '')

        def go():
            rank = {n: (1 if n == near else 2 + i) for i, n in enumerate(NAMES)}
            k = Walk(ctx, edges, rank, kinds=kinds, shared=shared, turn=len(ctx.obs))
            p = k.poly()
            was = {frozenset(e): (o.id, k.w.st.heap[o.id].cls.name) for e, o in zip(edges, k.objs)}
            got = k.w.ip.truth(k.w.st, k.w.call(p, 'order'))
            ctx.calls |= k.w.ip.calls
            if not got.isconst:
                raise Undecided('success depends on the coordinates')
            if got.value != closed:
                ctx.bad('ordering', where, 'order() reports %s' % got.value, label)
                return
            if closed:
                ch = k.chain(p)
                if not isloop(ch, names):
                    ctx.bad('ordering', where, 'order() leaves %s' % ' '.join(ch), label)
                    return
                if ch[0][0] != near:
                    ctx.bad('ordering', where, 'order() starts at %s' % ch[0][0], label)
                    return
                for s, e in zip(k.w.ip.items(k.w.st, k.w.get(p, 'segments')), ch):
                    if (k.w.st.heap[s.id].cls.name) != was[frozenset(e)][1]:
                        ctx.bad('ordering', where, 'segment %s has become a %s' % (e, k.w.st.heap[s.id].cls.name), label)
                        return
            ctx.ok('ordering', where, 'loop from %s' % near if closed else 'refused', label)
        ctx.guard('ordering', where, go, label)
    for n, q, t in ((3, 48, 48), (4, 60, 384), (5, 12, 120), (6, 4, 60)):
        for i, edges in enumerate(arrangements(ctx, loop(n), q, t)):
            one(edges, NAMES[i % n], True, kinds=('Wall', 'NonWall') if i % 3 == 0 else None, shared=i % 2 == 0)
    for n in (2, 3, 4):
        for i, edges in enumerate(arrangements(ctx, loop(n + 1)[:-1], 8, 60)):
            one(edges, NAMES[i % n], False, shared=i % 2 == 0)
    # a copy in order: the loop, and the original as it was
    fo = ctx.P.method(ctx.P.cls(G, 'PolygonLine'), 'ordered_copy')
    for i, edges in enumerate(arrangements(ctx, loop(4), 6, 40)):
        label = 'copy of ' + ' '.join(edges)

        def go(edges=edges, label=label):
            k = Walk(ctx, edges)
            p = k.poly()
            c = k.w.attr_or_call(p, 'ordered_copy')
            ctx.calls |= k.w.ip.calls
            if k.chain(p) != edges:
                ctx.bad('ordered copy', ctx.where(fo), 'the original is changed to %s' % ' '.join(k.chain(p)), label)
            elif not isloop(k.chain(c), 'ABCD'):
                ctx.bad('ordered copy', ctx.where(fo), 'the copy is %s' % ' '.join(k.chain(c)), label)
            else:
                ctx.ok('ordered copy', ctx.where(fo), 'in order', label)
        ctx.guard('ordered copy', ctx.where(fo), go, label)


# ------------------------------------------------------------------ P39
def cycles_of(edges):
    """the simple cycles of a graph, as sets of edges"""
    es = [frozenset(e) for e in edges]
    out = []
    for r in range(3, len(es) + 1):
        for c in itertools.combinations(es, r):
            deg = {}
            for e in c:
                for v in e:
                    deg[v] = deg.get(v, 0) + 1
            if set(deg.values()) != {2}:
                continue
            seen, todo = set(), [next(iter(deg))]
            while todo:
                v = todo.pop()
                if v in seen:
                    continue
                seen.add(v)
                todo += [u for e in c if v in e for u in e if u != v]
            if len(seen) == len(deg):
                out.append(frozenset(c))
    return out


GRAPHS = [
    ('one loop', 'AB BC CA', 20, 48),
    ('one loop of four', 'AB BC CD DA', 6, 200),
    ('a loop with a tail', 'AB BC CA AD', 8, 200),
    ('a loop with a long tail', 'AB BC CA AD DE', 4, 80),
    ('an open chain', 'AB BC CD', 4, 48),
    ('a star', 'AB AC AD', 4, 48),
    ('two loops apart', 'AB BC CA DE EF FD', 3, 80),
    ('two loops at one point', 'AB BC CA AD DE EA', 4, 80),
    ('two loops with a common wall', 'AB BC CA BD CD', 8, 120),
    ('two larger loops with a common wall', 'AB BC CD DA BE EF FC', 3, 40),
    ('two loops joined by a wall', 'AB BC CA CD DE EF FD', 2, 40),
    ('three loops in a row', 'AB BC CA BD CD DE CE', 2, 30),
    ('a loop apart from two joined ones', 'AB BC CA BD CD EF FG GE', 2, 20),
]


def finding(ctx):
    P = ctx.P
    wf = P.func(G, 'walk_segments')
    where = ctx.where(wf)
    for label, text, q, t in GRAPHS:
        edges = text.split()
        want = cycles_of(edges)
        deg = lambda n: sum(n in e for e in edges)
        plain = [c for c in want if all(deg(n) == 2 for e in c for n in e)]
        for i, arr in enumerate(arrangements(ctx, edges, max(q // 2, 2), t)):
            lab = 'walk %s: %s' % (label, ' '.join(arr))

            def go(arr=arr, lab=lab, i=i):
                k = Walk(ctx, arr, order=('fwd', 'rev')[i % 2], shared=i % 3 > 0, turn=i)
                got = k.w.fn(G, 'walk_segments', segments=k.list())
                ctx.calls |= k.w.ip.calls
                now = [k.ends(o) for o in k.objs]
                if now != arr:
                    ctx.bad('walk', where, 'the given segments become %s' % ' '.join(now), lab)
                    return
                if not isinstance(got, Ref) or isinstance(got, (LRef, DRef)):
                    if isinstance(got, Phi) or k.w.ip.truth(k.w.st, got).isconst is False:
                        raise Undecided('result depends on coordinates')
                    if len(edges) == len(set(''.join(edges))) and plain:
                        ctx.bad('walk', where, 'nothing but one loop, and it is not found', lab)
                        return
                    ctx.ok('walk', where, 'no loop reported', lab)
                    return
                ch = k.chain(got)
                if frozenset(frozenset(e) for e in ch) not in plain:
                    ctx.bad('walk', where, 'reports %s' % ' '.join(ch), lab)
                elif not isloop(ch, {n for e in ch for n in e}):
                    ctx.bad('walk', where, 'reports the loop %s, not in order' % ' '.join(ch), lab)
                else:
                    ctx.ok('walk', where, 'the loop %s' % ' '.join(ch), lab)
            ctx.guard('walk', where, go, lab)
    lf = P.method(P.cls(PGM, 'BehalterGraph'), 'find_loops')
    where2 = ctx.where(lf)
    for label, text, q, t in GRAPHS:
        edges = text.split()
        want = cycles_of(edges)
        for i, arr in enumerate(arrangements(ctx, edges, q, t)):
            lab = '%s: %s' % (label, ' '.join(arr))

            def go(arr=arr, lab=lab, i=i):
                k = Walk(ctx, arr, order=('fwd', 'rev')[i % 2], shared=i % 3 > 0, turn=i, more={('PolygonLine', 'isvalid'): lambda ip, st, fn, a, kw: TRUE})
                w = k.w
                # the segments belong to one or two polygons
                half = len(k.objs) // 2 if i % 2 else 0
                lists = [k.objs[:half], k.objs[half:]] if half else [k.objs]
                polys = [w.new(P.cls(G, 'PolygonLine'), w.ip.mklist(w.st, l)) for l in lists]
                g = w.ip.alloc(w.st, P.cls(PGM, 'BehalterGraph'), {})
                w.ip.call(w.st, Fn(P.method(P.cls(PGM, 'PolygonGroup'), '__init__'), g, None, True), [w.ip.mklist(w.st, polys)], {})
                got = w.ip.items(w.st, w.call(g, 'find_loops'))
                ctx.calls |= w.ip.calls
                rest = list(want)
                now = [k.ends(o) for o in k.objs]
                if now != arr:
                    ctx.bad('loops', where2, 'the segments of the group become %s' % ' '.join(now), lab)
                    return
                for v in got:
                    ch = k.chain(v)
                    c = frozenset(frozenset(e) for e in ch)
                    if c not in want or not isloop(ch, {n for e in ch for n in e}):
                        ctx.bad('loops', where2, '%s is found as a loop' % ' '.join(ch), lab)
                        return
                    if c not in rest:
                        ctx.bad('loops', where2, 'the loop %s is found twice' % ' '.join(ch), lab)
                        return
                    rest.remove(c)
                if rest:
                    ctx.bad('loops', where2, 'the loop of %s is not found' % ' '.join(sorted(''.join(sorted(e)) for e in rest[0])), lab)
                    return
                sizes = [len(k.chain(v)) for v in got]
                if sizes != sorted(sizes):
                    ctx.bad('loops', where2, 'loops of %s segments, not in ascending order' % sizes, lab)
                    return
                ctx.ok('loops', where2, '%d loops' % len(want), lab)
            ctx.guard('loops', where2, go, lab)


# ------------------------------------------------------------------ P40
class Loops(Walk):
    """loops with given areas; which of them overlap, and which points are inside which, are tables"""

    def __init__(self, ctx, loops, areas, apart, inside=(), order='fwd'):
        self.loops, self.areas, self.apart, self.inside = loops, areas, apart, inside
        self.tri = {}
        edges = sorted({frozenset(l[i] + l[(i + 1) % len(l)]) for l in loops for i in range(len(l))}, key=sorted)
        more = {
            ('PolygonLine', 'triangulate'): lambda ip, st, fn, a, k: None,
            ('PolygonLine', 'triangles'): lambda ip, st, fn, a, k: ip.mklist(st, [self.tri[self.which(ip, st, a[0])]], 'set'),
            ('PolygonLine', 'area'): lambda ip, st, fn, a, k: num(areas[self.which(ip, st, a[0])]),
            ('PolygonLine', 'disjunct'): self.disjunct,
            ('PolygonLine', '__eq__'): lambda ip, st, fn, a, k: alg.b_const(self.alike(ip, st, a)),
            ('PolygonLine', '__ne__'): lambda ip, st, fn, a, k: alg.b_const(not self.alike(ip, st, a)),
            ('PolygonLine', '__hash__'): lambda ip, st, fn, a, k: num(NAMES.index(self.which(ip, st, a[0])[0])),
            ('PolygonLine', 'is_internal_point'): lambda ip, st, fn, a, k: alg.b_const(self.internal(ip, st, a, k)),
            ('PolygonLine', 'is_external_point'): lambda ip, st, fn, a, k: alg.b_const(not self.internal(ip, st, a, k)),
            ('Triangle', 'area'): lambda ip, st, fn, a, k: num(areas[self.tname(a[0])]),
            ('Triangle', 'congruent'): lambda ip, st, fn, a, k: FALSE,
            ('Triangle', 'overlap'): lambda ip, st, fn, a, k: self.meets(self.tname(a[0]), self.tname((a[1:] + list(k.values()))[0])),
        }
        Walk.__init__(self, ctx, [], order=order, more=more)
        w = self.w
        t = w.P.cls(G, 'Triangle')
        for l in loops:
            self.tri[l] = w.ip.alloc(w.st, t, {'tag': l})
        self.polys = []
        for l in loops:
            segs = [w.new(w.Segment, self.point(l[i], True), self.point(l[(i + 1) % len(l)], True)) for i in range(len(l))]
            self.polys.append(w.new(w.P.cls(G, 'PolygonLine'), w.ip.mklist(w.st, segs)))

    def tname(self, t):
        for l, x in self.tri.items():
            if x.id == t.id:
                return l
        raise Undecided('another triangle')

    def which(self, ip, st, p):
        es = set()
        for s in ip.items(st, ip.getattr(st, p, 'segments', None)):
            es.add(frozenset(self.named.get(self.at(ip, st, ip.getattr(st, s, e, None)), '?') for e in 'ij'))
        for l in self.loops:
            if es == {frozenset((l[i], l[(i + 1) % len(l)])) for i in range(len(l))}:
                return l
        raise Undecided('another polygon')

    def alike(self, ip, st, a):
        """equality of polygon lines (decided by P09): the same segments in the same order"""
        if not all(isinstance(x, Ref) and not isinstance(x, (LRef, DRef)) for x in a):
            return False
        x, y = ([tuple(self.at(ip, st, ip.getattr(st, s, e, None)) for e in 'ij') for s in ip.items(st, ip.getattr(st, p, 'segments', None))] for p in a)
        return x == y

    def meets(self, a, b):
        return alg.b_const(a == b or not (frozenset((a, b)) in self.apart))

    def disjunct(self, ip, st, fn, a, k):
        x, y = (self.which(ip, st, p) for p in (a + list(k.values()))[:2])
        return alg.b_not(self.meets(x, y))

    def internal(self, ip, st, a, k):
        p = (a[1:] + list(k.values()))[0]
        return (self.named[self.at(ip, st, p)], self.which(ip, st, a[0])) in self.inside


def pairs(*p):
    return {frozenset(x.split('|')) for x in p}


def within(names, loop):
    return {(n, loop) for n in names}


BASES = [
    ('no loop', [], {}, pairs(), (), []),
    ('three loops, one as large as the others', ['ABC', 'DEF', 'GHI'], {'ABC': 3, 'DEF': 4, 'GHI': 7}, pairs('ABC|DEF', 'ABC|GHI', 'DEF|GHI'), (), ['ABC', 'DEF', 'GHI']),
    ('loops in a row of sizes 1, 2, 1', ['ABC', 'BDC', 'CDE', 'ABDC', 'BDEC'], {'ABC': 1, 'BDC': 2, 'CDE': 1, 'ABDC': 3, 'BDEC': 3}, pairs('ABC|BDC', 'ABC|CDE', 'BDC|CDE', 'ABDC|CDE', 'BDEC|ABC'), (), ['ABC', 'BDC', 'CDE']),
    ('loops in a row of sizes 1, 1, 2', ['ABC', 'BDC', 'CDE', 'ABDC', 'BDEC'], {'ABC': 1, 'BDC': 1, 'CDE': 2, 'ABDC': 2, 'BDEC': 3}, pairs('ABC|BDC', 'ABC|CDE', 'BDC|CDE', 'ABDC|CDE', 'BDEC|ABC'), (), ['ABC', 'BDC', 'CDE']),
    ('two loops within another', ['ABC', 'DEF', 'GHI'], {'ABC': 3, 'DEF': 4, 'GHI': 70}, pairs('ABC|DEF'), within('ABCDEF', 'GHI'), ['ABC', 'DEF', 'GHI']),
    ('a loop within another, one apart', ['ABC', 'DEF', 'GHI'], {'ABC': 3, 'DEF': 40, 'GHI': 7}, pairs('ABC|GHI', 'DEF|GHI'), within('ABC', 'DEF'), ['ABC', 'DEF', 'GHI']),
    ('one loop', ['ABC'], {'ABC': 3}, pairs(), (), ['ABC']),
    ('two loops apart', ['ABC', 'DEF'], {'ABC': 3, 'DEF': 4}, pairs('ABC|DEF'), (), ['ABC', 'DEF']),
    ('two loops apart of one size', ['ABC', 'DEF'], {'ABC': 3, 'DEF': 3}, pairs('ABC|DEF'), (), ['ABC', 'DEF']),
    ('three loops apart', ['ABC', 'DEF', 'GHI'], {'ABC': 3, 'DEF': 4, 'GHI': 9}, pairs('ABC|DEF', 'ABC|GHI', 'DEF|GHI'), (), ['ABC', 'DEF', 'GHI']),
    ('two loops and the one around both', ['ABC', 'BDC', 'ABDC'], {'ABC': 3, 'BDC': 2, 'ABDC': 5}, pairs('ABC|BDC'), (), ['ABC', 'BDC']),
    ('a large and a small loop and the one around both', ['ABC', 'BDC', 'ABDC'], {'ABC': 30, 'BDC': 1, 'ABDC': 31}, pairs('ABC|BDC'), (), ['ABC', 'BDC']),
    ('a loop within another', ['ABC', 'DEFG'], {'ABC': 2, 'DEFG': 20}, pairs(), within('ABC', 'DEFG'), ['ABC', 'DEFG']),
    ('a loop within another of more edges', ['DEF', 'ABCGH'], {'ABCGH': 2, 'DEF': 20}, pairs(), within('ABCGH', 'DEF'), ['DEF', 'ABCGH']),
    ('two loops with the one around both, and one apart', ['ABC', 'BDC', 'EFG', 'ABDC'], {'ABC': 3, 'BDC': 2, 'ABDC': 5, 'EFG': 7}, pairs('ABC|BDC', 'ABC|EFG', 'BDC|EFG', 'ABDC|EFG'), (), ['ABC', 'BDC', 'EFG']),
    ('one loop twice', ['ABC', 'BCA', 'DEF'], {'ABC': 3, 'BCA': 3, 'DEF': 4}, pairs('ABC|DEF', 'BCA|DEF'), (), ['ABC', 'DEF']),
]


def bases(ctx):
    P = ctx.P
    f = P.method(P.cls(PGM, 'BehalterGraph'), 'keep_base_polygons')
    where = ctx.where(f)

    def names(k, v):
        return sorted(''.join(sorted(set(''.join(k.chain(x))))) for x in v)
    numbering(ctx)
    for n, (label, loops, areas, apart, inside, want) in enumerate(BASES):
        for order in ('fwd', 'rev'):
            for back in (False, True):
                if ctx.tier == 'quick' and ((order == 'rev') != back or len(loops) > 2 and back != bool(n % 2)):
                    continue
                lab = '%s (%s, %s)' % (label, order, 'last first' if back else 'first first')

                def go(loops=loops, areas=areas, apart=apart, inside=inside, want=want, order=order, back=back, lab=lab):
                    k = Loops(ctx, loops, areas, apart, inside, order)
                    w = k.w
                    g = w.ip.alloc(w.st, P.cls(PGM, 'BehalterGraph'), {})
                    given = k.polys[::-1] if back else k.polys
                    v = w.ip.items(w.st, w.call(g, 'keep_base_polygons', polygons=w.ip.mklist(w.st, given)))
                    ctx.calls |= w.ip.calls
                    got = names(k, v)
                    if got != sorted(''.join(sorted(l)) for l in want):
                        ctx.bad('base loops', where, 'of %s are kept: %s' % (', '.join(loops), ', '.join(got) or 'none'), lab)
                        return
                    for x in v:
                        ch = k.chain(x)
                        if not isloop(ch, {n for e in ch for n in e}):
                            ctx.bad('base loops', where, 'kept but not in order: %s' % ' '.join(ch), lab)
                            return
                    ctx.ok('base loops', where, ', '.join(got), lab)
                ctx.guard('base loops', where, go, lab)


def numbering(ctx):
    """the cycles of a vessel are its base loops, numbered from 0 on"""
    P = ctx.P
    cg = P.cls(PGM, 'BehalterGraph')
    f = P.method(cg, 'cycles')
    where = ctx.where(f)
    for n in (0, 1, 2, 3):
        lab = 'numbering of %d' % n

        def go(n=n, lab=lab):
            seen = []
            more = {('BehalterGraph', 'find_loops'): lambda ip, st, fn, a, k: 'loops',
                    ('BehalterGraph', 'keep_base_polygons'): lambda ip, st, fn, a, k: (seen.append((a[1:] + list(k.values()))[0]), ip.mklist(st, polys))[1]}
            k = Walk(ctx, [], more=more)
            w = k.w
            polys = [w.new(P.cls(G, 'PolygonLine'), w.ip.mklist(w.st, [w.new(w.Segment, k.point(l[i], True), k.point(l[(i + 1) % 3], True)) for i in range(3)]))
                     for l in ('ABC', 'DEF', 'GHI')[:n]]
            g = w.ip.alloc(w.st, cg, {})
            w.ip.call(w.st, Fn(P.method(P.cls(PGM, 'PolygonGroup'), '__init__'), g, None, True), [w.ip.mklist(w.st, [])], {})
            for again in (False, True):
                d = w.attr_or_call(g, 'cycles')
                ctx.calls |= w.ip.calls
                if not isinstance(d, DRef):
                    raise Undecided('cycles are no dictionary')
                items = w.st.heap[d.id].items
                got = [(x.exactconst(), v.id) for x, v in items]
                if got != [(i, p.id) for i, p in enumerate(polys)]:
                    ctx.bad('numbering', where, 'numbers %s of %d base loops' % ([x for x, _ in got], n), lab)
                    return
            if seen[:1] != ['loops']:
                ctx.bad('numbering', where, 'the base loops are not chosen from the loops found', lab)
                return
            ctx.ok('numbering', where, '0 to %d' % (n - 1) if n else 'none', lab)
        ctx.guard('numbering', where, go, lab)


PROPS = {
    'P38': (ordering, 'value numbering of the ordering over the ways a loop can be stored; equality of points decided by normal form, the distance from the origin as a given ranking',
            'points in general position; loops of three to six segments, chains of two to four'),
    'P39': (finding, 'value numbering of walking and loop finding over wall graphs with points in general position, sets iterated in two orders; the loops compared with the simple cycles of the graph',
            'graphs of up to eight segments stand for all; every loop that can be formed is taken to be valid (walls do not cross)'),
    'P40': (bases, 'value numbering of the selection of base loops with areas, overlaps and containment as tables', 'a selection of arrangements of up to four loops; overlap and containment themselves are decided by P28 and P31'),
}

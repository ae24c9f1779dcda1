# -*- coding: utf-8 -*-
"""Rooms of a vessel: relations between cycles, room construction, classification of parts, numbering of a group."""
from ..core import *
from ..vn import HashOf

HT = 'SR_Vessel.SR_hauptteile'
G = 'geometry.SR_polygon'
PGM = 'geometry.SR_polygon_group'
from .triang import bsym
NOP = lambda ip, st, fn, a, k: None
IDENT = {
    ('PolygonLine', '__eq__'): lambda ip, st, fn, a, k: alg.b_const(a[0] == a[1]),
    ('PolygonLine', '__ne__'): lambda ip, st, fn, a, k: alg.b_const(a[0] != a[1]),
    ('PolygonLine', '__hash__'): lambda ip, st, fn, a, k: num(a[0].id),
}
POS = ['%s%d' % (c, i) for i in range(12) for c in 'deh']


def flats(w, n):
    """n flat bottoms named P0, P1 ..., anywhere"""
    c = w.P.cls(HT, 'Flachboden')
    return [w.new(c, name='P%d' % i, pos_v=sym('v%d' % i), pos_h=sym('u%d' % i), d=sym('d%d' % i)) for i in range(n)]


def shells_(w, n):
    """n shells named P0, P1 ..., anywhere; two walls each"""
    c = w.P.cls(HT, 'Mantel')
    return [w.new(c, name='P%d' % i, pos_v=sym('v%d' % i), pos_h=sym('u%d' % i), d=Tup([sym('d%d' % i), sym('e%d' % i)]), h=sym('h%d' % i)) for i in range(n)]


def table(ip, st, d):
    """{key: list of objects} as a dictionary value"""
    return ip.mkdict(st, [(Tup([num(x) for x in k]) if isinstance(k, tuple) else num(k), ip.mklist(st, list(v))) for k, v in d.items()])


class Vessel(object):
    """a vessel of flat bottoms whose cycles are given as a table; which relations are answered by a table can be chosen"""

    def __init__(self, ctx, n, cycles, extra=None, rooms=False, tables=None, shells=False):
        self.n, self.cyc = n, cycles
        ic = dict(IDENT)
        ic[('Graph', 'add_intex_points')] = NOP
        ic[('Behalter', 'cut_by_raumende')] = NOP
        if not rooms:
            ic[('Behalter', 'raum_erstellen')] = NOP
        gs = lambda ip, st: {k: [ip.getattr(st, self.parts[i], 'graph', None) for i in v] for k, v in cycles.items()}
        ic[('BehalterGraph', 'segments_in_cycles')] = lambda ip, st, fn, a, k: table(ip, st, gs(ip, st))
        for name, f in (tables or {}).items():
            for c in ('BehalterGraph', 'PolygonGroup'):
                ic[(c, name)] = lambda ip, st, fn, a, k, f=f: f(self, ip, st)
        ic.update(extra(self) if extra else {})
        self.w = w = World(ctx, ic, POS, True)
        self.parts = shells_(w, n) if shells else flats(w, n)
        self.vessel = w.new(w.P.cls(HT, 'Behalter'), w.ip.mklist(w.st, self.parts))
        self.graph = w.get(self.vessel, 'graph')
        self.name = {}
        for i, p in enumerate(self.parts):
            self.name[p.id] = 'P%d' % i
            g = w.get(p, 'graph')
            self.name[g.id] = 'G%d' % i

    def names(self, v):
        """a list of parts or graphs as sorted names"""
        w = self.w
        out = []
        for x in w.ip.items(w.st, v):
            if isinstance(x, str):
                out.append(x)
                continue
            if not isinstance(x, Ref) or x.id not in self.name:
                raise Undecided('not a part: %r' % (x,))
            out.append(self.name[x.id])
        return out

    def dic(self, v):
        w = self.w
        if not isinstance(v, DRef):
            raise Undecided('not a dictionary')
        out = {}
        for k, x in w.st.heap[v.id].items:
            out[key(k)] = x
        return out


def key(k):
    if isinstance(k, Tup):
        return tuple(key(x) for x in k.pieces)
    if isinstance(k, Num) and k.const() is not None:
        return int(k.const())
    if isinstance(k, (str, int)):
        return k
    raise Undecided('key %r' % (k,))


def check(ctx, rule, anchor, construct, f, want, text):
    where = ctx.where(anchor)

    def go():
        got, calls, raises = f()
        ctx.calls |= calls
        for c, e in raises:
            if not (c.isconst and not c.value):
                raise Undecided('may be refused: %s' % (e,))
        if got != want:
            ctx.bad(rule, where, '%s: %s instead of %s' % (text, got, want), construct)
        else:
            ctx.ok(rule, where, '%s: %s' % (text, want), construct)

    def guarded():
        try:
            go()
        except PyRaise as e:
            if e.explicit:
                ctx.bad(rule, where, '%s: refused (%s)' % (text, e.msg), construct)
            else:
                raise
    ctx.guard(rule, where, guarded, construct)


CONFIGS = {
    'two apart': (4, {0: [0, 1], 1: [2, 3]}),
    'two with a common part': (3, {0: [0, 1], 1: [1, 2]}),
    'three in a row': (5, {0: [0, 1, 2], 1: [2, 3], 2: [3, 4, 0]}),
    'two common parts': (4, {0: [0, 1, 2], 1: [2, 1, 3]}),
    'numbers from three': (4, {5: [0, 1], 3: [1, 2], 4: [2, 3]}),
    'one': (3, {0: [0, 1, 2]}),
}


def common(cyc):
    out = {}
    for a in cyc:
        for b in cyc:
            if a < b and set(cyc[a]) & set(cyc[b]):
                out[(a, b)] = sorted(set(cyc[a]) & set(cyc[b]))
    return out


def relations(ctx):
    P = ctx.P
    bg = P.cls(PGM, 'BehalterGraph')
    pg = P.cls(PGM, 'PolygonGroup')
    for label, (n, cyc) in CONFIGS.items():
        ov = common(cyc)

        def f(n=n, cyc=cyc):
            v = Vessel(ctx, n, cyc)
            d = v.dic(v.w.attr_or_call(v.graph, 'overlaps_in_cycles'))
            return {k: sorted(v.names(x)) for k, x in d.items()}, v.w.ip.calls, v.w.raises
        check(ctx, 'overlaps', P.method(bg, 'overlaps_in_cycles'), label, f, {k: ['G%d' % i for i in x] for k, x in ov.items()}, 'common parts of cycles, each pair once')

        def f2(n=n, cyc=cyc):
            v = Vessel(ctx, n, cyc)
            d = v.dic(v.w.attr_or_call(v.vessel, 'overlaps_in_cycles'))
            return {k: sorted(v.names(x)) for k, x in d.items()}, v.w.ip.calls, v.w.raises
        check(ctx, 'overlaps', P.method(pg, 'overlaps_in_cycles'), label + ' (vessel)', f2, {k: ['P%d' % i for i in x] for k, x in ov.items()}, 'common parts of cycles of a vessel')

        def f3(n=n, cyc=cyc):
            v = Vessel(ctx, n, cyc)
            d = v.dic(v.w.attr_or_call(v.vessel, 'overlaps_in_cycles_named'))
            return {k: sorted(v.names(x)) for k, x in d.items()}, v.w.ip.calls, v.w.raises
        check(ctx, 'overlaps', P.method(pg, 'overlaps_in_cycles_named'), label + ' (names)', f3, {k: ['P%d' % i for i in x] for k, x in ov.items()}, 'names of common parts')

        def f4(n=n, cyc=cyc):
            v = Vessel(ctx, n, cyc)
            return sorted(set(v.names(v.w.attr_or_call(v.vessel, 'all_overlapping_segments')))), v.w.ip.calls, v.w.raises
        check(ctx, 'overlaps', P.method(bg, 'all_overlapping_segments'), label + ' (all)', f4, sorted({'G%d' % i for x in ov.values() for i in x}), 'all common parts')

        def f5(n=n, cyc=cyc):
            v = Vessel(ctx, n, cyc)
            d = v.dic(v.w.attr_or_call(v.vessel, 'segments_in_cycles'))
            return {k: v.names(x) for k, x in d.items()}, v.w.ip.calls, v.w.raises
        check(ctx, 'members', P.method(pg, 'segments_in_cycles'), label, f5, {k: ['P%d' % i for i in x] for k, x in cyc.items()}, 'parts of the cycles')
    members(ctx)
    contained(ctx)
    build_rooms(ctx)


def members(ctx):
    """a part belongs to a cycle when it is loosely part of it or shares a segment with it"""
    P = ctx.P
    bg = P.cls(PGM, 'BehalterGraph')
    where = ctx.where(P.method(bg, 'segments_in_cycles'))

    def go():
        polys = {}

        def extra(v):
            def subset(ip, st, fn, a, k):
                o = a[1] if len(a) > 1 else k['other']
                return bsym('part|%s|%s' % (polys[a[0].id], v.name[o.id]))

            def cycles(ip, st, fn, a, k):
                out = []
                for i, parts in enumerate(([1, 2], [0], [3])):
                    segs = []
                    for j in parts:
                        s = ip.items(st, ip.getattr(st, ip.getattr(st, v.parts[j], 'graph', None), 'segments', None))[0]
                        c = st.heap[s.id].cls
                        segs.append(ip.call(st, c, [ip.getattr(st, s, 'i', None), ip.getattr(st, s, 'j', None)], {}))
                    p = ip.call(st, P.cls(G, 'PolygonLine'), [ip.mklist(st, segs)], {})
                    polys[p.id] = 'c%d' % i
                    out.append((num(i), p))
                return ip.mkdict(st, out)
            return {('PolygonLine', 'loose_subset'): subset, ('BehalterGraph', 'cycles'): cycles}
        v = Vessel(ctx, 4, {}, extra)
        w = v.w
        del w.ip.intercepts[('BehalterGraph', 'segments_in_cycles')]
        d = v.dic(w.attr_or_call(v.graph, 'segments_in_cycles'))
        ctx.calls |= w.ip.calls
        if sorted(d) != [0, 1, 2]:
            ctx.bad('members', where, 'cycles %s instead of 0, 1, 2' % sorted(d), 'by segment')
            return
        for i, sure in enumerate(([1, 2], [0], [3])):
            got = {}
            for p in w.ip.pieces(w.st, d[i]):
                g, x = (p.guard, p.val) if isinstance(p, GItem) else (TRUE, p)
                n = v.name.get(getattr(x, 'id', None))
                if n is None:
                    raise Undecided('not a part')
                got[n] = alg.b_or(got.get(n, FALSE), g)
            for j in range(4):
                want = TRUE if j in sure else bsym('part|c%d|G%d' % (i, j))
                try:
                    compare(ctx, got.pop('G%d' % j, FALSE), want)
                except Differ as e:
                    ctx.bad('members', where, 'part %d in cycle %d: %s' % (j, i, e.detail), 'cycle %d part %d' % (i, j))
                else:
                    ctx.ok('members', where, 'part %d in cycle %d %s' % (j, i, 'by its segment' if j in sure else 'when loosely contained'), 'cycle %d part %d' % (i, j))
    ctx.guard('members', where, go, 'by segment')


def contained(ctx):
    """a cycle is contained in another one when all its points lie within the hull of the other"""
    P = ctx.P
    bg = P.cls(PGM, 'BehalterGraph')
    where = ctx.where(P.method(bg, 'contained_cycles'))
    for label, (n, cyc) in (('three cycles', (5, {0: [0, 1], 1: [2], 2: [3, 4]})), ('a common part', (3, {0: [0, 1], 1: [1, 2]})), ('two cycles of five parts', (10, {0: [0, 1, 2, 3, 4], 1: [5, 6, 7, 8, 9]}))):
        def go(n=n, cyc=cyc, label=label):
            hulls = {}

            def extra(v):
                def hull(ip, st, fn, a, k):
                    pts = a[0] if a else list(k.values())[0]
                    ks = frozenset(tuple(ip.asnum(c).key() for c in ip.items(st, t)) if not isinstance(t, Ref) or isinstance(t, LRef) else
                                   tuple(ip.asnum(ip.getattr(st, t, c, None)).key() for c in 'xy') for t in ip.items(st, pts))
                    q = [ip.call(st, P.cls('geometry.SR_point', 'Point'), [Tup([sym('hull%d.%s' % (len(hulls), c)), sym('hull%d.%s' % (len(hulls), c + 'y'))])], {}) for c in 'abc']
                    p = ip.call(st, P.cls(G, 'PolygonLine'), [ip.mklist(st, [ip.call(st, P.cls('geometry.SR_line', 'LineSegment'), [q[i], q[(i + 1) % 3]], {}) for i in range(3)])], {})
                    hulls[p.id] = ks
                    return p

                def inside(ip, st, fn, a, k):
                    p = a[1] if len(a) > 1 else k['p']
                    if a[0].id not in hulls:
                        raise Undecided('point in something other than a hull')
                    return bsym('in|%s|%s' % (sorted(hulls[a[0].id]), '|'.join(str(ip.asnum(ip.getattr(st, p, c, None)).key()) for c in 'xy')))
                return {(None, 'convex_hull'): hull, ('PolygonLine', 'is_internal_point'): inside}
            v = Vessel(ctx, n, cyc, extra)
            w = v.w
            d = v.dic(w.attr_or_call(v.graph, 'contained_cycles'))
            ctx.calls |= w.ip.calls
            if sorted(d) != sorted(cyc):
                ctx.bad('contained', where, 'cycles %s instead of %s' % (sorted(d), sorted(cyc)), label)
                return
            pts = {k: [[w.ip.asnum(w.get(q, c)) for c in 'xy'] for i in c for s in w.ip.items(w.st, w.get(w.get(v.parts[i], 'graph'), 'segments')) for q in (w.get(s, 'i'), w.get(s, 'j'))]
                   for k, c in cyc.items()}
            for e in cyc:
                got = {}
                for p in w.ip.pieces(w.st, d[e]):
                    g, x = (p.guard, p.val) if isinstance(p, GItem) else (TRUE, p)
                    got[key(x)] = alg.b_or(got.get(key(x), FALSE), g)
                hk = sorted(frozenset(tuple(c.key() for c in q) for q in pts[e]))
                for z in cyc:
                    con = '%s: %d in %d' % (label, z, e)
                    want = FALSE if z == e else alg.b_and(*[bsym('in|%s|%s' % (hk, '|'.join(str(c.key()) for c in q))) for q in pts[z]])
                    try:
                        compare(ctx, got.get(z, FALSE), want)
                    except Differ as x:
                        ctx.bad('contained', where, 'cycle %d in cycle %d: %s' % (z, e, x.detail), con)
                    else:
                        ctx.ok('contained', where, 'when all points of %d lie within the hull of %d' % (z, e) if z != e else 'not in itself', con)
        ctx.guard('contained', where, go, label)


ROOMS = {
    'one room': (3, {0: [0, 1, 2]}, {0: []}),
    'two rooms apart': (4, {0: [0, 1], 1: [2, 3]}, {0: [], 1: []}),
    'two rooms with a common part': (3, {0: [0, 1], 1: [1, 2]}, {0: [], 1: []}),
    'a room within another': (4, {0: [0, 1], 1: [2, 3]}, {0: [1], 1: []}),
    'the outer room found last': (4, {0: [0, 1], 1: [2, 3]}, {0: [], 1: [0]}),
    'two rooms within another': (6, {0: [0, 1], 1: [2, 3], 2: [4, 5]}, {0: [1, 2], 1: [], 2: []}),
    'two adjacent rooms within another': (6, {0: [0, 1], 1: [2, 3], 2: [3, 4, 5]}, {0: [1, 2], 1: [], 2: []}),
    'two adjacent and one single room within another': (7, {0: [0, 1], 1: [2, 3], 2: [3, 4], 3: [5, 6]}, {0: [1, 2, 3], 1: [], 2: [], 3: []}),
    'three rooms in a row within another': (8, {0: [0, 1], 1: [2, 3], 2: [3, 4, 5], 3: [5, 6, 7]}, {0: [1, 2, 3], 1: [], 2: [], 3: []}),
    'two pairs of adjacent rooms within another': (8, {0: [0, 1], 1: [2, 3], 2: [3, 4], 3: [5, 6], 4: [6, 7]}, {0: [1, 2, 3, 4], 1: [], 2: [], 3: [], 4: []}),
    'a room within the lower of two adjacent rooms': (5, {0: [0, 1], 1: [1, 2], 2: [3, 4]}, {0: [2], 1: [], 2: []}),
}


def build_rooms(ctx):
    P = ctx.P
    f = P.method(P.cls(HT, 'Behalter'), 'raum_erstellen')
    for label, (n, cyc, cont) in ROOMS.items():
        ov = common(cyc)
        want = []
        for i, c in enumerate(cyc):
            inner = {p for z in cont[c] for p in cyc[z]} - {p for (a, b), x in ov.items() if a in cont[c] and b in cont[c] for p in x}
            want.append(('R%d' % (i + 1), ['P%d' % p for p in cyc[c]], sorted('P%d' % p for p in inner)))

        def go(n=n, cyc=cyc, cont=cont):
            t = {
                'contained_cycles': lambda v, ip, st: ip.mkdict(st, [(num(k), ip.mklist(st, [num(z) for z in x])) for k, x in cont.items()]),
                'cycles': lambda v, ip, st: ip.mkdict(st, [(num(k), None) for k in cyc]),
            }
            v = Vessel(ctx, n, cyc, rooms=True, tables=t)
            w = v.w
            out = []
            for r in w.ip.items(w.st, w.get(v.vessel, 'raume')):
                out.append((w.attr_or_call(r, 'name'), v.names(w.attr_or_call(r, 'aussere_wandung')), sorted(set(v.names(w.attr_or_call(r, 'innere_wandung'))))))
            return out, w.ip.calls, w.raises
        check(ctx, 'rooms', f, label, go, want, 'rooms with outer and inner walls')

        def go2(n=n, cyc=cyc, cont=cont):
            t = {
                'contained_cycles': lambda v, ip, st: ip.mkdict(st, [(num(k), ip.mklist(st, [num(z) for z in x])) for k, x in cont.items()]),
                'cycles': lambda v, ip, st: ip.mkdict(st, [(num(k), None) for k in cyc]),
            }
            v = Vessel(ctx, n, cyc, rooms=True, tables=t)
            w = v.w
            out = []
            for r in w.ip.items(w.st, w.get(v.vessel, 'raume')):
                a, b, c = [v.names(w.attr_or_call(r, x)) for x in ('aussere_wandung', 'innere_wandung', 'ganze_wandung')]
                out.append(sorted(c) == sorted(a + b))
                for q in ('graph_as_polygon', 'as_polygon'):
                    p = w.attr_or_call(r, q)
                    got = w.plain(w.get(p, 'segments')).pieces
                    exp = [s for x in w.ip.items(w.st, w.attr_or_call(r, 'ganze_wandung'))
                           for s in w.plain(w.get(x, 'wall_segments')).pieces]
                    out.append(sorted(map(repr, got)) == sorted(map(repr, exp)))
            return all(out), w.ip.calls, w.raises
        check(ctx, 'outline of rooms', P.method(P.cls(HT, 'Raum'), 'as_polygon'), label, go2, True, 'whole boundary is outer and inner walls, the polygons of the room have their segments')


# ------------------------------------------------------------------ P36
INTEX = {
    'one room': (2, {0: [0, 1]}, {0: []}),
    'two rooms with a common part': (3, {0: [0, 1], 1: [1, 2]}, {0: [], 1: []}),
    'a room within another': (3, {0: [0], 1: [1, 2]}, {0: [1], 1: []}),
}
KINDS = (('internal', 'innenraum'), ('external', 'aussenraum'), ('indifferent', 'indifferent'))


def classify(ctx):
    P = ctx.P
    anchor = P.method(P.cls(HT, 'Behalter'), 'raum_intex')
    where = ctx.where(anchor)
    plans = {
        'all kinds of points': lambda i, k, s: 2 if s == 0 else 1,
        'one kind each': lambda i, k, s: 1 if 'internal external indifferent'.split()[i % 3] == k else 0,
        'internal only': lambda i, k, s: 2 if k == 'internal' else 0,
        'no points': lambda i, k, s: 0,
    }
    for label, (n, cyc, cont) in INTEX.items():
        for plan, count in plans.items():
            def go(n=n, cyc=cyc, cont=cont, count=count, label=label, plan=plan):
                rooms = {}

                def extra(v):
                    def outline(ip, st, fn, a, k):
                        nm = ip.getattr(st, a[0], 'name', None)
                        q = [ip.call(st, P.cls('geometry.SR_point', 'Point'), [Tup([sym('room%s.%s' % (nm, c)), sym('room%s.%sy' % (nm, c))])], {}) for c in 'abc']
                        p = ip.call(st, P.cls(G, 'PolygonLine'), [ip.mklist(st, [ip.call(st, P.cls('geometry.SR_line', 'LineSegment'), [q[i], q[(i + 1) % 3]], {}) for i in range(3)])], {})
                        rooms[p.id] = nm
                        return p

                    def inside(ip, st, fn, a, k):
                        p = a[1] if len(a) > 1 else k['p']
                        if a[0].id not in rooms:
                            raise Undecided('point in something other than the outline of a room')
                        return bsym('in|%s|%s' % (rooms[a[0].id], '|'.join(str(ip.asnum(ip.getattr(st, p, c, None)).key()) for c in 'xy')))
                    return {('Raum', 'graph_as_polygon'): outline, ('PolygonLine', 'is_internal_point'): inside, (None, 'simplify'): NOP, ('PolygonLine', 'triangulate'): NOP,
                            ('PolygonLine', '_delete_triangles'): NOP}
                t = {
                    'contained_cycles': lambda v, ip, st: ip.mkdict(st, [(num(k), ip.mklist(st, [num(z) for z in x])) for k, x in cont.items()]),
                    'cycles': lambda v, ip, st: ip.mkdict(st, [(num(k), None) for k in cyc]),
                }
                v = Vessel(ctx, n, cyc, extra, rooms=True, tables=t, shells=True)
                w = v.w
                pts = {}
                for i, p in enumerate(v.parts):
                    g = w.get(p, 'graph')
                    for j, s in enumerate(w.ip.items(w.st, w.get(g, 'segments'))):
                        for k, _ in KINDS:
                            for m in range(count(i, k, j)):
                                q = 'q%d%d%s%d' % (i, j, k, m)
                                w.call(g, 'add_%s_point' % k, p=w.pt(q), segment=s)
                                pts.setdefault((i, k), {}).setdefault(j, []).append(q)
                d = v.dic(w.call(v.vessel, 'raum_intex'))
                ctx.calls |= w.ip.calls
                if any(not (c.isconst and not c.value) for c, e in w.raises):
                    raise Undecided('may be refused')
                names = ['P%d' % i for i in range(n)]
                if sorted(d) != names:
                    ctx.bad('classification', where, 'parts %s instead of %s' % (sorted(d), names), label)
                    return
                order = list(cyc)
                for i in range(n):
                    e = v.dic(d['P%d' % i])
                    if sorted(e) != sorted(x for _, x in KINDS):
                        ctx.bad('classification', where, 'kinds %s' % sorted(e), label)
                        return
                    for k, out in KINDS:
                        got = {}
                        for p in w.ip.pieces(w.st, e[out]):
                            g, x = (p.guard, p.val) if isinstance(p, GItem) else (TRUE, p)
                            got[x] = alg.b_or(got.get(x, FALSE), g)
                        for r, c in enumerate(order):
                            rn = 'R%d' % (r + 1)
                            mine = i in cyc[c] or any(i in cyc[z] for z in cont[c])
                            allin = [alg.b_and(*[bsym('in|%s|%s' % (rn, '|'.join(str(sym(q + c2).key()) for c2 in ('.x', '.y')))) for q in qs]) for qs in pts.get((i, k), {}).values()]
                            want = alg.b_or(*[alg.b_not(x) if k == 'indifferent' else x for x in allin]) if mine else FALSE
                            con = '%s, %s: P%d %s of %s' % (label, plan, i, rn, k)
                            try:
                                compare(ctx, got.pop(rn, FALSE), want)
                            except Differ as x:
                                ctx.bad('classification', where, 'P%d, %s as %s: %s' % (i, rn, out, x.detail), con)
                            else:
                                ctx.ok('classification', where, 'P%d has %s as %s exactly when %s' % (i, rn, out, 'its points say so' if mine and allin else 'never'), con)
                        if got:
                            ctx.bad('classification', where, 'P%d: unknown rooms %s' % (i, list(got)), label)
            ctx.guard('classification', where, go, '%s, %s' % (label, plan))


PROPS = {
    'P36': (classify, 'value numbering of the classification of parts with the answers of the point-in-room test as a table', 'the point-in-room test itself and the outline of the rooms are not analysed'),
    'P24': (relations, 'value numbering of the cycle relations and of room construction over tables of cycles', 'which cycles are found is not analysed'),
}


# ------------------------------------------------------------------ P37
GROUPS = {
    'square and triangle with a common edge': [('ABCD', True), ('CBE', True)],
    'open chain': [('ABC', False)],
    'two triangles apart': [('ABC', True), ('DEF', True)],
    'chain and branch': [('ABCD', False), ('BE', False), ('CE', False)],
    'three loops at a node': [('ABC', True), ('ADE', True), ('AF', False)],
    'an edge twice': [('ABC', True), ('ABD', True)],
    'rectangles on a grid': [('ABCD', True), ('DCEF', True)],
    'rectangles on a grid and a diagonal': [('BCDA', True), ('DCEF', True), ('AC', False)],
}
GRID = dict(zip('ABCDEF', [('x0', 'y0'), ('x1', 'y0'), ('x1', 'y1'), ('x0', 'y1'), ('x1', 'y2'), ('x0', 'y2')]))


def at(spec, n):
    return tuple(sym(c) for c in (GRID[n] if any(spec == GROUPS[g] for g in GROUPS if 'grid' in g) else (n + '.x', n + '.y')))


def group(ctx):
    P = ctx.P
    pg = P.cls(PGM, 'PolygonGroup')
    seg = P.cls('geometry.SR_line', 'LineSegment')

    def world(spec, extra=None, back=False):
        # vertices in the order of their first occurrence, or backwards: the order is not specified
        def point_set(ip, st, fn, a, k):
            out = {}
            for s in ip.items(st, ip.getattr(st, a[0], 'segments', None)):
                for e in 'ij':
                    q = ip.getattr(st, s, e, None)
                    out.setdefault(tuple(ip.asnum(ip.getattr(st, q, c, None)).key() for c in 'xy'), q)
            q = list(out.values())
            return ip.mklist(st, q[::-1] if back else q)
        ic = {('PolygonLine', 'point_set'): point_set}
        ic.update(extra or {})
        w = World(ctx, ic, (), True)
        w.spec_ = spec
        ps = []
        for vs, closed in spec:
            n = len(vs)
            ps.append(w.new(P.cls(G, 'PolygonLine'), w.ip.mklist(w.st, [w.new(seg, point(w, vs[i]), point(w, vs[(i + 1) % n])) for i in range(n if closed else n - 1)])))
        w.polys = ps
        w.g = w.new(pg, w.ip.mklist(w.st, ps))
        return w

    def point(w, n):
        return w.new(w.Point, Tup(list(at(w.spec_, n))))

    def name(w, p):
        k = tuple(w.ip.asnum(w.get(p, c)).key() for c in 'xy')
        for n in sorted({v for vs, closed in w.spec_ for v in vs}):
            if k == tuple(c.key() for c in at(w.spec_, n)):
                return n
        raise Undecided('not a vertex')

    def dic(w, v):
        if not isinstance(v, DRef):
            raise Undecided('not a dictionary')
        return list(w.st.heap[v.id].items)

    def numbers(w):
        return {name(w, k): key(x) for k, x in dic(w, w.attr_or_call(w.g, 'points_numbered'))}

    for label, spec in GROUPS.items():
        edges = []
        for vs, closed in spec:
            n = len(vs)
            edges += [(vs[i], vs[(i + 1) % n]) for i in range(n if closed else n - 1)]
        nodes = sorted({v for e in edges for v in e})
        adj = {v: sorted(b if a == v else a for a, b in edges if v in (a, b)) for v in nodes}

        for back in (False, True):
            def f(spec=spec, back=back):
                w = world(spec, back=back)
                items = dic(w, w.attr_or_call(w.g, 'points_numbered'))
                d = [(name(w, k), key(x)) for k, x in items]
                return (sorted(a for a, b in d), sorted(b for a, b in d)), w.ip.calls, w.raises
            check(ctx, 'numbering', P.method(pg, 'points_numbered'), label + ', backwards' * back, f, (nodes, list(range(len(nodes)))), 'every vertex once, numbers from 0 without gaps')

            def f2(spec=spec, edges=edges, back=back):
                w = world(spec, back=back)
                nb = numbers(w)
                got = [key(x) for x in w.ip.items(w.st, w.attr_or_call(w.g, 'as_edgelist'))]
                return got == sorted((nb[a], nb[b]) for a, b in edges), w.ip.calls, w.raises
            check(ctx, 'edge list', P.method(pg, 'as_edgelist'), label + ', backwards' * back, f2, True, 'the numbered ends of all segments, sorted')

        def f3(spec=spec):
            w = world(spec)
            return {name(w, k): sorted(name(w, x) for x in w.ip.items(w.st, v)) for k, v in dic(w, w.call(w.g, 'as_adjacency_list'))}, w.ip.calls, w.raises
        check(ctx, 'adjacency', P.method(pg, 'as_adjacency_list'), label, f3, adj, 'neighbours of every vertex')

        def f4(spec=spec, adj=adj):
            w = world(spec)
            nb = numbers(w)
            got = {key(k): [key(x) for x in w.ip.items(w.st, v)] for k, v in dic(w, w.call(w.g, 'as_adjacency_list', as_numbered=TRUE))}
            return got == {nb[k]: sorted(nb[x] for x in v) for k, v in adj.items()}, w.ip.calls, w.raises
        check(ctx, 'adjacency', P.method(pg, 'as_adjacency_list'), label + ', numbered', f4, True, 'numbered neighbours of every vertex, in ascending order')

        def f5(spec=spec, adj=adj):
            w = world(spec)
            al = w.call(w.g, 'as_adjacency_list')
            return {name(w, k): key(w.call(w.g, 'node_degree', al, k)) for k, v in dic(w, al)}, w.ip.calls, w.raises
        check(ctx, 'degree', P.method(pg, 'node_degree'), label, f5, {k: len(v) for k, v in adj.items()}, 'degree of every vertex')

        def f6(spec=spec, edges=edges):
            w = world(spec)
            got = [tuple(name(w, w.get(s, e)) for e in 'ij') for s in w.ip.items(w.st, w.attr_or_call(w.g, 'all_segments'))]
            return got, w.ip.calls, w.raises
        check(ctx, 'all segments', P.method(pg, 'all_segments'), label, f6, edges, 'the segments of all polygons in order')

        def f7(spec=spec, edges=edges):
            w = world(spec)
            r = w.get(w.attr_or_call(w.g, 'representative_graph'), 'segments')
            return [tuple(name(w, w.get(s, e)) for e in 'ij') for s in w.ip.items(w.st, r)], w.ip.calls, w.raises
        check(ctx, 'all segments', P.method(pg, 'representative_graph'), label + ' as one line', f7, edges, 'the segments of all polygons in order')
        for sub in (nodes[:2], nodes[:3], nodes[1:4], nodes, [], nodes[:1], nodes[1:2] + nodes[3:4], nodes[:1] + nodes[3:4]):
            def f8(spec=spec, sub=sub):
                w = world(spec)
                r = w.call(w.g, 'segments_from_points', w.ip.mklist(w.st, [point(w, x) for x in sub]))
                ids = [p.id for p in w.polys]
                return [ids.index(x.id) for x in w.ip.items(w.st, r)], w.ip.calls, w.raises
            inside = [(a, b) for a, b in edges if a in sub and b in sub]
            want = []
            for i, (vs, closed) in enumerate(spec):
                n = len(vs)
                es = [(vs[k], vs[(k + 1) % n]) for k in range(n if closed else n - 1)]
                if any(a in sub and b in sub for a, b in es) or any(e in es for e in inside):
                    want.append(i)
            check(ctx, 'polygons by points', P.method(pg, 'segments_from_points'), '%s %s' % (label, ''.join(sub)), f8, want, 'polygons with a segment between the points')
    # degrees of a valid group
    for degs, ok in (([2, 2, 2], True), ([2, 2, 2, 2, 3, 3], True), ([2, 2], False), ([2, 2, 2, 1], False), ([2, 2, 2, 0], False), ([2, 2, 2, 3], False), ([2, 2, 2, 4], False),
                     ([2, 2, 2, 2, 5], False), ([2, 2, 2, 3, 3, 3, 3], True), ([3, 3, 3, 3], False), ([2, 2, 2, 9], False), ([2, 2, 2, 10], False), ([2, 2, 2, 3, 17], False), ([2, 2, 2, 3, 3, 1], False), ([], False)):
        def go(degs=degs, ok=ok):
            def al(ip, st, fn, a, k):
                return ip.mkdict(st, [(num(i), ip.mklist(st, [num(100 + j) for j in range(d)])) for i, d in enumerate(degs)])
            names = {}
            ic = {('PolygonGroup', 'as_adjacency_list'): al, ('PolygonLine', 'isvalid'): lambda ip, st, fn, a, k: bsym('valid%s' % names[a[0].id])}
            w = world(GROUPS['square and triangle with a common edge'], ic)
            names.update({p.id: i for i, p in enumerate(w.polys)})
            got = w.ip.truth(w.st, w.attr_or_call(w.g, 'isvalid'))
            ctx.calls |= w.ip.calls
            want = alg.b_and(bsym('valid0'), bsym('valid1')) if ok else FALSE
            where = ctx.where(P.method(pg, 'isvalid'))
            try:
                compare(ctx, got, want)
            except Differ as e:
                ctx.bad('valid group', where, 'degrees %s: %s' % (degs, e.detail), 'degrees %s' % degs)
            else:
                ctx.ok('valid group', where, 'degrees %s: %s' % (degs, 'when the polygons are' if ok else 'not valid'), 'degrees %s' % degs)
        ctx.guard('valid group', ctx.where(P.method(pg, 'isvalid')), go, 'degrees %s' % degs)


PROPS['P37'] = (group, 'value numbering of numbering, edge list, adjacency, degrees and validity of a group', 'groups of up to three polygons stand for all groups')

# -*- coding: utf-8 -*-
"""Splitting of parts by a height or by a room end."""
from ..core import *
from .triang import bsym

HT = 'SR_Vessel.SR_hauptteile'
G = 'geometry.SR_polygon'
POS = ('d', 'd0', 'd1', 'h', 'h1', 'r')
V, U, H, H1, D, D0, D1 = [sym(x) for x in ('v', 'u', 'h', 'h1', 'd', 'd0', 'd1')]
MAKE = {
    'Mantel': dict(d=Tup([D0, D1]), h=H), 'StandZarge': dict(d=Tup([D0, D1]), h=H), 'Flachboden': dict(d=D), 'RaumEnde': dict(d=D),
    'Klopperboden': dict(d=D, h1=H1, orient=num(1)), 'Korbbogenboden': dict(d=D, h1=H1, orient=num(-1)),
}


class Shell(object):
    """one part with a table that says which of its walls a cutting line crosses, and where"""

    def __init__(self, ctx, cls, **other):
        self.ctx = ctx
        self.table = {}         # wall -> (crosses, in an end point, name of the point)
        self.cutters = []
        ic = {('Graph', 'add_intex_points'): lambda ip, st, fn, a, k: None}
        ic[('LineSegment', 'intersection_on_segment')] = lambda ip, st, fn, a, k: self.answer(ip, st, a, k, 0)
        ic[('LineSegment', 'intersection_on_endpoint')] = lambda ip, st, fn, a, k: self.answer(ip, st, a, k, 1)
        ic[('LineSegment', 'intersection_point')] = lambda ip, st, fn, a, k: self.point(ip, st, a, k)
        self.w = w = World(ctx, ic, POS, True)
        self.part = w.new(w.P.cls(HT, cls), name='T', pos_v=V, **dict(dict(pos_h=U), **dict(MAKE[cls], **other)))
        self.cls = cls

    def ends(self, ip, st, s):
        return tuple(tuple(ip.asnum(ip.getattr(st, ip.getattr(st, s, e, None), c, None)).key() for c in 'xy') for e in 'ij')

    def find(self, ip, st, a, k):
        o = a[1] if len(a) > 1 else list(k.values())[0]
        hits = []
        for s, t in ((a[0], o), (o, a[0])):
            e = self.ends(ip, st, s)
            e = e if e in self.table else e[::-1]
            if e in self.table and not (self.ends(ip, st, t) in self.table or self.ends(ip, st, t)[::-1] in self.table):
                hits.append((e, t))
        if len(hits) > 1:
            raise Undecided('which wall is cut')
        return hits[0] if hits else (None, None)

    def answer(self, ip, st, a, k, i):
        e, t = self.find(ip, st, a, k)
        if e is None:
            return alg.b_const(False) if i == 0 else TRUE
        c = self.w.ip.asnum(ip.getattr(st, ip.getattr(st, t, 'i', None), 'x', None)), self.w.ip.asnum(ip.getattr(st, ip.getattr(st, t, 'i', None), 'y', None)), \
            self.w.ip.asnum(ip.getattr(st, ip.getattr(st, t, 'j', None), 'x', None)), self.w.ip.asnum(ip.getattr(st, ip.getattr(st, t, 'j', None), 'y', None))
        self.cutters.append(c)
        return alg.b_const(self.table[e][i])

    def point(self, ip, st, a, k):
        e, t = self.find(ip, st, a, k)
        if e is None or not self.table[e][0]:
            raise Undecided('where lines meet that do not')
        n = self.table[e][2]
        return ip.call(st, self.w.P.cls('geometry.SR_point', 'Point'), [Tup([sym(n + '.x'), sym(n + '.y')])], {})

    def walls(self):
        w = self.w
        g = w.get(self.part, 'graph')
        return [self.ends(w.ip, w.st, s) for s in w.ip.items(w.st, w.get(g, 'segments'))]

    def edges(self, what='segments', of=None):
        w = self.w
        return w.plain(w.get(of or self.part, what), True).pieces

    def split(self, **kw):
        w = self.w
        r = w.call(self.part, 'split', **kw)
        self.ctx.calls |= w.ip.calls
        if any(not (c.isconst and not c.value) for c, e in w.raises):
            raise Undecided('may be refused')
        t = w.ip.truth(w.st, r)
        if not t.isconst:
            raise Undecided('result %r' % (r,))
        return t.value


def skey(e):
    """an edge, whatever its direction"""
    k, a, b = e.pieces
    return (k,) + tuple(sorted([tuple(x.key() for x in a.pieces[1:]), tuple(x.key() for x in b.pieces[1:])]))


def multi(es):
    return sorted(map(repr, map(skey, es)))


def pair(n):
    return (sym(n + '.x').key(), sym(n + '.y').key())


def splits(ctx):
    P = ctx.P
    f = P.method(P.cls(HT, 'Hauptteil'), 'split')
    where = ctx.where(f)

    def case(construct, go):
        def run():
            try:
                msg = go()
            except PyRaise as e:
                if e.explicit:
                    ctx.bad('split', where, 'refused: %s' % e.msg, construct)
                    return
                raise
            if msg:
                ctx.bad('split', where, msg, construct)
            else:
                ctx.ok('split', where, construct, construct)
        ctx.guard('split', where, run, construct)

    def expected(edges, cuts):
        out = []
        for e in edges:
            k = skey(e)
            for (a, b), n in cuts.items():
                if set(k[1:]) == {a, b}:
                    out += [(k[0],) + tuple(sorted([a, pair(n)])), (k[0],) + tuple(sorted([b, pair(n)]))]
                    break
            else:
                out.append(k)
        return sorted(map(repr, out))

    def cut(s, cuts, touch=(), keep=None, kw=None):
        """cuts: {wall: name}; every other wall is missed, those in touch are met in an end point"""
        s.table = {x: (x in cuts or x in touch, x in touch, cuts.get(x)) for x in s.walls()}
        before = s.edges()
        segs = s.w.get(s.part, 'segments')
        r = s.split(**(kw or {'v': sym('cut')}))
        want = expected(before, cuts)
        got = multi(s.edges())
        if r != bool(cuts):
            return 'reports %s although %d walls are cut' % (r, len(cuts))
        if got != want:
            return 'edges afterwards: %s instead of %s' % (got, want)
        g = multi(s.edges('segments', s.w.get(s.part, 'graph')))
        wl = multi([e for e in s.edges() if e.pieces[0] == 'Wall'])
        if g != wl:
            return 'the graph has %s, the walls are %s' % (g, wl)
        return None
    for cls in ('Mantel', 'StandZarge'):
        n = 2 if cls == 'Mantel' else 3
        for mask in range(2 ** n):
            def go(cls=cls, mask=mask):
                s = Shell(ctx, cls)
                ws = s.walls()
                if len(ws) != n:
                    raise Undecided('%d walls' % len(ws))
                return cut(s, {ws[i]: 'X%d' % i for i in range(n) if mask >> i & 1})
            case('%s, walls cut: %s' % (cls, [i for i in range(n) if mask >> i & 1]), go)
        for t in range(n):
            def go(cls=cls, t=t):
                s = Shell(ctx, cls)
                ws = s.walls()
                return cut(s, {x: 'X%d' % i for i, x in enumerate(ws) if i != t}, touch=[ws[t]])
            case('%s, wall %d met in an end point' % (cls, t), go)

            def go(cls=cls, t=t):
                s = Shell(ctx, cls)
                ws = s.walls()
                return cut(s, {}, touch=[ws[t]])
            case('%s, only an end of wall %d met' % (cls, t), go)

    # a second and a third cut
    for again in range(4):
        def go(again=again):
            s = Shell(ctx, 'Mantel')
            ws = s.walls()
            m = cut(s, {ws[0]: 'X0', ws[1]: 'X1'})
            if m:
                return 'first cut: ' + m
            ws = s.walls()
            if len(ws) != 4:
                return 'first cut leaves %d walls' % len(ws)
            m = cut(s, {ws[again]: 'Y0', ws[(again + 2) % 4]: 'Y1'} if again < 2 else {ws[again]: 'Y0'}, touch=[] if again < 3 else [ws[0]])
            if m:
                return 'second cut: ' + m
            ws = s.walls()
            m = cut(s, {ws[-1]: 'Z0'})
            return 'third cut: ' + m if m else None
        case('Mantel, cut again %d' % again, go)

    def go():
        s = Shell(ctx, 'Flachboden')
        return cut(s, {}) or cut(s, {s.walls()[0]: 'X0'})
    case('Flachboden, missed and cut', go)
    # dished ends are never cut
    for cls in ('Klopperboden', 'Korbbogenboden'):
        def go(cls=cls):
            s = Shell(ctx, cls)
            ws = s.walls()
            s.table = {x: (True, False, 'X%d' % i) for i, x in enumerate(ws)}
            before = [repr(e) for e in s.edges()]
            if s.split(v=sym('cut')):
                return 'a dished end is cut'
            if [repr(e) for e in s.edges()] != before:
                return 'edges of a dished end change'
        case(cls + ' is never cut', go)

    # the cutting line, also for shells with a wall or the middle on the axis of the coordinate system
    def reach(U):
        s = Shell(ctx, 'Mantel', d=Tup([D, D]), pos_h=U)
        ws = s.walls()
        cut(s, {ws[0]: 'X0', ws[1]: 'X1'})
        if not s.cutters:
            raise Undecided('no cutting line seen')
        for x0, y0, x1, y1 in s.cutters:
            for y in (y0, y1):
                try:
                    compare(ctx, y, sym('cut'))
                except Differ as e:
                    return 'the cutting line is not at the height asked for: %s' % e.detail
            lo, hi = [alg.minmax(m, [x0, x1]) for m in ('min', 'max')]
            for x in (U - D / num(2),):
                try:
                    compare(ctx, alg.lt(lo, x), TRUE)
                except Differ as e:
                    return 'the cutting line does not reach the left wall: %s' % e.detail
            for x in (U + D / num(2),):
                try:
                    compare(ctx, alg.lt(x, hi), TRUE)
                except Differ as e:
                    return 'the cutting line does not reach the right wall: %s' % e.detail
    for at, u in (('', U), (' right wall at 0', -D / num(2)), (' left wall at 0', D / num(2)), (' middle at 0', num(0)), (' left of 0', -D), (' right of 0', D * num(3))):
        case('cutting line' + at, lambda u=u: reach(u))

    # nothing to cut with
    def go():
        s = Shell(ctx, 'Mantel')
        s.table = {x: (False, False, None) for x in s.walls()}
        try:
            s.w.call(s.part, 'split')
        except PyRaise:
            return None
        if any(c.isconst and c.value for c, e in s.w.raises):
            return None
        return 'a split without height and room end is accepted'
    case('no height', go)

    # a room end
    for keep in (True, False):
        def go(keep=keep):
            s = Shell(ctx, 'Mantel')
            w = s.w
            r = w.new(P.cls(HT, 'RaumEnde'), name='E', pos_v=sym('ev'), pos_h=sym('eu'), d=sym('r'))
            g = w.ip.items(w.st, w.get(w.get(r, 'graph'), 'segments'))[0]
            i, j = [tuple(w.ip.asnum(w.get(w.get(g, e), c)).key() for c in 'xy') for e in 'ij']
            before = multi(s.edges('segments', r))
            ws = s.walls()
            m = cut(s, {ws[0]: 'X0', ws[1]: 'X1'}, kw={'ht': r, 'keep': alg.b_const(keep)})
            if m:
                return m
            got = multi(s.edges('segments', r))
            if keep:
                return None if got == before else 'a room end to be kept changes: %s' % got
            want = sorted(map(repr, [('Wall',) + tuple(sorted([i, pair('X1')])), ('NonWall',) + tuple(sorted([pair('X1'), pair('X0')])), ('Wall',) + tuple(sorted([pair('X0'), j]))]))
            if got != want:
                return 'the room end has %s instead of %s' % (got, want)
            gg = multi(s.edges('segments', w.get(r, 'graph')))
            if gg != multi([e for e in s.edges('segments', r) if e.pieces[0] == 'Wall']):
                return 'the graph of the room end has %s' % gg
        case('room end %s' % ('kept' if keep else 'cut out'), go)

    def go():
        s = Shell(ctx, 'Mantel')
        w = s.w
        r = w.new(P.cls(HT, 'RaumEnde'), name='E', pos_v=sym('ev'), pos_h=sym('eu'), d=sym('r'))
        before = multi(s.edges('segments', r))
        m = cut(s, {}, kw={'ht': r, 'keep': FALSE})
        if m:
            return m
        return None if multi(s.edges('segments', r)) == before else 'a room end that cuts nothing changes'
    case('room end that misses', go)

    # every part is cut by every room end of the vessel
    fc = P.method(P.cls(HT, 'Behalter'), 'cut_by_raumende')

    def vessel(answer):
        log = []
        ic = {('Graph', 'add_intex_points'): lambda ip, st, fn, a, k: None, ('Behalter', 'raum_erstellen'): lambda ip, st, fn, a, k: None}
        ids = {}

        def split(ip, st, fn, a, k):
            b = dict(zip(('self', 'v', 'ht', 'keep'), a))
            b.update(k)
            log.append((ids.get(b['self'].id), ids.get(getattr(b.get('ht'), 'id', None)), b.get('v'), b.get('keep', TRUE)))
            return answer
        ic[('Hauptteil', 'split')] = split
        w = World(ctx, ic, POS, True)
        ps = []
        for i, c in enumerate(('Mantel', 'RaumEnde', 'Flachboden', 'RaumEnde', 'Klopperboden')):
            p = w.new(P.cls(HT, c), name='P%d' % i, pos_v=sym('v%d' % i), pos_h=U, **MAKE[c])
            ids[p.id] = i
            ps.append(p)
        w.new(P.cls(HT, 'Behalter'), w.ip.mklist(w.st, ps))
        ctx.calls |= w.ip.calls
        for a in (0, 2, 4):
            for b in (1, 3):
                m = [x for x in log if x[0] == a and x[1] == b]
                if len(m) != 1:
                    return 'part %d is cut %d times by room end %d' % (a, len(m), b)
                kp = m[0][3]
                if not (kp is False or isinstance(kp, Bool) and kp.isconst and not kp.value):
                    return 'room end %d is kept' % b
        if [x for x in log if x[1] not in (1, 3)]:
            return 'cut by something else'
    for answer in (FALSE, TRUE):
        case('vessel with room ends, %s cut' % ('not' if answer is FALSE else 'all'), lambda answer=answer: vessel(answer))


PROPS = {
    'P17': (splits, 'value numbering of split with the crossings of walls as a table; edges, graph and room end afterwards compared with the specified replacement',
            'crossings are decided by P08, their places by P07'),
}

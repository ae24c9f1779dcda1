# -*- coding: utf-8 -*-
"""Polygon lines: transformations, measures, constructors, orientation, chain operations."""
from ..core import *

G = 'geometry.SR_polygon'

SPEC = '''
from math import sqrt, cos, sin, pi
TOL = 1e-5
EPS = 1e-8

def same(px, py, qx, qy):
    return abs(px - qx) < TOL and abs(py - qy) < TOL

def move(x, y, a, b):
    return x + a, y + b

def mirror(x, y, x0):
    return 2 * x0 - x, y

def rot(x, y, phi):
    c, s = cos(phi * pi / 180), sin(phi * pi / 180)
    return c * x - s * y, s * x + c * y

def rotxy(x, y, x0, y0, phi):
    c, s = cos(phi * pi / 180), sin(phi * pi / 180)
    u, v = x - x0, y - y0
    return x0 + c * u - s * v, y0 + s * u + c * v

def cross3(ax, ay, bx, by, cx, cy):
    return (bx - ax) * (cy - by) - (by - ay) * (cx - bx)

def side(ax, ay, bx, by, px, py):
    return (bx - ax) * (py - ay) - (by - ay) * (px - ax)

def onseg(ax, ay, bx, by, px, py):
    """within EPS of the segment's box and of its line, or at an end point"""
    box = (min(ax, bx) - EPS < px and px <= max(ax, bx) + EPS and
           min(ay, by) - EPS <= py and py <= max(ay, by) + EPS)
    return box and (same(px, py, ax, ay) or same(px, py, bx, by) or abs(side(ax, ay, bx, by, px, py)) < EPS)

def cross(ax, ay, bx, by, cx, cy, dx, dy):
    return (bx - ax) * (dy - cy) - (by - ay) * (dx - cx)

def moments(pts):
    # what a collection of locations is, whatever its order
    return (len(pts), sum([p.x for p in pts]), sum([p.y for p in pts]), sum([p.x * p.x for p in pts]),
            sum([p.x * p.y for p in pts]), sum([p.y * p.y for p in pts]))

def heron(ax, ay, bx, by, cx, cy):
    return abs((bx - ax) * (cy - ay) - (by - ay) * (cx - ax)) / 2
'''


def PL(ctx):
    return ctx.P.cls(G, 'PolygonLine')


def coords(*names):
    out = []
    for n in names:
        out += [sym(n + '.x'), sym(n + '.y')]
    return out


def chain(w, vertices, closed=False, shared=True, cls=None):
    """a polygon line through the named vertices; repeated names are repeated locations (one object when shared)"""
    objs = {}

    def p(n):
        if shared:
            if n not in objs:
                objs[n] = w.pt(n)
            return objs[n]
        return w.pt(n)
    names = list(vertices) + ([vertices[0]] if closed else [])
    segs = [w.new(w.Segment, p(a), p(b)) for a, b in zip(names, names[1:])]
    return w.new(cls or PL(w.ctx), w.ip.mklist(w.st, segs))


def segs_of(names, f):
    """expected segments: f(name) -> (x, y)"""
    out = []
    for a, b in zip(names, names[1:]):
        out.append(Tup(['seg', Tup(['pt'] + list(f(a))), Tup(['pt'] + list(f(b)))]))
    return Tup(out)


TRANSFORMS = {
    'move': (['dx', 'dy'], 'move'),
    'mirror_vertical': (['x0'], 'mirror'),
    'rotate_about_origin': (['phi'], 'rot'),
    'rotate_about_xy': (['x0', 'y0', 'phi'], 'rotxy'),
}
CHAINS = [('open', ['A', 'B', 'C'], False), ('triangle', ['A', 'B', 'C'], True), ('quadrilateral', ['A', 'B', 'C', 'D'], True),
          ('vertex visited twice', ['A', 'B', 'C', 'A', 'D', 'E'], True), ('double edge', ['A', 'B', 'A'], False)]


def transforms(ctx):
    """every transformation maps each location of the line once, whatever the sharing of end points was before"""
    S = ctx.spec(SPEC)
    P = ctx.P
    c = PL(ctx)
    for name, (params, sp) in TRANSFORMS.items():
        f = P.method(c, name)
        for label, vs, closed in CHAINS if ctx.tier == 'thorough' else CHAINS[:4]:
            if name == 'rotate_about_xy' and len(vs) > 4 and ctx.tier != 'thorough':
                continue
            for shared in (True, False):
                def build(w, vs=vs, closed=closed, shared=shared):
                    p = chain(w, vs, closed, shared)
                    w.call(p, name, *[sym(x) for x in params])
                    return w.get(p, 'segments')

                def want(w, vs=vs, closed=closed):
                    names = vs + ([vs[0]] if closed else [])

                    def m(n):
                        return w.ip.items(w.st, w.spec(S, sp, *(coords(n) + [sym(x) for x in params])))
                    return segs_of(names, m)
                value_rule(ctx, 'rigid map', f, build, want, generic=True,
                           construct='PolygonLine.%s %s %s' % (name, label, 'shared' if shared else 'not shared'))
        # a polygon line of any length: after the merge, the map is applied once to each distinct vertex

        def go(name=name, params=params, sp=sp, f=f):
            merged = []
            w = World(ctx, {('PolygonLine', 'purge'): lambda ip, st, fn, a, k: (merged.append(st), setattr(st, 'events', st.events + (('purge',),)), None)[2]})
            p = w.poly('A')
            w.call(p, name, *[sym(x) for x in params])
            ctx.calls |= w.ip.calls
            ev = [e for e in w.st.events if e[0] in ('purge', 'foreach')]
            loops = [e for e in ev if e[0] == 'foreach']
            if not loops:
                raise Undecided('no loop over the vertices was recognised')
            for e in loops:
                if not e[3]:
                    ctx.bad('merge first', ctx.where(f), 'the coordinates are changed once per segment end, not once per distinct vertex',
                            'PolygonLine.%s distinct' % name)
                    return
                if ('purge',) not in ev[:ev.index(e)]:
                    ctx.bad('merge first', ctx.where(f), 'vertices are changed before coincident ones have been merged', 'PolygonLine.%s merge' % name)
                    return
            ctx.ok('merge first', ctx.where(f), 'coincident vertices are merged, then each distinct vertex is mapped once', 'PolygonLine.%s any length' % name)
        ctx.guard('merge first', ctx.where(f), go, 'PolygonLine.%s any length' % name)
    # segments
    sc = P.cls('geometry.SR_line', 'LineSegment')
    for name in ('move', 'mirror_vertical'):
        params, sp = TRANSFORMS[name]

        def build(w, name=name, params=params):
            s = w.seg('a')
            w.call(s, name, *[sym(x) for x in params])
            return s

        def want(w, sp=sp, params=params):
            m = lambda n: w.ip.items(w.st, w.spec(S, sp, *(coords(n) + [sym(x) for x in params])))
            return segs_of(['a.i', 'a.j'], m).pieces[0]
        value_rule(ctx, 'rigid map', P.method(sc, name), build, want, construct='LineSegment.' + name)
    # transformations do not change which end points are shared: the objects stay
    for name, (params, sp) in TRANSFORMS.items():
        f = P.method(c, name)

        def go(name=name, params=params, f=f):
            w = World(ctx, generic=True)
            p = chain(w, ['A', 'B', 'C'], True, True)
            before = [(w.get(s, 'i'), w.get(s, 'j')) for s in w.ip.items(w.st, w.get(p, 'segments'))]
            w.call(p, name, *[sym(x) for x in params])
            after = [(w.get(s, 'i'), w.get(s, 'j')) for s in w.ip.items(w.st, w.get(p, 'segments'))]
            for (a, b), (x, y) in zip(before, after):
                if not all(isinstance(t, Ref) for t in (a, b, x, y)):
                    raise Undecided('end points are not single objects')
                if a != x or b != y:
                    ctx.bad('objects kept', ctx.where(f), 'the end points are replaced by other objects', 'PolygonLine.%s objects' % name)
                    return
            ctx.ok('objects kept', ctx.where(f), 'end point objects are kept', 'PolygonLine.%s objects' % name)
        ctx.guard('objects kept', ctx.where(f), go, 'PolygonLine.%s objects' % name)
    merge(ctx)


def merge(ctx):
    """merging makes coincident end points one object, moves nothing, and says so only when it is so"""
    P = ctx.P
    c = PL(ctx)
    f = P.method(c, 'purge')
    more = [('triangle again', ['A', 'B', 'C'], True), ('star', ['A', 'B', 'A', 'C', 'A', 'D'], False)]
    for label, vs, closed in CHAINS + more:
        def go(label=label, vs=vs, closed=closed):
            w = World(ctx, generic=True)
            p = chain(w, vs, closed, False)
            names = vs + ([vs[0]] if closed else [])
            w.call(p, 'purge')
            ctx.calls |= w.ip.calls
            segs = w.ip.items(w.st, w.get(p, 'segments'))
            seen = {}
            got = w.plain(w.get(p, 'segments'))
            compare(ctx, got, segs_of(names, lambda n: coords(n)), TRUE)
            if len(segs) != len(names) - 1:
                raise Differ('', 'number of segments')
            for s, a, b in zip(segs, names, names[1:]):
                for end, n in (('i', a), ('j', b)):
                    o = w.get(s, end)
                    if not isinstance(o, Ref):
                        raise Undecided('end point is not one object')
                    if seen.setdefault(n, o) != o:
                        ctx.bad('merge', ctx.where(f), '%s: two end points at one location are still two objects' % label, 'PolygonLine.purge ' + label)
                        return
            ctx.ok('merge', ctx.where(f), '%s: one object per location, nothing moved' % label, 'PolygonLine.purge ' + label)

        def wrap(go=go, label=label):
            try:
                go()
            except Differ as e:
                ctx.bad('merge', ctx.where(f), '%s: %s %s' % (label, e.path, e.detail), 'PolygonLine.purge ' + label)
        ctx.guard('merge', ctx.where(f), wrap, 'PolygonLine.purge ' + label)


# ------------------------------------------------------------------ measures of lines
def measures(ctx):
    S = ctx.spec(SPEC)
    P = ctx.P
    c = PL(ctx)
    for label, vs, closed in CHAINS:
        for shared in (True, False):
            distinct = sorted(set(vs))
            for name in ('bounding_box',):
                def want(w, distinct=distinct):
                    xs, ys = [sym(n + '.x') for n in distinct], [sym(n + '.y') for n in distinct]
                    return Tup([Tup([alg.minmax('min', xs), alg.minmax('max', xs)]), Tup([alg.minmax('min', ys), alg.minmax('max', ys)])])
                value_rule(ctx, 'bounding box', P.method(c, name), lambda w, vs=vs, closed=closed, shared=shared: w.call(chain(w, vs, closed, shared), 'bounding_box'),
                           want, construct='PolygonLine.bounding_box %s %s' % (label, shared), generic=True)

            def wantm(w, distinct=distinct):
                k = num(len(distinct))
                t = ['pt']
                for q in 'xy':
                    a = num(0)
                    for n in distinct:
                        a = a + sym(n + '.' + q)
                    t.append(a / k)
                return Tup(t)
            value_rule(ctx, 'centroid of vertices', P.method(c, 'midpoint'), lambda w, vs=vs, closed=closed, shared=shared: w.attr_or_call(chain(w, vs, closed, shared), 'midpoint'),
                       wantm, construct='PolygonLine.midpoint %s %s' % (label, shared), generic=True)
    # lines of any length

    def wantbb(w):
        p = w.get_segments
        return w.spec(S2, 'bbox', p)

    def run(w, name):
        p = w.poly('A')
        w.get_segments = w.get(p, 'segments')
        return w.attr_or_call(p, name) if name != 'bounding_box' else w.call(p, name)
    S2 = ctx.spec('''
def bbox(segs):
    xs = [p.x for s in segs for p in (s.i, s.j)]
    ys = [p.y for s in segs for p in (s.i, s.j)]
    return (min(xs), max(xs)), (min(ys), max(ys))

def centre(segs):
    pts = set([p for s in segs for p in (s.i, s.j)])
    n = len(pts)
    return 'pt', sum([p.x for p in pts]) / n, sum([p.y for p in pts]) / n
''')
    value_rule(ctx, 'bounding box', P.method(c, 'bounding_box'), lambda w: run(w, 'bounding_box'), wantbb, construct='PolygonLine.bounding_box any length')
    value_rule(ctx, 'centroid of vertices', P.method(c, 'midpoint'), lambda w: run(w, 'midpoint'),
               lambda w: w.spec(S2, 'centre', w.get_segments), construct='PolygonLine.midpoint any length')


# ------------------------------------------------------------------ constructors
def constructors(ctx):
    S = ctx.spec(SPEC)
    P = ctx.P
    nf = P.func(G, 'polygon_from_nodes')
    for k in (2, 3, 4, 6):
        for cw in (False, True):
            names = ['N%d' % i for i in range(k)]
            order = [names[0]] + names[:0:-1] if cw else names

            def build(w, names=names, cw=cw):
                nodes = w.ip.mklist(w.st, [w.xy(n) for n in names])
                return w.get(w.fn(G, 'polygon_from_nodes', nodes, alg.b_const(cw)), 'segments')
            value_rule(ctx, 'from nodes', nf, build, lambda w, order=order: segs_of(order, lambda n: coords(n)), generic=True,
                       construct='polygon_from_nodes(%d, cw=%s)' % (k, cw))
    sq = P.func(G, 'square')
    a, x0, y0 = sym('a'), sym('x0'), sym('y0')
    h = a / num(2)
    corners = {'S': (x0, y0), 'E': (x0 + h, y0), 'NE': (x0 + h, y0 + a), 'NW': (x0 - h, y0 + a), 'W': (x0 - h, y0)}
    for cw, order in ((False, ['S', 'E', 'NE', 'NW', 'W', 'S']), (True, ['S', 'W', 'NW', 'NE', 'E', 'S'])):
        value_rule(ctx, 'square', sq, lambda w, cw=cw: w.get(w.fn(G, 'square', a, x0, y0, alg.b_const(cw)), 'segments'),
                   lambda w, order=order: segs_of(order, lambda n: corners[n]), positive=('a',), generic=True, construct='square(cw=%s)' % cw)
    af = P.func(G, 'arc')
    ns = (2, 3, 4) if ctx.tier == 'quick' else tuple(range(2, 9))
    for n in ns:
        for cw, centre in [(False, 'point'), (True, 'point')] + ([(False, 'tuple'), (False, 'list')] if n == 2 else []):
            r, al, be = sym('r'), sym('al'), sym('be')

            def build(w, n=n, cw=cw, centre=centre):
                p = w.pt('P') if centre == 'point' else w.xy('P') if centre == 'tuple' else w.ip.mklist(w.st, [sym('P.x'), sym('P.y')])
                return w.get(w.fn(G, 'arc', p, r, al, be, num(n), alg.b_const(cw)), 'segments')

            def want(w, n=n, cw=cw):
                def at(k):
                    u, v = al * alg.pi_() / num(180), (be - al) * num(k) / num(n) * alg.pi_() / num(180)
                    cu, su, cv, sv = alg.cos_(u), alg.sin_(u), alg.cos_(v), alg.sin_(v)
                    return sym('P.x') + r * (cu * cv - su * sv), sym('P.y') + r * (su * cv + cu * sv)
                idx = list(range(n + 1))
                return segs_of(idx[::-1] if cw else idx, at)
            value_rule(ctx, 'arc', af, build, want, positive=('r', 'al', 'be'), generic=True,
                       assume=lambda w: alg.b_and(alg.lt(al, be), alg.le(be, num(360))), construct='arc(n=%d, cw=%s, centre as %s)' % (n, cw, centre),
                       raises=lambda w: alg.b_not(alg.b_and(alg.le(num(0), al), alg.lt(al, num(360)), alg.le(be, num(360)), alg.lt(al, be))))


# ------------------------------------------------------------------ orientation, convexity
def orientation(ctx):
    S = ctx.spec(SPEC)
    P = ctx.P
    c = PL(ctx)
    valid = {('PolygonLine', 'isvalid'): lambda ip, st, fn, a, k: TRUE}
    for k in (3, 4, 5, 6, 7, 8) + (tuple(range(9, 13)) if ctx.tier == 'thorough' else ()):
        names = ['N%d' % i for i in range(k)]

        def cps(w, names=names, k=k):
            out = []
            for i in range(k):
                p, q, r = names[i], names[(i + 1) % k], names[(i + 2) % k]
                out.append(w.spec(S, 'cross3', *coords(p, q, r)))
            return out
        value_rule(ctx, 'turns', P.method(c, 'cps'), lambda w, names=names: w.ip.call(w.st, w.ip.entity(_list(), w.st, None), [w.get(chain(w, names, True), 'cps')], {})
                   if False else w.attr_or_call(chain(w, names, True), 'cps'),
                   lambda w, cps=cps: Tup(cps(w)), construct='PolygonLine.cps %d' % k)

        def convex(w, cps=cps):
            v = cps(w)
            return alg.b_or(alg.b_and(*[alg.le(num(0), x) for x in v]), alg.b_and(*[alg.le(x, num(0)) for x in v]))
        value_rule(ctx, 'convex', P.method(c, 'isconvex'), lambda w, names=names: w.attr_or_call(chain(w, names, True), 'isconvex'), convex,
                   intercepts=valid, construct='PolygonLine.isconvex %d' % k)
        if k > 4 and ctx.tier == 'quick':
            continue
        for nm in ('iscw', 'isccw'):
            def want(w, cps=cps, nm=nm):
                s = num(0)
                for x in cps(w):
                    s = s + x
                return alg.lt(num(0), s) if nm == 'isccw' else alg.b_not(alg.lt(num(0), s))
            value_rule(ctx, 'orientation', P.method(c, nm), lambda w, names=names, nm=nm: w.attr_or_call(chain(w, names, True), nm), want,
                       intercepts=valid, assume=convex, construct='PolygonLine.%s convex %d' % (nm, k))


def _list():
    return list


# ------------------------------------------------------------------ chains
def chains(ctx):
    S = ctx.spec(SPEC)
    P = ctx.P
    c = PL(ctx)
    A = ['A', 'B', 'C']
    # appending
    for name, order in (('append_point_at_end', A + ['Q']), ('append_point_at_beginning', ['Q'] + A)):
        def build(w, name=name):
            p = chain(w, A)
            w.call(p, name, w.pt('Q'))
            return w.get(p, 'segments')
        value_rule(ctx, 'append', P.method(c, name), build, lambda w, order=order: segs_of(order, lambda n: coords(n)), construct='PolygonLine.' + name)
    # closing
    for label, vs, closed in CHAINS[:3]:
        def build(w, vs=vs, closed=closed):
            p = chain(w, vs, closed)
            w.call(p, 'close')
            return w.get(p, 'segments')
        names = vs + [vs[0]]
        value_rule(ctx, 'close', P.method(c, 'close'), build, lambda w, names=names: segs_of(names, lambda n: coords(n)), generic=True,
                   construct='PolygonLine.close ' + label)
    # ends, openness, continuity
    for label, vs, closed in CHAINS[:4]:
        names = vs + ([vs[0]] if closed else [])
        for nm, n in (('first_point', names[0]), ('last_point', names[-1])):
            value_rule(ctx, 'ends', P.method(c, nm), lambda w, vs=vs, closed=closed, nm=nm: w.attr_or_call(chain(w, vs, closed), nm),
                       lambda w, n=n: Tup(['pt'] + coords(n)), construct='PolygonLine.%s %s' % (nm, label))
        for nm, pos in (('isclosed', True), ('isopen', False)):
            def want(w, names=names, pos=pos):
                e = w.spec(S, 'same', *coords(names[0], names[-1]))
                return e if pos else alg.b_not(e)
            value_rule(ctx, 'closed', P.method(c, nm), lambda w, vs=vs, closed=closed, nm=nm: w.attr_or_call(chain(w, vs, closed), nm), want,
                       construct='PolygonLine.%s %s' % (nm, label))
        value_rule(ctx, 'continuous', P.method(c, 'iscontinuous'), lambda w, vs=vs, closed=closed: w.attr_or_call(chain(w, vs, closed), 'iscontinuous'),
                   lambda w: TRUE, construct='PolygonLine.iscontinuous ' + label)
    # a gap anywhere is noticed
    for gap in (0, 1, 2):
        def build(w, gap=gap):
            pts = [('A', 'B'), ('B', 'C'), ('C', 'D'), ('D', 'E')]
            segs = []
            for i, (x, y) in enumerate(pts):
                segs.append(w.new(w.Segment, w.pt('Z' if i == gap + 1 else x), w.pt(y)))
            return w.attr_or_call(w.new(c, w.ip.mklist(w.st, segs)), 'iscontinuous')

        def want(w, gap=gap):
            return FALSE
        value_rule(ctx, 'continuous', P.method(c, 'iscontinuous'), build, want, generic=True,
                   construct='PolygonLine.iscontinuous gap %d' % gap)
    # searching
    on = lambda w, a, b: w.spec(S, 'onseg', *(coords(a, b) + coords('q')))
    f = P.method(c, 'is_on_boundary')
    for label, vs, closed in (('segment', ['A', 'B'], False),) + tuple(CHAINS[:2]):
        names = vs + ([vs[0]] if closed else [])

        def want(w, names=names):
            return alg.b_or(*([w.spec(S, 'same', *coords('q', n)) for n in sorted(set(names))] +
                              [on(w, a, b) for a, b in zip(names, names[1:])]))
        value_rule(ctx, 'boundary', f, lambda w, vs=vs, closed=closed: w.call(chain(w, vs, closed), 'is_on_boundary', w.pt('q')), want, generic=True,
                   construct='PolygonLine.is_on_boundary ' + label)
    for t in (num(0), num(1), num(1) / num(2), num(1) / num(3), num(9) / num(10)):
        def build(w, t=t):
            q = w.new(w.Point, Tup([sym('A.' + x) + t * (sym('B.' + x) - sym('A.' + x)) for x in 'xy']))
            return w.call(chain(w, ['A', 'B']), 'is_on_boundary', q)
        value_rule(ctx, 'boundary', f, build, lambda w: TRUE, construct='PolygonLine.is_on_boundary point at ratio %r' % t)
    # find_segment_by_point, neighbour
    f = P.method(c, 'find_segment_by_point')
    for k, which in enumerate(('start', 'end', 'both')):
        def build(w, which=which):
            return w.call(chain(w, ['A', 'B', 'C'], True), 'find_segment_by_point', w.pt('B'), which)

        def want(w, which=which):
            s = segs_of(['A', 'B', 'C'], lambda n: coords(n)).pieces
            return Tup({'start': [s[1]], 'end': [s[0]], 'both': [s[0], s[1]]}[which])
        value_rule(ctx, 'find', f, build, want, generic=True, construct='PolygonLine.find_segment_by_point ' + which)
    value_rule(ctx, 'find', P.method(c, 'neighbour'), lambda w: w.call(chain(w, ['A', 'B', 'C', 'D'], True), 'neighbour', w.pt('B')),
               lambda w: Tup([Tup(['pt'] + coords(n)) for n in ('A', 'C')]), generic=True, construct='PolygonLine.neighbour')
    value_rule(ctx, 'find', P.method(c, 'next_segment'), lambda w: _next(w),
               lambda w: segs_of(['B', 'C'], lambda n: coords(n)).pieces[0], generic=True, construct='PolygonLine.next_segment')
    # vertex lists
    for label, vs, closed in CHAINS:
        for shared in (True, False):
            value_rule(ctx, 'vertices', P.method(c, 'point_set'),
                       lambda w, vs=vs, closed=closed, shared=shared: w.spec(S, 'moments', w.attr_or_call(chain(w, vs, closed, shared), 'point_set')),
                       lambda w, vs=vs: w.spec(S, 'moments', w.ip.mklist(w.st, [w.pt(n) for n in sorted(set(vs))])), generic=True,
                       construct='PolygonLine.point_set %s %s' % (label, 'shared' if shared else 'not shared'))
    # loose comparison
    f = P.method(c, 'loose_equal')
    rows = [('itself', ['A', 'B', 'C'], False, TRUE, TRUE), ('rotated', ['B', 'C', 'A'], False, TRUE, TRUE), ('reversed', ['C', 'B', 'A'], False, TRUE, FALSE),
            ('other vertex', ['A', 'B', 'D'], False, FALSE, FALSE)]
    for label, vs, _, plain, directed in rows:
        for dm, exp in ((False, plain), (True, directed)):
            value_rule(ctx, 'loosely equal', f, lambda w, vs=vs, dm=dm: w.call(chain(w, ['A', 'B', 'C'], True), 'loose_equal', chain(w, vs, True), alg.b_const(dm)),
                       lambda w, exp=exp: exp, generic=True, construct='PolygonLine.loose_equal %s direction_matters=%s' % (label, dm))
    f = P.method(c, 'loose_subset')
    for label, vs, closed, exp in (('its own part', ['A', 'B'], False, TRUE), ('itself reversed', ['C', 'B', 'A'], True, TRUE),
                                   ('chord', ['A', 'C'], False, TRUE), ('with a foreign vertex', ['A', 'D'], False, FALSE)):
        value_rule(ctx, 'loosely contained', f, lambda w, vs=vs, closed=closed: w.call(chain(w, ['A', 'B', 'C'], True), 'loose_subset', chain(w, vs, closed)),
                   lambda w, exp=exp: exp, generic=True, construct='PolygonLine.loose_subset ' + label)
    arranged(ctx)


# ------------------------------------------------------------------ every arrangement of a few segments
def arrangements(most, names='ABCD', nulls=True):
    """all lists of up to `most` segments over the named places, up to renaming of the places"""
    out = []

    def go(edges, used):
        if edges:
            out.append(list(edges))
        if len(edges) == most:
            return
        pool = names[:used + 1]
        for a in pool:
            for b in names[:max(used + 1, names.index(a) + 2)]:
                if a == b and not nulls:
                    continue
                go(edges + [(a, b)], max(used, names.index(a) + 1, names.index(b) + 1))
    go([], 0)
    return out


def line_of(w, edges, shared=False):
    objs = {}

    def p(n):
        if not shared:
            return w.pt(n)
        if n not in objs:
            objs[n] = w.pt(n)
        return objs[n]
    return w.new(PL(w.ctx), w.ip.mklist(w.st, [w.new(w.Segment, p(a), p(b)) for a, b in edges]))


def seg_of(e):
    return segs_of(e, lambda n: coords(n)).pieces[0]


def pt_of(n):
    return Tup(['pt'] + coords(n))


def cont(x, y):
    return x[1] == y[0] or x[0] == y[1]


def arranged(ctx):
    """chain operations on every arrangement of up to three segments over up to four places in general position"""
    P, S = ctx.P, ctx.spec(SPEC)
    c = PL(ctx)
    small = arrangements(2, 'ABC')
    three = [e for e in arrangements(3, 'ABCD') if len(e) == 3]
    pick = three if ctx.tier == 'thorough' else three[::9] + [[('A', 'B'), ('B', 'B'), ('B', 'C')], [('A', 'B'), ('C', 'B'), ('B', 'D')], [('A', 'B'), ('B', 'C'), ('C', 'A')]]
    name = lambda edges: ' '.join(a + b for a, b in edges)

    def rule(label, nm, edges, build, want, **kw):
        value_rule(ctx, label, P.method(c, nm), build, want, generic=True, construct='PolygonLine.%s %s' % (nm, name(edges)), **kw)
    for edges in small + pick:
        iscont = all(cont(x, y) for x, y in zip(edges, edges[1:]))
        closed = iscont and edges[0][0] == edges[-1][1]
        rule('continuous', 'iscontinuous', edges, lambda w, e=edges: w.attr_or_call(line_of(w, e), 'iscontinuous'), lambda w, v=iscont: alg.b_const(v))
        rule('closed', 'isclosed', edges, lambda w, e=edges: w.attr_or_call(line_of(w, e), 'isclosed'), lambda w, v=closed: alg.b_const(v))
        rule('discontinuity', 'discontinuity', edges, lambda w, e=edges: w.attr_or_call(line_of(w, e), 'discontinuity'),
             lambda w, e=edges: Tup([seg_of(y) for x, y in zip(e, e[1:]) if not cont(x, y)]))
        for q in sorted(set('ABC') | set(n for e in edges for n in e))[:3]:
            near = [e[0] for e in edges if q in e and e[0] != q] + [e[1] for e in edges if q in e and e[1] != q]
            rule('neighbours', 'neighbour', edges, lambda w, e=edges, q=q: w.spec(S, 'moments', w.call(line_of(w, e), 'neighbour', w.pt(q))),
                 lambda w, near=near: w.spec(S, 'moments', w.ip.mklist(w.st, [w.pt(n) for n in near])))
            for which, f in (('start', lambda e, q: e[0] == q), ('end', lambda e, q: e[1] == q), ('both', lambda e, q: q in e)):
                rule('find', 'find_segment_by_point', edges, lambda w, e=edges, q=q, which=which: w.call(line_of(w, e), 'find_segment_by_point', w.pt(q), which),
                     lambda w, e=edges, f=f, q=q: Tup([seg_of(x) for x in e if f(x, q)]))
        ends = [n for e in edges for n in e]
        rule('all points', 'all_points', edges, lambda w, e=edges: w.spec(S, 'moments', w.attr_or_call(line_of(w, e), 'all_points')),
             lambda w, ends=ends: w.spec(S, 'moments', w.ip.mklist(w.st, [w.pt(n) for n in ends])))
        rule('vertices', 'point_set', edges, lambda w, e=edges: w.spec(S, 'moments', w.attr_or_call(line_of(w, e), 'point_set')),
             lambda w, ends=ends: w.spec(S, 'moments', w.ip.mklist(w.st, [w.pt(n) for n in sorted(set(ends))])))
        f = P.func(G, 'remove_outlier_segments')
        loose = [n for n in ends if ends.count(n) == 1]
        value_rule(ctx, 'outliers', f, lambda w, e=edges: w.fn(G, 'remove_outlier_segments', w.get(line_of(w, e), 'segments')),
                   lambda w, e=edges, loose=loose: Tup([seg_of(x) for x in e if not (set(x) & set(loose))]), generic=True,
                   construct='remove_outlier_segments %s' % name(edges))
    value_rule(ctx, 'find', P.method(c, 'find_segment_by_point'), lambda w: w.call(line_of(w, [('A', 'B')]), 'find_segment_by_point', w.pt('A'), 'middle'),
               lambda w: None, raises=lambda w: TRUE, generic=True, construct='PolygonLine.find_segment_by_point unknown end')
    # comparison of two lines
    firsts = [[('A', 'B')], [('A', 'B'), ('B', 'C')], [('A', 'B'), ('A', 'C')], [('A', 'B'), ('B', 'A')], [('A', 'B'), ('B', 'C'), ('C', 'A')],
              [('A', 'B'), ('C', 'D')], [('A', 'A'), ('A', 'B')]]
    if ctx.tier == 'thorough':
        firsts += three[::5]
    seconds = firsts + [[('B', 'A')], [('B', 'C')], [('B', 'A'), ('C', 'B')], [('B', 'C'), ('A', 'B')], [('A', 'B'), ('B', 'D')], [('A', 'B'), ('A', 'B')],
                        [('C', 'A'), ('A', 'B'), ('B', 'C')], [('A', 'C'), ('C', 'B'), ('B', 'A')], [('A', 'B'), ('B', 'C'), ('C', 'D')], [('D', 'E')]]
    for x in firsts:
        for y in seconds:
            tag = name(x) + ' / ' + name(y)
            same = len(x) == len(y) and all(any(set(a) == set(b) for b in y) for a in x)
            value_rule(ctx, 'loosely equal', P.method(c, 'loose_equal'), lambda w, x=x, y=y: w.call(line_of(w, x), 'loose_equal', line_of(w, y)),
                       lambda w, v=same: alg.b_const(v), generic=True, construct='PolygonLine.loose_equal ' + tag)
            value_rule(ctx, 'loosely equal', P.method(c, 'loose_equal'),
                       lambda w, x=x, y=y: w.call(line_of(w, x), 'loose_equal', line_of(w, y), TRUE),
                       lambda w, v=len(x) == len(y) and set(x) == set(y): alg.b_const(v), generic=True, construct='PolygonLine.loose_equal directed ' + tag)
            inner = set(n for e in y for n in e) <= set(n for e in x for n in e)
            value_rule(ctx, 'loosely contained', P.method(c, 'loose_subset'), lambda w, x=x, y=y: w.call(line_of(w, x), 'loose_subset', line_of(w, y)),
                       lambda w, v=inner: alg.b_const(v), generic=True, construct='PolygonLine.loose_subset ' + tag)


def _next(w):
    p = chain(w, ['A', 'B', 'C', 'D'], True)
    return w.call(p, 'next_segment', w.ip.items(w.st, w.get(p, 'segments'))[0])


PROPS = {
    'P04': (transforms, 'value numbering of every transformation on symbolic chains; normal forms of the mapped vertices compared with the map; '
                        'for chains of any length: the vertices are merged, then one pass over distinct vertices', 'exact reals; fixed chains of up to six segments'),
    'P12': (measures, 'value numbering; extents and means compared as aggregates', 'exact reals'),
    'P27': (constructors, 'value numbering of the constructors; vertices compared with the specified ones', 'exact reals; numbers of nodes and parts as listed'),
    'P29': (orientation, 'value numbering; cross products and the Boolean conditions on them compared', 'exact reals; polygons of 3 to 5 vertices'),
    'P30': (chains, 'value numbering of chain operations on symbolic chains', 'exact reals; fixed chains'),
}

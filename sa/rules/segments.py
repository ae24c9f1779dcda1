# -*- coding: utf-8 -*-
"""Segments: measures, intersection, predicates, equality, subdivision, sphere-line intersection."""
from ..core import *

L = 'geometry.SR_line'

SPEC = '''
from math import sqrt, atan2, acos, degrees, pi
TOL = 1e-5          # coordinates closer than this are one location
EPS = 1e-8

def norm(ax, ay, bx, by):
    return sqrt((bx - ax) ** 2 + (by - ay) ** 2)

def dist(px, py, qx, qy):
    return sqrt((px - qx) ** 2 + (py - qy) ** 2)

def same(px, py, qx, qy):
    return abs(px - qx) < TOL and abs(py - qy) < TOL

def vector(ax, ay, bx, by):
    return bx - ax, by - ay

def unit(ax, ay, bx, by):
    n = sqrt((bx - ax) ** 2 + (by - ay) ** 2)
    if same(ax, ay, bx, by):
        return 0, 0
    return (bx - ax) / n, (by - ay) / n

def direction(ax, ay, bx, by):
    a = atan2(by - ay, bx - ax) * 180 / pi
    if a < 0:
        return a + 360
    return a

def cross(ax, ay, bx, by, cx, cy, dx, dy):
    return (bx - ax) * (dy - cy) - (by - ay) * (dx - cx)

def dot(ax, ay, bx, by, cx, cy, dx, dy):
    return (bx - ax) * (dx - cx) + (by - ay) * (dy - cy)

def side(ax, ay, bx, by, px, py):
    return (bx - ax) * (py - ay) - (by - ay) * (px - ax)

def angle(ax, ay, bx, by, cx, cy, dx, dy):
    c = dot(ax, ay, bx, by, cx, cy, dx, dy) / (norm(ax, ay, bx, by) * norm(cx, cy, dx, dy))
    return acos(max(-1, min(1, c))) * 180 / pi

def angle3(ax, ay, bx, by, px, py):
    return angle(ax, ay, bx, by, ax, ay, px, py)

def linedist(ax, ay, bx, by, px, py):
    return abs(side(ax, ay, bx, by, px, py)) / norm(ax, ay, bx, by)

def bbox(ax, ay, bx, by):
    return (min(ax, bx), max(ax, bx)), (min(ay, by), max(ay, by))

def reversed_(ax, ay, bx, by):
    return 'seg', ('pt', bx, by), ('pt', ax, ay)

def isect(ax, ay, bx, by, cx, cy, dx, dy):
    den = (bx - ax) * (dy - cy) - (by - ay) * (dx - cx)
    if den == 0:
        return None
    t = ((cx - ax) * (dy - cy) - (cy - ay) * (dx - cx)) / den
    return 'pt', ax + t * (bx - ax), ay + t * (by - ay)

def parallel(ax, ay, bx, by, cx, cy, dx, dy):
    return cross(ax, ay, bx, by, cx, cy, dx, dy) == 0

def intersecting(ax, ay, bx, by, cx, cy, dx, dy):
    return cross(ax, ay, bx, by, cx, cy, dx, dy) != 0

def opposite(ax, ay, bx, by, cx, cy, dx, dy):
    return cross(ax, ay, bx, by, cx, cy, dx, dy) == 0 and dot(ax, ay, bx, by, cx, cy, dx, dy) < 0

def right(ax, ay, bx, by, px, py):
    return side(ax, ay, bx, by, px, py) < 0

def online(ax, ay, bx, by, px, py):
    return same(px, py, ax, ay) or same(px, py, bx, by) or abs(side(ax, ay, bx, by, px, py)) < EPS

def left(ax, ay, bx, by, px, py):
    if online(ax, ay, bx, by, px, py):
        return False
    return side(ax, ay, bx, by, px, py) > 0

def inbox(ax, ay, bx, by, px, py):
    return (min(ax, bx) - EPS < px and px <= max(ax, bx) + EPS and
            min(ay, by) - EPS <= py and py <= max(ay, by) + EPS)

def collinear(ax, ay, bx, by, cx, cy, dx, dy):
    return online(ax, ay, bx, by, cx, cy) and online(ax, ay, bx, by, dx, dy)

def equal(ax, ay, bx, by, cx, cy, dx, dy):
    return same(ax, ay, cx, cy) and same(bx, by, dx, dy)

def ratio(ax, ay, bx, by, t):
    return 'pt', ax + t * (bx - ax), ay + t * (by - ay)

def divide(ax, ay, bx, by, n):
    out = []
    for k in range(n):
        out.append(('seg', ('pt', ax + (bx - ax) * k / n, ay + (by - ay) * k / n),
                    ('pt', ax + (bx - ax) * (k + 1) / n, ay + (by - ay) * (k + 1) / n)))
    return out

def addpoint(ax, ay, bx, by, px, py):
    if inbox(ax, ay, bx, by, px, py):
        return ('seg', ('pt', ax, ay), ('pt', px, py)), ('seg', ('pt', px, py), ('pt', bx, by))
    return False

def sphere_disc(l, m, c, r):
    dx, dy, dz = m[0] - l[0], m[1] - l[1], m[2] - l[2]
    fx, fy, fz = l[0] - c[0], l[1] - c[1], l[2] - c[2]
    A = dx * dx + dy * dy + dz * dz
    B = 2 * (dx * fx + dy * fy + dz * fz)
    C = fx * fx + fy * fy + fz * fz - r * r
    return B * B - 4 * A * C

def sphere(l, m, c, r):
    dx, dy, dz = m[0] - l[0], m[1] - l[1], m[2] - l[2]
    fx, fy, fz = l[0] - c[0], l[1] - c[1], l[2] - c[2]
    A = dx * dx + dy * dy + dz * dz
    B = 2 * (dx * fx + dy * fy + dz * fz)
    C = fx * fx + fy * fy + fz * fz - r * r
    D = B * B - 4 * A * C
    if D < 0:
        return None, None
    if D == 0:
        t = -B / (2 * A)
        return (l[0] + t * dx, l[1] + t * dy, l[2] + t * dz), None
    t = (-B + sqrt(D)) / (2 * A)
    s = (-B - sqrt(D)) / (2 * A)
    return (l[0] + t * dx, l[1] + t * dy, l[2] + t * dz), (l[0] + s * dx, l[1] + s * dy, l[2] + s * dz)
'''


def seg_rules(ctx, rule, table, cls=None, **kw):
    """table: (public name, arguments 's' segment / 'p' point, spec function[, assume])"""
    S = ctx.spec(SPEC)
    c = ctx.P.cls(L, 'LineSegment')
    for row in table:
        name, args, sp = row[:3]
        opts = row[3] if len(row) > 3 else {}
        f = ctx.P.method(c, name)

        def build(w, name=name, args=args):
            s = w.seg('a')
            a = [w.seg('b') if x == 's' else w.pt('p') for x in args]
            return w.attr_or_call(s, name, *a)

        def want(w, sp=sp, args=args):
            v = w.ixy('a')
            for x in args:
                v = v + (w.ixy('b') if x == 's' else [sym('p.x'), sym('p.y')])
            return w.spec(S, sp, *v)
        o = dict(kw)
        if 'assume' in opts:
            o['assume'] = lambda w, e=opts['assume'], args=args: _assume(w, S, e, args)
        if 'raises' in opts:
            o['raises'] = lambda w, e=opts['raises'], args=args: _assume(w, S, e, args)
        value_rule(ctx, rule, f, build, want, construct='LineSegment.' + name, **o)


def _assume(w, S, e, args):
    v = {'a': w.ixy('a'), 'b': w.ixy('b'), 'p': [sym('p.x'), sym('p.y')]}
    return e(w, S, v)


def not_null(k):
    return lambda w, S, v: alg.b_not(w.spec(S, 'same', *v[k]))


def start_is(w, S, v):
    return w.spec(S, 'same', *(v['a'][:2] + v['p']))


# ------------------------------------------------------------------ measures
def measures(ctx):
    seg_rules(ctx, 'measure', [
        ('norm', '', 'norm'),
        ('delta_x', '', 'dx_'), ('delta_y', '', 'dy_'),
        ('as_vector', '', 'vector'),
        ('unitvector', '', 'unit'),
        ('direction', '', 'direction'),
        ('crossproduct', 's', 'cross'),
        ('dotproduct', 's', 'dot'),
        ('angle_between_lines', 's', 'angle', {'assume': both_real}),
        ('angle_from_start_point', 'p', 'angle3', {'assume': lambda w, S, v: alg.b_and(
            alg.b_not(w.spec(S, 'same', *v['a'])), alg.b_not(w.spec(S, 'same', *(v['a'][:2] + v['p'])))),
            'raises': start_is}),
        ('line_point_distance', 'p', 'linedist', {'assume': not_null('a')}),
        ('bounding_box', '', 'bbox'),
        ('line_reversed', '', 'reversed_'),
    ])
    S = ctx.spec(SPEC)
    P = ctx.P
    pc = P.cls('geometry.SR_point', 'Point')
    value_rule(ctx, 'measure', P.method(pc, 'distance'), lambda w: w.call(w.pt('p'), 'distance', w.pt('q')),
               lambda w: w.spec(S, 'dist', sym('p.x'), sym('p.y'), sym('q.x'), sym('q.y')), construct='Point.distance')
    value_rule(ctx, 'measure', P.func('geometry.SR_point', 'distance'),
               lambda w: w.fn('geometry.SR_point', 'distance', w.pt('p'), w.pt('q')),
               lambda w: w.spec(S, 'dist', sym('p.x'), sym('p.y'), sym('q.x'), sym('q.y')), construct='distance')
    for op, sg in (('__add__', 1), ('__sub__', -1)):
        value_rule(ctx, 'measure', P.method(pc, op), lambda w, op=op: w.call(w.pt('p'), op, w.pt('q')),
                   lambda w, sg=sg: Tup(['pt', sym('p.x') + num(sg) * sym('q.x'), sym('p.y') + num(sg) * sym('q.y')]),
                   construct='Point.' + op)
    value_rule(ctx, 'measure', P.method(pc, 'bounding_box'), lambda w: w.call(w.pt('p'), 'bounding_box'),
               lambda w: Tup([Tup([sym('p.x'), sym('p.x')]), Tup([sym('p.y'), sym('p.y')])]), construct='Point.bounding_box')


def both_real(w, S, v):
    return alg.b_and(alg.b_not(w.spec(S, 'same', *v['a'])), alg.b_not(w.spec(S, 'same', *v['b'])))


SPEC += '''
def dx_(ax, ay, bx, by):
    return bx - ax

def dy_(ax, ay, bx, by):
    return by - ay
'''


# ------------------------------------------------------------------ intersection of lines
def intersection(ctx):
    seg_rules(ctx, 'intersection', [
        ('intersection_point', 's', 'isect'),
        ('is_parallel', 's', 'parallel'),
        ('is_intersecting', 's', 'intersecting'),
    ])



# ------------------------------------------------------------------ predicates
SPEC += """
def touch(ax, ay, bx, by, cx, cy, dx, dy):
    return (dist(ax, ay, cx, cy) < EPS or dist(ax, ay, dx, dy) < EPS or
            dist(bx, by, cx, cy) < EPS or dist(bx, by, dx, dy) < EPS)

def continuous(ax, ay, bx, by, cx, cy, dx, dy):
    return touch(ax, ay, bx, by, cx, cy, dx, dy) and (same(bx, by, cx, cy) or same(ax, ay, dx, dy))

def onsegment(ax, ay, bx, by, cx, cy, dx, dy):
    if touch(ax, ay, bx, by, cx, cy, dx, dy):
        return False
    p = isect(ax, ay, bx, by, cx, cy, dx, dy)
    if p is None:
        return False
    return inbox(ax, ay, bx, by, p[1], p[2]) and inbox(cx, cy, dx, dy, p[1], p[2])

def onendpoint(ax, ay, bx, by, cx, cy, dx, dy):
    p = isect(ax, ay, bx, by, cx, cy, dx, dy)
    if p is None:
        return False
    if touch(ax, ay, bx, by, cx, cy, dx, dy):
        return True
    return (same(p[1], p[2], ax, ay) or same(p[1], p[2], bx, by) or
            same(p[1], p[2], cx, cy) or same(p[1], p[2], dx, dy))
"""


def predicates(ctx):
    seg_rules(ctx, 'predicate', [
        ('isnull', '', 'same'),
        ('is_point_to_right', 'p', 'right'),
        ('is_point_to_left', 'p', 'left'),
        ('opposite_direction', 's', 'opposite'),
        ('is_internal_point', 'p', 'inbox'),
        ('is_point_on_line', 'p', 'online'),
        ('is_collinear', 's', 'collinear'),
        ('touch', 's', 'touch'),
        ('continuous', 's', 'continuous'),
        ('intersection_on_segment', 's', 'onsegment'),
        ('intersection_on_endpoint', 's', 'onendpoint'),
    ])


# ------------------------------------------------------------------ equality
SPEC += """
def loose(ax, ay, bx, by, cx, cy, dx, dy):
    return (equal(ax, ay, bx, by, cx, cy, dx, dy) or equal(ax, ay, bx, by, dx, dy, cx, cy))
"""


def _poly_class(ctx):
    return ctx.P.cls('geometry.SR_polygon', 'PolygonLine')


def equality(ctx):
    S = ctx.spec(SPEC)
    P = ctx.P
    pc, sc, pol = P.cls('geometry.SR_point', 'Point'), P.cls(L, 'LineSegment'), _poly_class(ctx)
    for nm, neg in (('__eq__', False), ('__ne__', True)):
        def want(w, neg=neg):
            c = w.spec(S, 'same', sym('p.x'), sym('p.y'), sym('q.x'), sym('q.y'))
            return alg.b_not(c) if neg else c
        value_rule(ctx, 'equality', P.method(pc, nm), lambda w, nm=nm: w.call(w.pt('p'), nm, w.pt('q')), want,
                   construct='Point.' + nm)

        def wants(w, neg=neg):
            c = w.spec(S, 'equal', *(w.ixy('a') + w.ixy('b')))
            return alg.b_not(c) if neg else c
        value_rule(ctx, 'equality', P.method(sc, nm), lambda w, nm=nm: w.call(w.seg('a'), nm, w.seg('b')), wants,
                   construct='LineSegment.' + nm)
        # a polygon line equals another one when its segments do, one by one
        for n, m in ((1, 1), (2, 2), (3, 3), (2, 3)):
            def wantp(w, neg=neg, n=n, m=m):
                c = FALSE
                if n == m:
                    cs = []
                    for k in range(n):
                        cs.append(w.spec(S, 'equal', *([sym('A%d.x' % k), sym('A%d.y' % k), sym('A%d.x' % (k + 1)), sym('A%d.y' % (k + 1)),
                                                        sym('B%d.x' % k), sym('B%d.y' % k), sym('B%d.x' % (k + 1)), sym('B%d.y' % (k + 1))])))
                    c = alg.b_and(*cs)
                return alg.b_not(c) if neg else c
            value_rule(ctx, 'equality', P.method(pol, nm),
                       lambda w, nm=nm, n=n, m=m: w.call(w.fixedpoly('A', n, False), nm, w.fixedpoly('B', m, False)), wantp,
                       construct='PolygonLine.%s(%d,%d)' % (nm, n, m))
    # different classes are never equal
    for a, b in (('Point', 'IntexPoint'), ('LineSegment', 'Wall'), ('Wall', 'NonWall')):
        def build(w, a=a, b=b):
            def mk(c):
                if c == 'Point':
                    return w.pt('p')
                if c == 'IntexPoint':
                    return w.new('IntexPoint', w.xy('p'))
                return w.seg('a', w.P.find_class(c))
            return w.call(mk(a), '__eq__', mk(b))
        anchor = P.method(P.find_class(a), '__eq__')
        value_rule(ctx, 'equality', anchor, build, lambda w: FALSE, construct='%s == %s' % (a, b))
    # so are loosely equal ones: same places, other kind
    sgs = ('LineSegment', 'Wall', 'NonWall')
    for a in sgs:
        for b in sgs:
            if a != b:
                def build(w, a=a, b=b):
                    return w.call(w.seg('a', P.find_class(a)), 'loose_equal', w.seg('a', P.find_class(b)))
                value_rule(ctx, 'equality', P.method(P.find_class(a), 'loose_equal'), build, lambda w: FALSE,
                           construct='%s loose_equal %s' % (a, b))
    # the segment's loose equality ignores direction; it never holds for segments that do not share both locations
    f = P.method(sc, 'loose_equal')

    def go():
        w = World(ctx)
        got = w.call(w.seg('a'), 'loose_equal', w.seg('b'))
        want = w.spec(S, 'loose', *(w.ixy('a') + w.ixy('b')))
        cond_rule(ctx, 'equality', ctx.where(f), alg.b_or(alg.b_not(got), want), 'loosely equal segments share both end points',
                  'LineSegment.loose_equal sound')
        for rev in (False, True):
            w = World(ctx)
            a = w.seg('a')
            ends = [w.pt('a.j'), w.pt('a.i')] if rev else [w.pt('a.i'), w.pt('a.j')]
            got = w.call(a, 'loose_equal', w.new(w.Segment, *ends))
            cond_rule(ctx, 'equality', ctx.where(f), got, 'a segment is loosely equal to %s' % ('its reverse' if rev else 'itself'),
                      'LineSegment.loose_equal %s' % ('reverse' if rev else 'same'))
    ctx.guard('equality', ctx.where(f), go)
    hashes(ctx)


def hashes(ctx):
    """equal coordinates give equal hashes; objects that compare equal have equal hashes"""
    P = ctx.P
    pc, sc, pol = P.cls('geometry.SR_point', 'Point'), P.cls(L, 'LineSegment'), _poly_class(ctx)

    def same_hash(label, cls, mk):
        f = P.method(cls, '__hash__')

        def go():
            w = World(ctx)
            a, b = mk(w), mk(w)
            c = w.ip.eqv(w.st, w.ip.hashkey(w.st, a), w.ip.hashkey(w.st, b))
            ctx.calls |= w.ip.calls
            cond_rule(ctx, 'hash', ctx.where(f), c, 'objects built from the same coordinates have the same hash', label)
        ctx.guard('hash', ctx.where(f), go, label)
    same_hash('Point.__hash__', pc, lambda w: w.pt('p'))
    same_hash('LineSegment.__hash__', sc, lambda w: w.seg('a'))
    for k in (1, 2, 3):
        same_hash('PolygonLine.__hash__(%d)' % k, pol, lambda w, k=k: w.fixedpoly('A', k, False))
        same_hash('PolygonLine.__hash__(closed %d)' % (k + 2), pol, lambda w, k=k: w.fixedpoly('A', k + 2, True))
    # eq implies hash, for the rearrangements an equality could be made to ignore
    S = ctx.spec(SPEC)
    f = P.method(pol, '__hash__')
    for label, perm, flip in (('rotated', (1, 2, 0), False), ('reversed', (2, 1, 0), True), ('reordered', (1, 0, 2), False),
                              ('turned', (0, 1, 2), True)):
        def go(perm=perm, flip=flip, label=label):
            w = World(ctx)
            pts = [w.pt('A%d' % i) for i in range(3)]
            a = w.new(pol, w.ip.mklist(w.st, [w.new(w.Segment, pts[i], pts[(i + 1) % 3]) for i in range(3)]))
            segs = [(pts[i], pts[(i + 1) % 3]) for i in perm]
            b = w.new(pol, w.ip.mklist(w.st, [w.new(w.Segment, *(s[::-1] if flip else s)) for s in segs]))
            e = w.ip.truth(w.st, w.call(a, '__eq__', b))
            h = w.ip.eqv(w.st, w.ip.hashkey(w.st, a), w.ip.hashkey(w.st, b))
            far = [alg.b_not(w.spec(S, 'same', *[sym('A%d.%s' % (i, c)) for i in ij for c in 'xy'])) for ij in ((0, 1), (0, 2), (1, 2))]
            cond_rule(ctx, 'hash', ctx.where(f), alg.b_or(alg.b_not(e), h), 'polygons that compare equal have the same hash (%s segments)' % label,
                      'PolygonLine eq/hash ' + label, assume=alg.b_and(*far))
        ctx.guard('hash', ctx.where(f), go, 'PolygonLine eq/hash ' + label)


    # the contract eq => hash on two independent objects
    for cls, mk, label in ((pc, lambda w, n: w.pt(n), 'Point'), (sc, lambda w, n: w.new(w.Segment, w.pt(n), w.pt('q')), 'LineSegment')):
        f = P.method(cls, '__hash__')

        def go(mk=mk, label=label):
            w = World(ctx)
            a, b = mk(w, 'a'), mk(w, 'b')
            e = w.ip.truth(w.st, w.call(a, '__eq__', b))
            h = w.ip.eqv(w.st, w.ip.hashkey(w.st, a), w.ip.hashkey(w.st, b))
            cond_rule(ctx, 'eq implies hash', ctx.where(f), alg.b_or(alg.b_not(e), h), 'objects that compare equal have the same hash', label)
        ctx.guard('eq implies hash', ctx.where(f), go, label)


# ------------------------------------------------------------------ subdivision
def subdivision(ctx):
    S = ctx.spec(SPEC)
    P = ctx.P
    f = P.func(L, 'point_on_line_at_ratio')
    t = sym('t')
    value_rule(ctx, 'subdivision', f, lambda w: w.fn(L, 'point_on_line_at_ratio', w.seg('a'), t),
               lambda w: w.spec(S, 'ratio', *(w.ixy('a') + [t])),
               raises=lambda w: alg.b_or(alg.lt(t, num(0)), alg.lt(num(1), t)), construct='point_on_line_at_ratio')
    f = P.func(L, 'divide_line')
    ks = (1, 2, 3, 4, 7) if ctx.tier == 'quick' else tuple(range(1, 41))
    for k in ks:
        value_rule(ctx, 'subdivision', f, lambda w, k=k: w.fn(L, 'divide_line', w.seg('a'), num(k)),
                   lambda w, k=k: w.spec(S, 'divide', *(w.ixy('a') + [num(k)])), construct='divide_line(%d)' % k)
    f = P.func(L, 'add_point_on_line')
    value_rule(ctx, 'subdivision', f, lambda w: w.fn(L, 'add_point_on_line', w.seg('a'), w.pt('p')),
               lambda w: w.spec(S, 'addpoint', *(w.ixy('a') + [sym('p.x'), sym('p.y')])), construct='add_point_on_line')
    c = P.cls(L, 'LineSegment')

    def shared(name, mk, pick):
        """neighbouring parts share the dividing point as one object"""
        g = P.func(L, name)

        def go():
            w = World(ctx)
            a = pick(w, mk(w))
            if a is None:
                raise Undecided('shape of the result')
            for x, y in zip(a, a[1:]):
                j, i = w.get(x, 'j'), w.get(y, 'i')
                if isinstance(j, Ref) and isinstance(i, Ref):
                    (ctx.ok if j == i else ctx.bad)('shared end points', ctx.where(g),
                                                    'the end of one part is the same object as the start of the next', name)
                else:
                    raise Undecided('not objects')
        ctx.guard('shared end points', ctx.where(g), go, name)
    shared('divide_line', lambda w: w.fn(L, 'divide_line', w.seg('a'), num(3)), lambda w, v: w.ip.items(w.st, v))
    shared('add_point_on_line', lambda w: w.fn(L, 'add_point_on_line', w.seg('a'), w.pt('p')),
           lambda w, v: w.ip.items(w.st, v.a if isinstance(v.a, Tup) else v.b) if isinstance(v, Phi) else None)


# ------------------------------------------------------------------ line and sphere
def sphere(ctx):
    S = ctx.spec(SPEC)
    P = ctx.P
    m = 'geometry.additional_stuff'
    f = P.func(m, 'sphere_line_intersection')

    def T(n):
        return Tup([sym(n + '.x'), sym(n + '.y'), sym(n + '.z')])
    args = lambda: [T('l'), T('m'), T('c'), sym('r')]
    distinct = lambda w: alg.b_or(*[alg.b_not(alg.eq(sym('l.' + c), sym('m.' + c))) for c in 'xyz'])
    value_rule(ctx, 'sphere-line', f, lambda w: w.fn(m, 'sphere_line_intersection', *args()),
               lambda w: w.spec(S, 'sphere', *args()), assume=distinct, construct='sphere_line_intersection')
    # every returned point lies on the line and on the sphere
    def go():
        w = World(ctx)
        got = w.fn(m, 'sphere_line_intersection', *args())
        for k in (0, 1):
            for cond, leaf in _leaves(w.ip.index(w.st, got, num(k)), TRUE):
                if leaf is None or _infeasible_(cond):
                    continue
                x, y, z = [w.ip.asnum(v) for v in leaf.pieces]
                r = [(x - sym('c.x')) ** 2 + (y - sym('c.y')) ** 2 + (z - sym('c.z')) ** 2 - sym('r') ** 2]
                for p, q in (('x', 'y'), ('y', 'z'), ('x', 'z')):
                    v = {'x': x, 'y': y, 'z': z}
                    r.append((v[p] - sym('l.' + p)) * (sym('m.' + q) - sym('l.' + q)) - (v[q] - sym('l.' + q)) * (sym('m.' + p) - sym('l.' + p)))
                for i, e in enumerate(r):
                    try:
                        compare(ctx, e, num(0), alg.b_and(distinct(w), cond))
                    except Differ as ex:
                        ctx.bad('sphere-line residual', ctx.where(f), 'a returned point is off the %s: %s' % ('line' if i else 'sphere', ex.detail),
                                'sphere_line_intersection[%d]' % k)
                    except Undecided as ex:
                        ctx.und('sphere-line residual', ctx.where(f), str(ex)[:200], 'sphere_line_intersection[%d]' % k)
                    else:
                        ctx.ok('sphere-line residual', ctx.where(f), 'residual %d of point %d vanishes' % (i, k), 'sphere_line_intersection[%d]' % k)
    ctx.guard('sphere-line residual', ctx.where(f), go)


def _infeasible_(c):
    from ..core import _infeasible
    return _infeasible(c)


def _leaves(v, c):
    if isinstance(v, Phi):
        for x in _leaves(v.a, alg.b_and(c, v.c)):
            yield x
        for x in _leaves(v.b, alg.b_and(c, alg.b_not(v.c))):
            yield x
    else:
        yield c, v


PROPS = {
    'P06': (measures, 'value numbering of every segment and point measure; normal forms compared with the specified formulas',
            'formulas over exact reals; rounding of coordinates to 8 decimals is outside the compared normal forms'),
    'P07': (intersection, 'value numbering; normal forms compared with the specified line intersection', 'exact reals'),
    'P08': (predicates, 'value numbering of the segment predicates; Boolean normal forms compared with the specified conditions', 'exact reals'),
    'P09': (equality, 'value numbering of equality and hash functions; contract conditions decided on normal forms', 'polygon lines of up to three segments'),
    'P10': (subdivision, 'value numbering of the subdivision functions; object identity of shared end points', 'numbers of parts up to 7 (quick) or 40 (thorough)'),
    'P11': (sphere, 'value numbering of the quadratic solution; normal forms compared; residuals of the returned points simplified to zero', 'exact reals'),
}

# -*- coding: utf-8 -*-
"""Points: stored coordinates are rounded, validity follows the coordinates."""
from ..core import *
from .shapes import chain
from .triang import bsym

PT = 'geometry.SR_point'
L = 'geometry.SR_line'
G = 'geometry.SR_polygon'
HT = 'SR_Vessel.SR_hauptteile'


# ------------------------------------------------------------------ P26
class Rounding(object):
    """round(x, n) as an opaque value that remembers its digits"""

    def __init__(self):
        self.digits = {}
        self.by = {}

    def __call__(self, ip, st, a, k, fr):
        n = a[1] if len(a) > 1 else k.get('ndigits')
        nd = 0
        if n is not None:
            c = ip.asnum(n).exactconst()
            if c is None or c != int(c):
                raise Undecided('number of digits')
            nd = int(c)

        def f(x):
            x = ip.asnum(x)
            key = (x.key(), nd)
            if key not in self.by:
                self.by[key] = s = sym('rnd%d' % len(self.by))
                self.digits[s.key()] = nd
            return self.by[key]
        return ip.lift(f, a[0])

    def text(self, v):
        """what is wrong about a stored coordinate, or None"""
        if isinstance(v, Phi):
            return self.text(v.a) or self.text(v.b)
        if v is None:
            return None
        if not isinstance(v, Num):
            raise Undecided('coordinate %r' % (v,))
        nd = self.digits.get(v.key())
        if nd is None:
            return 'stores %s without rounding' % show(v)
        if nd != 8:
            return 'rounds to %d decimals, not 8' % nd
        return None


def rounded(ctx):
    P = ctx.P
    point, seg, pl = P.cls(PT, 'Point'), P.cls(L, 'LineSegment'), P.cls(G, 'PolygonLine')
    a, b, r, t = [sym(x) for x in 'abrt']

    def xy(w, *n):
        return [Tup([sym(x + '.x'), sym(x + '.y')]) for x in n]

    def square(w, cls=None):
        return chain(w, 'ABCD', True, True, cls)
    ops = [
        ('Point', P.method(point, '__init__'), lambda w: w.pt('A')),
        ('Point of a list', P.method(point, '__init__'), lambda w: w.new(point, w.ip.mklist(w.st, [a, b]))),
        ('new coordinates', P.method(point, '_set_coords'), lambda w: w.call(w.pt('A'), '_set_coords', Tup([a, b]))),
        ('emptied and set again', P.method(point, '_set_coords'), lambda w: (lambda p: (w.call(p, '_empty'), w.call(p, '_set_coords', Tup([a, b]))))(w.pt('A'))),
        ('sum', P.method(point, '__add__'), lambda w: w.call(w.pt('A'), '__add__', w.pt('B'))),
        ('difference', P.method(point, '__sub__'), lambda w: w.call(w.pt('A'), '__sub__', w.pt('B'))),
        ('reference point', P.method(P.cls(PT, 'IntexPoint'), '__init__'), lambda w: w.new(P.cls(PT, 'IntexPoint'), Tup([a, b]))),
        ('segment moved', P.method(seg, 'move'), lambda w: w.call(w.seg('s'), 'move', a, b)),
        ('segment mirrored', P.method(seg, 'mirror_vertical'), lambda w: w.call(w.seg('s'), 'mirror_vertical', a)),
        ('segment reversed', P.method(seg, 'reverse'), lambda w: w.call(w.seg('s'), 'reverse')),
        ('reversed copy', P.method(seg, 'line_reversed'), lambda w: w.attr_or_call(w.seg('s'), 'line_reversed')),
        ('segment midpoint', P.method(seg, 'midpoint'), lambda w: w.attr_or_call(w.seg('s'), 'midpoint')),
        ('intersection', P.method(seg, 'intersection_point'), lambda w: w.call(w.seg('s'), 'intersection_point', w.seg('t'))),
        ('ratio', P.func(L, 'point_on_line_at_ratio'), lambda w: w.fn(L, 'point_on_line_at_ratio', w.seg('s'), t)),
        ('division', P.func(L, 'divide_line'), lambda w: w.fn(L, 'divide_line', w.seg('s'), num(3))),
        ('added point', P.func(L, 'add_point_on_line'), lambda w: w.fn(L, 'add_point_on_line', w.seg('s'), w.pt('A'))),
        ('line moved', P.method(pl, 'move'), lambda w: w.call(square(w), 'move', a, b)),
        ('line mirrored', P.method(pl, 'mirror_vertical'), lambda w: w.call(square(w), 'mirror_vertical', a)),
        ('line rotated', P.method(pl, 'rotate_about_origin'), lambda w: w.call(square(w), 'rotate_about_origin', a)),
        ('line rotated about a point', P.method(pl, 'rotate_about_xy'), lambda w: w.call(square(w), 'rotate_about_xy', a, b, r)),
        ('ends merged', P.method(pl, 'purge'), lambda w: w.call(chain(w, 'ABCD', True, False), 'purge')),
        ('centre', P.method(pl, 'midpoint'), lambda w: w.attr_or_call(square(w), 'midpoint')),
        ('appended at the end', P.method(pl, 'append_point_at_end'), lambda w: w.call(chain(w, 'ABC'), 'append_point_at_end', w.pt('E'))),
        ('appended at the beginning', P.method(pl, 'append_point_at_beginning'), lambda w: w.call(chain(w, 'ABC'), 'append_point_at_beginning', w.pt('E'))),
        ('closed', P.method(pl, 'close'), lambda w: w.call(chain(w, 'ABC'), 'close')),
        ('closed copy', P.method(pl, 'closed_copy'), lambda w: w.attr_or_call(chain(w, 'ABC'), 'closed_copy')),
        ('line of points', P.func(G, 'polygon_from_nodes'), lambda w: w.fn(G, 'polygon_from_nodes', w.ip.mklist(w.st, xy(w, *'ABCD')))),
        ('square', P.func(G, 'square'), lambda w: w.fn(G, 'square', a, b, r)),
        ('arc', P.func(G, 'arc'), lambda w: w.fn(G, 'arc', w.pt('A'), r, num(0), num(90), num(4))),
    ]
    two = Tup([sym('d0'), sym('d1')])
    V, U, H, D = sym('v'), sym('u'), sym('h'), sym('d')
    for cls, kw in (('Mantel', dict(d=two, h=H)), ('StandZarge', dict(d=two, h=H)), ('Flachboden', dict(d=D)), ('RaumEnde', dict(d=D))):
        c = P.cls(HT, cls)
        ops.append((cls, P.method(c, '__init__'), lambda w, c=c, kw=kw: w.new(c, name='T', pos_v=V, pos_h=U, **kw)))
        ops.append((cls + ' moved', P.method(c, 'move'), lambda w, c=c, kw=kw: w.call(w.new(c, name='T', pos_v=V, pos_h=U, **kw), 'move', a, b)))
    for label, f, op, generic in [x + (True,) for x in ops] + [(x[0] + ', any coordinates',) + x[1:] + (False,) for x in ops[:7]]:
        def go(label=label, f=f, op=op, generic=generic):
            R = Rounding()
            w = World(ctx, {('ext', 'builtins.round'): R, ('PolygonLine', 'is_internal_point'): lambda ip, st, fn, a, k: TRUE}, ('d', 'd0', 'd1', 'h', 'r'), generic)
            op(w)
            ctx.calls |= w.ip.calls
            n = 0
            for i, rec in list(w.st.heap.items()):
                if not isinstance(rec, Rec) or 'Point' not in [k.name for k in rec.cls.mro]:
                    continue
                for e in 'xy':
                    n += 1
                    t = R.text(w.get(Ref(i), e))
                    if t:
                        ctx.bad('rounded', ctx.where(f), '%s: the %s coordinate of a point %s' % (label, e, t), label)
                        return
            if not n:
                raise Undecided('no points')
            ctx.ok('rounded', ctx.where(f), '%s: %d coordinates' % (label, n), label)
        ctx.guard('rounded', ctx.where(f), go, label)


PROPS = {
    'P26': (rounded, 'value numbering with rounding as an opaque value; every point in the heap after every operation', 'points built by plotting, meshing and the Delaunay class are not analysed'),
}


# ------------------------------------------------------------------ P35
SPEC = '''
from math import sqrt

def dist(ax, ay, bx, by):
    return sqrt((bx - ax) ** 2 + (by - ay) ** 2)
'''


def validity(ctx):
    P = ctx.P
    point, ix, seg, pl = P.cls(PT, 'Point'), P.cls(PT, 'IntexPoint'), P.cls(L, 'LineSegment'), P.cls(G, 'PolygonLine')
    a, b = sym('a'), sym('b')
    PAIR = Tup([a, b])
    isv = P.method(point, 'isvalid')

    def kinds(c, extra=()):
        return [
            ('nothing given', lambda w: w.new(c, *extra), False) if c is point else None,
            ('coordinates', lambda w: w.new(c, PAIR), True),
            ('a list', lambda w: w.new(c, w.ip.mklist(w.st, [a, b])), True),
            ('no coordinates', lambda w: w.new(c, Tup([None, None])), False),
            ('no first coordinate', lambda w: w.new(c, Tup([None, b])), False),
            ('no second coordinate', lambda w: w.new(c, Tup([a, None])), False),
            ('emptied', lambda w: after(w, w.new(c, PAIR), ('_empty',)), False),
            ('emptied and set', lambda w: after(w, w.new(c, PAIR), ('_empty',), ('_set_coords', PAIR)), True),
            ('set', lambda w: after(w, w.new(c, Tup([None, None])), ('_set_coords', PAIR)), True),
            ('reset', lambda w: after(w, w.new(c, PAIR), ('_set_coords', Tup([None, None]))), False),
            ('reset to nothing', lambda w: after(w, w.new(c, PAIR), ('_set_coords',)), False),
            ('half reset', lambda w: after(w, w.new(c, PAIR), ('_set_coords', Tup([a, None]))), False),
            ('emptied twice', lambda w: after(w, w.new(c, PAIR), ('_empty',), ('_empty',)), False),
        ]

    def after(w, p, *steps):
        for s in steps:
            w.call(p, s[0], *s[1:])
        return p
    for c, n in ((point, ''), (ix, 'reference ')):
        for k in kinds(c):
            if k is None:
                continue
            label, make, want = k
            label = n + 'point, ' + label
            value_rule(ctx, 'valid', isv, lambda w, make=make: w.attr_or_call(make(w), 'isvalid'), lambda w, want=want: alg.b_const(want), construct=label)
            if 'half' in label or 'first' in label or 'second' in label:
                continue
            value_rule(ctx, 'empty', P.method(point, '_isempty'), lambda w, make=make: w.call(make(w), '_isempty'), lambda w, want=want: alg.b_const(not want), construct=label)
            if want:
                for q in 'xy':
                    value_rule(ctx, 'current coordinates', P.method(point, q), lambda w, make=make, q=q: w.get(make(w), q), lambda w, q=q: {'x': a, 'y': b}[q], construct=label + ' ' + q)
                value_rule(ctx, 'current coordinates', P.method(point, 'xy'), lambda w, make=make: w.get(make(w), 'xy'), lambda w: Tup([a, b], 'seq'), construct=label + ' xy')
                value_rule(ctx, 'bounding box', P.method(point, 'bounding_box'), lambda w, make=make: w.call(make(w), 'bounding_box'),
                           lambda w: Tup([Tup([a, a], 'seq'), Tup([b, b], 'seq')], 'seq'), construct=label)

    # operands without coordinates
    bads = [('without coordinates', lambda w: w.new(point)), ('without a coordinate', lambda w: w.new(point, Tup([a, None]))), ('emptied', lambda w: after(w, w.pt('A'), ('_empty',)))]
    for label, bad in bads:
        for i, l2 in ((0, 'point '), (1, 'other point '), (2, 'both points ')):
            def pair(w, bad=bad, i=i):
                return [bad(w) if i in (0, 2) else w.pt('B'), bad(w) if i in (1, 2) else w.pt('B')]

            value_rule(ctx, 'distance refused', P.func(PT, 'distance'), lambda w, pair=pair: w.fn(PT, 'distance', *pair(w)), lambda w: None, raises=lambda w: TRUE, construct=l2 + label)
            value_rule(ctx, 'distance refused', P.method(point, 'distance'), lambda w, pair=pair: (lambda p: w.call(p[0], 'distance', p[1]))(pair(w)), lambda w: None,
                       raises=lambda w: TRUE, construct='method, ' + l2 + label)
            value_rule(ctx, 'never equal', P.method(point, '__eq__'), lambda w, pair=pair: (lambda p: w.call(p[0], '__eq__', p[1]))(pair(w)), lambda w: FALSE, construct=l2 + label)
            value_rule(ctx, 'never equal', P.method(point, '__ne__'), lambda w, pair=pair: (lambda p: w.call(p[0], '__ne__', p[1]))(pair(w)), lambda w: TRUE, construct='unequal ' + l2 + label)
    S = ctx.spec(SPEC)
    ab = [sym('A.x'), sym('A.y'), sym('B.x'), sym('B.y')]
    value_rule(ctx, 'distance', P.func(PT, 'distance'), lambda w: w.fn(PT, 'distance', w.pt('A'), w.pt('B')), lambda w: w.spec(S, 'dist', *ab))
    value_rule(ctx, 'distance', P.method(point, 'distance'), lambda w: w.call(w.pt('A'), 'distance', w.pt('B')), lambda w: w.spec(S, 'dist', *ab), construct='method')
    value_rule(ctx, 'sum', P.method(point, '__add__'), lambda w: w.call(w.pt('A'), '__add__', w.pt('B')), lambda w: Tup(['pt', ab[0] + ab[2], ab[1] + ab[3]], 'seq'))
    value_rule(ctx, 'difference', P.method(point, '__sub__'), lambda w: w.call(w.pt('A'), '__sub__', w.pt('B')), lambda w: Tup(['pt', ab[0] - ab[2], ab[1] - ab[3]], 'seq'))


    # segments
    for cn in ('LineSegment', 'Wall', 'NonWall'):
        try:
            c = P.find_class(cn)
        except AnchorMissing:
            continue
        f = P.method(c, 'isvalid')
        value_rule(ctx, 'valid segment', f, lambda w, c=c: w.attr_or_call(w.new(c), 'isvalid'), lambda w: FALSE, construct=cn + ' without points')
        for label, steps, want in (('two points', '', True), ('start emptied', 'i', False), ('end emptied', 'j', False), ('both emptied', 'ij', False),
                                   ('start emptied and set again', 'iI', True), ('end emptied and set again', 'jJ', True), ('end emptied, start set', 'jI', False), ('both emptied, end set', 'ijJ', False)):
            def make(w, c=c, steps=steps):
                p = {'i': w.pt('A'), 'j': w.pt('B')}
                s = w.new(c, p['i'], p['j'])
                for k in steps:
                    after(w, p[k.lower()], ('_empty',) if k.islower() else ('_set_coords', PAIR))
                return s
            value_rule(ctx, 'valid segment', f, lambda w, make=make: w.attr_or_call(make(w), 'isvalid'), lambda w, want=want: alg.b_const(want), construct='%s, %s' % (cn, label))
            if not want:
                value_rule(ctx, 'invalid segments differ', P.method(c, '__eq__'), lambda w, make=make: w.call(make(w), '__eq__', make(w)), lambda w: FALSE, construct='%s, %s' % (cn, label))
                value_rule(ctx, 'invalid segments differ', P.method(c, 'loose_equal'), lambda w, make=make: w.call(make(w), 'loose_equal', make(w)), lambda w: FALSE, construct='%s, %s, loosely' % (cn, label))
    for label, ps, ok in (('two points', 'ab', True), ('first without coordinates', '-b', False), ('second without coordinates', 'a-', False), ('both without coordinates', '--', False)):
        def sete(w, ps=ps):
            s = w.seg('s')
            w.call(s, '_set_endpoints', Tup([w.new(point) if k == '-' else w.pt(k.upper()) for k in ps], 'seq'))
            return s
        value_rule(ctx, 'new ends', P.method(seg, '_set_endpoints'), sete, lambda w: Tup(['seg', Tup(['pt', ab[0], ab[1]], 'seq'), Tup(['pt', ab[2], ab[3]], 'seq')], 'seq') if True else None,
                   raises=None if ok else lambda w: TRUE, construct=label)
    # polygon lines
    f = P.method(pl, 'isvalid')
    for label, chains, cont in (('open', ['ABCD'], True), ('closed', ['ABCDA'], True), ('triangle', ['ABCA'], True), ('one segment', ['AB'], True), ('gap', ['AB', 'CD'], False), ('second reversed', ['AB', 'CB', 'CD'], False),
                                ('gap at the end', ['ABC', 'DE'], False), ('no segments', [], False)):
        for broken in (None, 0, -1):
            if broken is not None and not chains:
                continue

            def build(w, chains=chains, broken=broken):
                pts = {n: w.pt(n) for n in 'ABCDE'}
                segs = [w.new(seg, pts[x], pts[y]) for ch in chains for x, y in zip(ch, ch[1:])]
                w.ids = {s.id: i for i, s in enumerate(segs)}
                p = w.new(pl, w.ip.mklist(w.st, segs))
                if broken is not None:
                    w.call(pts[chains[broken][broken]], '_empty')
                return w.attr_or_call(p, 'isvalid')
            n = sum(len(ch) - 1 for ch in chains)

            def world():
                def cross(ip, st, fn, a, k):
                    o = a[1] if len(a) > 1 else list(k.values())[0]
                    x, y = sorted((w.ids[a[0].id], w.ids[o.id]))
                    return bsym('crossing %d %d' % (x, y))
                w = World(ctx, {('LineSegment', 'intersection_on_segment'): cross}, (), True)
                return w

            def want(w, n=n, cont=cont, broken=broken):
                if not cont or broken is not None:
                    return FALSE
                return alg.b_and(*[alg.b_not(bsym('crossing %d %d' % (x, y))) for x in range(n) for y in range(x + 1, n)])
            value_rule(ctx, 'valid line', f, build, want, world=world, construct='%s%s' % (label, '' if broken is None else ', %s vertex emptied' % ('first' if broken == 0 else 'last')))


PROPS['P35'] = (validity, 'value numbering of the point queries after every way to obtain coordinates', 'points of three coordinates and non-numbers are outside')

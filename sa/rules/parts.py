# -*- coding: utf-8 -*-
"""Vessel parts: contours, graphs, reference points, construction from dictionaries."""
from ..core import *

HT = 'SR_Vessel.SR_hauptteile'
G = 'geometry.SR_polygon'
PGM = 'geometry.SR_polygon_group'
POS = ('a', 'd', 'd0', 'd1', 'h', 'h1', 'r')
PARTS = {
    'Mantel': dict(d='pair', h='h'), 'StandZarge': dict(d='pair', h='h'), 'Flachboden': dict(d='d'), 'RaumEnde': dict(d='d'),
    'Klopperboden': dict(d='d', h1='h1', orient='o'), 'Korbbogenboden': dict(d='d', h1='h1', orient='o'),
}
V, U, H, H1, D, D0, D1 = [sym(x) for x in ('v', 'u', 'h', 'h1', 'd', 'd0', 'd1')]


def args_of(cls, orient=1):
    kw = {'name': 'T', 'pos_v': V, 'pos_h': U}
    for k, t in PARTS[cls].items():
        kw[k] = {'pair': Tup([D0, D1]), 'h': H, 'd': D, 'h1': H1, 'o': num(orient)}[t]
    return kw


def part(w, cls, orient=1):
    return w.new(w.P.cls(HT, cls), **args_of(cls, orient))


NOPTS = {('Graph', 'add_intex_points'): lambda ip, st, fn, a, k: None}


def pt(x, y):
    return Tup(['pt', x, y])


def seg(kind, a, b):
    return Tup([kind, pt(*a), pt(*b)])


def shell_corners():
    two = num(2)
    return [(U + D0 / two, V), (U + D1 / two, V + H), (U - D1 / two, V + H), (U - D0 / two, V)]


def classes(ctx):
    return [c for c in PARTS]


# ------------------------------------------------------------------ P13
def contours(ctx):
    P = ctx.P
    c = shell_corners()
    shell = [seg('Wall', c[0], c[1]), seg('NonWall', c[1], c[2]), seg('Wall', c[2], c[3]), seg('NonWall', c[3], c[0])]
    skirt = shell[:3] + [seg('Wall', c[3], c[0])]
    flat = [seg('Wall', (U - D / num(2), V), (U + D / num(2), V))]
    for cls, want in (('Mantel', shell), ('StandZarge', skirt), ('Flachboden', flat), ('RaumEnde', flat)):
        a = P.method(P.cls(HT, cls), '__init__')
        value_rule(ctx, 'contour', a, lambda w, cls=cls: w.get(part(w, cls), 'segments'), lambda w, want=want: Tup(want), kinds=True,
                   intercepts=NOPTS, positive=POS, generic=True, construct=cls)
        walls = [x for x in want if x.pieces[0] == 'Wall']
        value_rule(ctx, 'walls', a, lambda w, cls=cls: w.attr_or_call(part(w, cls), 'wall_segments'), lambda w, walls=walls: Tup(walls), kinds=True,
                   intercepts=NOPTS, positive=POS, generic=True, construct=cls + ' walls')
        non = [x for x in want if x.pieces[0] != 'Wall']
        value_rule(ctx, 'walls', a, lambda w, cls=cls: w.attr_or_call(part(w, cls), 'nonwall_segments'), lambda w, non=non: Tup(non), kinds=True,
                   intercepts=NOPTS, positive=POS, generic=True, construct=cls + ' other edges')
    half = {'Mantel': lambda: alg.minmax('min', [D0, D1]) / num(2), 'StandZarge': lambda: alg.minmax('min', [D0, D1]) / num(2),
            'Flachboden': lambda: D / num(2), 'Klopperboden': lambda: D / num(2), 'Korbbogenboden': lambda: D / num(2)}
    for cls, f in half.items():
        value_rule(ctx, 'characteristic size', P.method(P.cls(HT, cls), 'characteristic_size'),
                   lambda w, cls=cls: w.attr_or_call(part(w, cls), 'characteristic_size'), lambda w, f=f: f(), intercepts=NOPTS,
                   positive=POS, generic=True, construct=cls)
    adjacency(ctx)


def adjacency(ctx):
    """neighbouring edges of a contour share their vertex as one object"""
    P = ctx.P
    for cls in ('Mantel', 'StandZarge', 'Klopperboden', 'Korbbogenboden'):
        a = P.method(P.cls(HT, cls), '__init__')

        def go(cls=cls, a=a):
            w = World(ctx, NOPTS, POS, True)
            p = part(w, cls)
            ctx.calls |= w.ip.calls
            ends = []
            for s in w.ip.items(w.st, w.get(p, 'segments')):
                ends.append((w.get(s, 'i'), w.get(s, 'j')))
            bad = [k for k in range(len(ends)) if ends[k][1] != ends[(k + 1) % len(ends)][0]]
            if any(not isinstance(x, Ref) for e in ends for x in e):
                raise Undecided('end points are not objects')
            if bad:
                raise Undecided('corners not shown identical')
            else:
                ctx.ok('shared corners', ctx.where(a), '%d edges share corners' % len(ends), cls + ' corners')
        ctx.guard('shared corners', ctx.where(a), go, cls + ' corners')


# ------------------------------------------------------------------ P14


def dish_vertices(cls):
    """vertices of a dished end above its tangent line, right to left, in local coordinates"""
    r1, r2 = {'Klopperboden': (num(1) * D, D / num(10)), 'Korbbogenboden': (num(8) * D / num(10), num(154) * D / num(1000))}[cls]
    h = alg.sqrt_((r1 - r2) ** 2 - (D / num(2) - r2) ** 2)
    alpha = alg.acos_(h / (r1 - r2))                # radians
    half = alg.pi_() / num(2)
    out = [(D / num(2), num(0)), (D / num(2), H1)]

    def at(cx, cy, r, start, k, n, end):
        v = (end - start) * num(k) / num(n)
        cu, su, cv, sv = alg.cos_(start), alg.sin_(start), alg.cos_(v), alg.sin_(v)
        return cx + r * (cu * cv - su * sv), cy + r * (su * cv + cu * sv)
    cx, cy = (r1 - r2) * alg.sin_(alpha), H1 - h + (r1 - r2) * alg.cos_(alpha)
    for k in range(1, 4):
        out.append(at(cx, cy, r2, num(0), k, 3, half - alpha))
    for k in range(1, 9):
        out.append(at(num(0), H1 - h, r1, half - alpha, k, 8, half + alpha))
    for k in range(1, 4):
        out.append(at(-cx, cy, r2, half + alpha, k, 3, alg.pi_()))
    out.append((-D / num(2), num(0)))
    return out


def dished(ctx):
    P = ctx.P
    for cls in ('Klopperboden', 'Korbbogenboden'):
        a = P.method(P.cls(HT, 'TorispherischesBoden'), '__init__')
        for o in (1, -1):
            where = ctx.where(a)
            label = '%s %s' % (cls, 'up' if o == 1 else 'down')

            def go(cls=cls, o=o, where=where, label=label):
                w = World(ctx, NOPTS, POS, True)
                p = part(w, cls, o)
                ctx.calls |= w.ip.calls
                got = w.plain(w.get(p, 'segments'), True).pieces
                vs = dish_vertices(cls)
                n = len(vs)
                want = []
                for i in range(n):
                    q = [(U + num(o) * x, V + num(o) * y) for x, y in (vs[i], vs[(i + 1) % n])]
                    if i == n - 1 and o == -1 and False:
                        q = q[::-1]
                    want.append(seg('NonWall' if i == n - 1 else 'Wall', *q))
                if len(got) != n:
                    ctx.bad('dished end', where, '%d segments instead of %d' % (len(got), n), label)
                    return
                for i in range(n):
                    try:
                        compare(ctx, got[i], want[i])
                    except Differ as e:
                        ctx.bad('dished end', where, 'segment %d: %s %s' % (i, e.path, e.detail), '%s segment %d' % (label, i))
                    except Undecided as e:
                        ctx.und('dished end', where, 'segment %d: %s' % (i, str(e)[:300]), '%s segment %d' % (label, i))
                    else:
                        ctx.ok('dished end', where, 'segment %d' % i, '%s segment %d' % (label, i))
            ctx.guard('dished end', where, go, label)


# ------------------------------------------------------------------ P15
def graphs(ctx):
    P = ctx.P
    two = num(2)
    c = shell_corners()
    shell = [seg('Wall', c[0], c[1]), seg('Wall', c[2], c[3])]
    skirt = shell + [seg('Wall', c[3], c[0])]
    flat = [seg('Wall', (U - D / two, V), (U + D / two, V))]
    gm = P.method(P.cls(PGM, 'Graph'), '__init__')

    def roof(o):
        top = V + num(o) * alg.minmax('max', [num(1) / num(10), D / num(1000)])
        return [seg('Wall', (U - D / two, V), (U, top)), seg('Wall', (U, top), (U + D / two, V))]
    rows = [('Mantel', 1, shell), ('StandZarge', 1, skirt), ('Flachboden', 1, flat), ('RaumEnde', 1, flat)]
    rows += [(k, o, roof(o)) for k in ('Klopperboden', 'Korbbogenboden') for o in (1, -1)]
    for cls, o, want in rows:
        value_rule(ctx, 'graph', gm, lambda w, cls=cls, o=o: w.get(w.get(part(w, cls, o), 'graph'), 'segments'), lambda w, want=want: Tup(want),
                   kinds=True, intercepts=NOPTS, positive=POS, generic=True, construct='%s %d' % (cls, o))
        value_rule(ctx, 'graph part', gm, lambda w, cls=cls, o=o: _owner(w, cls, o), lambda w: TRUE, intercepts=NOPTS, positive=POS, generic=True,
                   construct='%s %d owner' % (cls, o))
    reference_points(ctx)


def _owner(w, cls, o):
    p = part(w, cls, o)
    g = w.get(p, 'graph')
    q = w.get(g, 'hauptteil')
    if not isinstance(q, Ref) or not isinstance(p, Ref):
        raise Undecided('not objects')
    return alg.b_const(q == p)


def reference_points(ctx):
    """every wall of a graph has its reference points on the right sides"""
    P = ctx.P
    gm = P.method(P.cls(PGM, 'Graph'), 'add_intex_points')
    where = ctx.where(gm)

    def holds(w, cond, detail, construct):
        cond_rule(ctx, 'reference points', where, cond, detail, construct)

    def by_segment(w, g, kind):
        out = {}
        segs = w.ip.items(w.st, w.get(g, 'segments'))
        for q in w.ip.items(w.st, w.get(g, kind)):
            s = w.get(q, 'segment')
            hit = [k for k, x in enumerate(segs) if x == s]
            if len(hit) != 1 or not isinstance(s, Ref):
                raise Undecided('segment of a reference point')
            out.setdefault(hit[0], []).append((w.ip.asnum(w.get(q, 'x')), w.ip.asnum(w.get(q, 'y'))))
        return segs, out

    def strictly_between(a, x, b):
        return alg.b_or(alg.b_and(alg.lt(a, x), alg.lt(x, b)), alg.b_and(alg.lt(b, x), alg.lt(x, a)))

    for cls in ('Klopperboden', 'Korbbogenboden'):
        for o in (1, -1):
            def go(cls=cls, o=o):
                label = '%s %d' % (cls, o)
                w = World(ctx, {}, POS, True)
                g = w.get(part(w, cls, o), 'graph')
                ctx.calls |= w.ip.calls
                for kind, n, below in (('internal', 2, True), ('external', 1, False)):
                    segs, pts = by_segment(w, g, kind)
                    for k, s in enumerate(segs):
                        if len(pts.get(k, [])) == 0:
                            ctx.bad('reference points', where, '%s: no %s reference point for segment %d' % (label, kind, k), '%s %s %d' % (label, kind, k))
                            continue
                        ax, ay, bx, by = [w.ip.asnum(w.get(w.get(s, e), t)) for e in 'ij' for t in 'xy']
                        for m, (x, y) in enumerate(pts[k]):
                            cname = '%s %s %d.%d' % (label, kind, k, m)
                            holds(w, strictly_between(ax, x, bx), '%s: between the ends of its segment' % cname, cname + ' x')
                            line = ay * (bx - ax) + (by - ay) * (x - ax)      # height of the segment at x, times (bx - ax) > 0
                            dy = (y * (bx - ax) - line) * num(o)
                            holds(w, alg.lt(dy, num(0)) if below else alg.lt(num(0), dy), '%s: on the right side' % cname, cname + ' side')
                            if below:
                                holds(w, alg.lt(num(0), (y - V) * num(o)), '%s: beyond the tangent line' % cname, cname + ' base')
                if w.ip.items(w.st, w.get(g, 'indifferent')):
                    ctx.bad('reference points', where, '%s: has indifferent points' % label, label + ' indifferent')
            ctx.guard('reference points', where, go, '%s %d' % (cls, o))

    def flat(cls, n):
        w = World(ctx, {}, POS, True)
        g = w.get(part(w, cls), 'graph')
        ctx.calls |= w.ip.calls
        for kind in ('internal', 'external'):
            if w.ip.items(w.st, w.get(g, kind)):
                ctx.bad('reference points', where, '%s: has %s points' % (cls, kind), '%s %s' % (cls, kind))
            else:
                ctx.ok('reference points', where, '%s: no %s points' % (cls, kind), '%s %s' % (cls, kind))
        segs, pts = by_segment(w, g, 'indifferent')
        got = pts.get(0, [])
        if len(got) != n:
            ctx.bad('reference points', where, '%s: %d indifferent points' % (cls, len(got)), cls + ' number')
            return
        if n:
            (x1, y1), (x2, y2) = got
            holds(w, alg.b_and(alg.eq(x1, U), alg.eq(x2, U)), '%s: on the axis' % cls, cls + ' axis')
            holds(w, alg.b_or(alg.b_and(alg.lt(y1, V), alg.lt(V, y2)), alg.b_and(alg.lt(y2, V), alg.lt(V, y1))), '%s: one above, one below' % cls, cls + ' sides')
        else:
            ctx.ok('reference points', where, '%s: none' % cls, cls + ' number')
    ctx.guard('reference points', where, lambda: flat('Flachboden', 2), 'Flachboden')
    ctx.guard('reference points', where, lambda: flat('RaumEnde', 0), 'RaumEnde')

    # a shell: next to both ends of every wall, one point on each side, classified as the shell itself says
    for inside in (TRUE, FALSE):
        def go(inside=inside):
            w = World(ctx, {('PolygonLine', 'is_internal_point'): lambda ip, st, fn, a, k: inside}, POS, True)
            g = w.get(part(w, 'Mantel'), 'graph')
            ctx.calls |= w.ip.calls
            label = 'Mantel %s' % ('inside' if inside is TRUE else 'outside')
            full, empty = ('internal', 'external') if inside is TRUE else ('external', 'internal')
            if w.ip.items(w.st, w.get(g, empty)):
                ctx.bad('reference points', where, '%s: recorded as %s' % (label, empty), label + ' kind')
                return
            segs, pts = by_segment(w, g, full)
            for k, s in enumerate(segs):
                got = pts.get(k, [])
                if len(got) != 4:
                    ctx.bad('reference points', where, '%s: %d points for wall %d' % (label, len(got), k), '%s wall %d' % (label, k))
                    continue
                ax, ay, bx, by = [w.ip.asnum(w.get(w.get(s, e), t)) for e in 'ij' for t in 'xy']
                sides = []
                for x, y in got:
                    # a point of the wall at the same height: t = (y - ay) / (by - ay)
                    t = (y - ay) / (by - ay)
                    dx = x - (ax + t * (bx - ax))
                    holds(w, alg.b_and(alg.lt(num(0), t), alg.lt(t, num(1))), '%s: level with its wall' % label, '%s wall %d level' % (label, k))
                    sides.append(dx)
                holds(w, alg.b_not(alg.eq(sides[0], num(0))), '%s: off the wall' % label, '%s wall %d off' % (label, k))
                for i, j in ((0, 1), (2, 3)):
                    compare_ok(ctx, where, sides[i] + sides[j], num(0), '%s: both sides at equal distance' % label, '%s wall %d pair %d' % (label, k, i))
        ctx.guard('reference points', where, go, 'Mantel %s' % inside)


def compare_ok(ctx, where, got, want, detail, construct):
    try:
        compare(ctx, got, want)
    except Differ as e:
        ctx.bad('reference points', where, '%s: %s' % (detail, e.detail), construct)
    except Undecided as e:
        ctx.und('reference points', where, '%s: %s' % (detail, e), construct)
    else:
        ctx.ok('reference points', where, detail, construct)


# ------------------------------------------------------------------ P16
def from_dict(ctx):
    P = ctx.P
    for cls in PARTS:
        f = P.method(P.cls(HT, cls), 'from_dict')
        keys = ['name', 'pos_v', 'pos_h'] + list(PARTS[cls])

        def dic(w, cls=cls, drop=None, extra=None):
            kw = args_of(cls)
            kw['name'] = sym('name')
            items = [(k, x) for k, x in kw.items() if k != drop]
            if extra:
                items.append((extra, num(1)))
            return w.ip.mkdict(w.st, items)

        def build(w, cls=cls, dic=dic):
            c = P.cls(HT, cls)
            p = w.ip.call(w.st, w.ip.getattr(w.st, c, 'from_dict', None), [dic(w)], {})
            if not isinstance(p, Ref):
                raise Undecided('not an object')
            kls = w.st.heap[p.id].cls
            return Tup([kls.name] + [w.get(p, k) for k in keys] + [w.get(p, 'segments')])

        def want(w, cls=cls):
            kw = args_of(cls)
            kw['name'] = sym('name')
            p = w.new(P.cls(HT, cls), **kw)
            return Tup([cls] + [kw[k] for k in keys] + [w.get(p, 'segments')])
        value_rule(ctx, 'from dict', f, build, want, kinds=True, intercepts=NOPTS, positive=POS, generic=True, construct=cls)
        # every value as given, zero and negative ones included: fields only, the outline left out
        none = {(k.name, 'make_segments'): lambda ip, st, fn, a, kk: ip.mklist(st, []) for k in P.cls(HT, cls).mro}
        none[('Graph', '__init__')] = none[('PolygonLine', 'purge')] = lambda ip, st, fn, a, kk: None
        none.update(NOPTS)
        for given in ('positive', 'any', 'zero'):
            def val(k, given=given):
                x = args_of(cls)[k] if k != 'name' else sym('name')
                if given == 'zero' and isinstance(x, Num):
                    return num(0)
                return x

            def build3(w, cls=cls, val=val):
                c = P.cls(HT, cls)
                try:
                    p = w.ip.call(w.st, w.ip.getattr(w.st, c, 'from_dict', None), [w.ip.mkdict(w.st, [(k, val(k)) for k in keys])], {})
                except PyRaise as e:
                    raise Undecided('refused without outline: %s' % e.msg)
                return Tup([w.get(p, k) for k in keys])
            if given != 'positive':
                value_rule(ctx, 'from dict fields', f, build3, lambda w, val=val: Tup([val(k) for k in keys]), intercepts=none,
                           construct='%s %s' % (cls, given))
        # a missing key is refused, and so is an unknown one
        for drop in keys:
            def go(cls=cls, drop=drop, dic=dic, f=f):
                w = World(ctx, NOPTS, POS, True)
                try:
                    w.ip.call(w.st, w.ip.getattr(w.st, P.cls(HT, cls), 'from_dict', None), [dic(w, drop=drop)], {})
                except PyRaise as e:
                    ctx.ok('missing key', ctx.where(f), '%s without %s: %s' % (cls, drop, e.name), '%s %s' % (cls, drop))
                    return
                rs = w.raises
                if any(c.isconst and c.value for c, e in rs):
                    ctx.ok('missing key', ctx.where(f), '%s without %s' % (cls, drop), '%s %s' % (cls, drop))
                    return
                ctx.bad('missing key', ctx.where(f), '%s accepts a dictionary without %s' % (cls, drop), '%s %s' % (cls, drop))
            ctx.guard('missing key', ctx.where(f), go, '%s %s' % (cls, drop))

        def go2(cls=cls, dic=dic, f=f):
            w = World(ctx, NOPTS, POS, True)
            try:
                w.ip.call(w.st, w.ip.getattr(w.st, P.cls(HT, cls), 'from_dict', None), [dic(w, extra='no_such_attribute')], {})
            except PyRaise as e:
                ctx.ok('unknown key', ctx.where(f), '%s: %s' % (cls, e.name), cls + ' unknown')
                return
            if any(c.isconst and c.value for c, e in w.raises):
                ctx.ok('unknown key', ctx.where(f), cls, cls + ' unknown')
                return
            ctx.bad('unknown key', ctx.where(f), '%s accepts a dictionary with an unknown key' % cls, cls + ' unknown')
        ctx.guard('unknown key', ctx.where(f), go2, cls + ' unknown')


PROPS = {
    'P13': (contours, 'value numbering of the part constructors; contour, wall kinds and characteristic size compared', 'exact reals; positive diameters and heights'),
    'P14': (dished, 'value numbering of the dished end construction; vertices compared with the torispherical contour', 'exact reals; positive diameters'),
    'P15': (graphs, 'value numbering of graph construction; side conditions of the reference points decided on normal forms', 'exact reals; positive sizes'),
    'P16': (from_dict, 'value numbering of from_dict on dictionaries with symbolic values, complete, incomplete and with an unknown key', 'exact reals; positive sizes'),
}

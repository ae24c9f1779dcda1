# -*- coding: utf-8 -*-
"""
Rules on what operations do to objects: which they write, what results share, when derived information is dropped.
Decided by the points-to / effect / typestate analysis in sa/effects.py.
"""
import ast
import os
import time

from .. import effects
from ..effects import BM, Const, Lab, EMPTYV, FALSE_, NONE_, SC, TRUE_
from ..model import AnchorMissing, Cls, Func

WORLD = '''
def world():
    x = float(input())
    p = Point((x, x))
    q = Point((x, x))
    s = LineSegment(Point((x, x)), Point((x, x)))
    t = LineSegment(Point((x, x)), Point((x, x)))
    a = Point((x, x))
    b = Point((x, x))
    c = Point((x, x))
    pl = PolygonLine([LineSegment(a, b), LineSegment(b, c), LineSegment(c, a)])
    pl.add_internal_point(p, s)
    pl.add_external_point(p, s)
    pl.triangulate()
    ol = PolygonLine([LineSegment(Point((x, x)), Point((x, x))), LineSegment(Point((x, x)), Point((x, x)))])
    segs = [LineSegment(Point((x, x)), Point((x, x))), LineSegment(Point((x, x)), Point((x, x)))]
    pts = [Point((x, x)), Point((x, x))]
    nodes = [(x, x), (x, x)]
    lines = [PolygonLine([LineSegment(Point((x, x)), Point((x, x)))]), PolygonLine([LineSegment(Point((x, x)), Point((x, x)))])]
    tri = Triangle([LineSegment(Point((x, x)), Point((x, x))), LineSegment(Point((x, x)), Point((x, x)))])
    tri2 = Triangle([LineSegment(Point((x, x)), Point((x, x))), LineSegment(Point((x, x)), Point((x, x)))])
'''
PARTS = '''
    m1 = Mantel(name='m', pos_v=x, pos_h=x, d=(x, x), h=x)
    ho = Mantel(name='m', pos_v=x, pos_h=x, d=(x, x), h=x)
    kg = Mantel(name='m', pos_v=x, pos_h=x, d=(x, x), h=x)
    hts = [ho]
'''
MORE = '''
    kb = Klopperboden(name='m', pos_v=x, pos_h=x, d=x, h1=x, orient=1)
    fb = Flachboden(name='m', pos_v=x, pos_h=x, d=x)
'''
REND = '''
    re = RaumEnde(name='m', pos_v=x, pos_h=x, d=x)
'''
VESSEL = '''
    beh = Behalter([m1, kb, fb, re])
    raum = beh.raume[0]
'''
CAP = '''
    kk = KegelKrempe(name='m', h_non_kegelside=x, h_kegelside=x, r=x, hts=hts, kegel=kg)
'''
ADICT = {'Mantel': 'pos_v pos_h d h', 'Klopperboden': 'pos_v pos_h d h1 orient', 'Flachboden': 'pos_v pos_h d'}

# what may be written by a question: results kept for later
MEMO = {'_triangles', '_cycles', 'plot_style', 'raume', 'purged'}

QUERIES = {
    'points': '''p-q; p+q; p.__eq__(q); p.__ne__(q); p.__hash__(); p.__str__(); p.__repr__(); p.distance(q); distance(p, q); p.bounding_box(); p._isempty()''',
    'segments': '''s.__eq__(t); s.__ne__(t); s.__hash__(); s.__repr__(); s.__str__(); s.loose_equal(t); s.crossproduct(t); s.dotproduct(t); s.isnull();
        s.is_internal_point(p); s.is_point_on_line(p); s.is_point_to_right(p); s.is_point_to_left(p); s.opposite_direction(t); s.is_parallel(t);
        s.is_intersecting(t); s.line_point_distance(p); s.continuous(t); s.touch(t); s.overlap(t); s.intersection_point(t); s.common_part(t);
        s.common_part_type(t); s.is_collinear(t); s.intersection_on_endpoint(t); s.intersection_on_segment(t); s.angle_between_lines(t);
        s.angle_from_start_point(p); s.crossproduct_commonstart(t); point_on_line_at_ratio(s, x); divide_line(s, x); add_point_on_line(s, p);
        sphere_line_intersection(p, q, x)''',
    'polygon lines': '''pl.__eq__(ol); pl.__ne__(ol); pl.__hash__(); pl.__repr__(); pl.loose_subset(ol); pl.loose_equal(ol); pl.loose_equal(ol, True);
        pl.neighbour(p); pl.find_segment_by_point(p); pl.find_segment_by_point(p, 'both'); pl.disjunct(ol); pl.ordered_copy(); pl.closed_copy();
        ol.closed_copy(); pl.is_internal_point(p); pl.is_external_point(p); pl.is_on_boundary(p); pl.bounding_box(); pl.next_segment(s);
        pl.triangulate(); pl.triangle_mesh(); pl.ear_clipping(); pl.triangulate('ear clipping'); pl.plot(); pl.plot_triangulation()''',
    'triangles': '''tri.congruent(tri2); tri.enclosed(tri2); tri.overlap(tri2); tri.touch(tri2); tri.disjunct(tri2); tri.tell_relpos(tri2)''',
    'functions': '''remove_collinear_points(pl); remove_outlier_segments(segs); intersecting_lines(segs); convex_hull(nodes); add(pl, ol);
        walk_segments(segs, p); segments_from_pointset(pts); polygon_from_nodes(nodes); polygon_from_nodes(nodes, True); rotationsmatrix(x); arc(p, x); square(x, x, x)''',
    'parts': '''fb.is_internal_point(p)''',
    'groups': '''beh.polygon_from_repr(x); beh.name_from_repr(x); beh.segments_from_points(x); beh.as_adjacency_list(); beh.find_loops(); beh.node_degree();
        beh.raum_intex(); raum.graph_as_polygon(); beh.plot()''',
}
OBJECTS = (('p', 'Point'), ('s', 'LineSegment'), ('pl', 'PolygonLine'), ('tri', 'Triangle'), ('m1', 'Mantel'), ('kb', 'Klopperboden'), ('fb', 'Flachboden'),
           ('re', 'RaumEnde'), ('kk', 'KegelKrempe'), ('beh', 'Behalter'), ('raum', 'Raum'))
# properties that construct the object they belong to
CONSTRUCTING = {'make_segments'}


class World(object):
    def __init__(self, ctx, src, preserving=(), depth=2):
        self.ctx = ctx
        self.E = effects.Engine(ctx.P, depth)
        self.w = self.E.setup(src)
        self.E.preserving = set(preserving)
        for f in self.E.funcs:
            ctx.functions.add(f.id)

    def missing(self, root):
        """a public name of the root the code under analysis does not have"""
        tree = ast.parse(root)
        E = self.E
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in self.w and n.id not in effects_builtins() \
                    and n.id not in {t.id for t in ast.walk(tree) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)} \
                    and self.E.wmod.env.get(n.id) is None:
                return n.id
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in self.w:
                ks = [l.kind for l in self.w[n.value.id] if isinstance(l, Lab) and isinstance(l.kind, Cls)]
                if ks and not any(k.lookup(n.attr) is not None for k in ks) and not any((l, n.attr) in E.snapshot for l in self.w[n.value.id]) and isinstance(n.ctx, ast.Load):
                    return n.attr
        return None

    def run(self, root, watch=None, keep=False):
        v = self.E.run(root, watch, keep)
        for f in self.E.funcs:
            self.ctx.functions.add(f.id)
        self.ctx.sites += self.E.calls
        return v

    def labels(self, expr):
        return {l for l in self.run(expr) if isinstance(l, Lab)}

    def constituents(self, labels, skip=()):
        """old labels that make up the given objects, not counting kept results"""
        E, seen, todo = self.E, set(), list(labels)
        while todo:
            x = todo.pop()
            if isinstance(x, BM):
                x = x.recv
            if not isinstance(x, Lab) or x in seen:
                continue
            seen.add(x)
            for f in E.fieldidx.get(x, ()):
                if f not in skip:
                    todo.extend(E.heap[(x, f)])
        return seen


def effects_builtins():
    import builtins
    return set(dir(builtins))


def mutable(l):
    return isinstance(l, Lab) and l.kind not in ('tuple', 'gen', 'module', 'class')


def cached_names(P):
    out = set()
    for c in P.classes():
        for n, f in c.own.items():
            if isinstance(f, Func) and f.kind == 'cached':
                out.add(n)
    return out


def construct_of(e):
    return '%s writes %s of %s' % (e.func.qual, 'the content' if e.field == '*' else e.field, e.lab.name)


def definition_time(l):
    return bool(l.ctx) and l.ctx[0] in ('default', 'global', 'class') or l.kind in ('module', 'class')


# ---------------------------------------------------------------------- P01
def queries(ctx):
    P = ctx.P
    w = World(ctx, WORLD + PARTS + MORE + REND + VESSEL + CAP, depth=3)
    E = w.E
    memo = MEMO | cached_names(P)
    solid = w.constituents([l for v in E.world.values() for l in v], skip=memo) if setheap(E) else set()
    roots = []
    for o, cname in OBJECTS:
        cls = next((l.kind for l in w.w.get(o, ()) if isinstance(l, Lab) and isinstance(l.kind, Cls)), None)
        if cls is None:
            continue
        done = set()
        base = P.classes()
        for k in cls.mro:
            for n, f in k.own.items():
                if isinstance(f, Func) and f.kind in ('property', 'cached') and n not in done and n not in CONSTRUCTING and not n.startswith('@'):
                    done.add(n)
                    inherited = o in ('m1', 'kb', 'fb', 're', 'kk', 'tri') and k.name == 'PolygonLine'
                    if ctx.tier == 'quick' and inherited and o != 'm1':
                        continue
                    roots.append((cname, '%s.%s' % (o, n)))
    for g, text in QUERIES.items():
        for r in text.replace('\n', ' ').split(';'):
            roots.append((g, r.strip()))
    for g, r in roots:
        miss = w.missing(r)
        if miss:
            ctx.und('query', g, '%s: no %s' % (r, miss), r)
            continue

        def go(g=g, r=r):
            before = set(E.effects)
            t0 = time.time()
            w.run(r, keep=True)
            if os.environ.get('SA_DEBUG'):
                print('%6.1f %s' % (time.time() - t0, r))
            bad = {}
            new = [e for k, e in E.effects.items() if k not in before]
            for e in new:
                if isinstance(e.lab.kind, Cls):
                    if e.field in memo:
                        continue
                    was = E.snapshot.get((e.lab, e.field))
                    if was is None or was <= frozenset([NONE_, TRUE_, FALSE_]):
                        continue            # something remembered for later
                elif e.lab not in solid and not definition_time(e.lab):
                    continue
                bad.setdefault(construct_of(e), e)
            for k, e in bad.items():
                ctx.bad('query', '%s:%d %s' % (os.path.relpath(e.path, P.root), e.line, e.func.qual),
                        'asking %s changes an object that existed before: %s' % (r, k), k)
            if not bad:
                ctx.ok('query', g, '%s: %d functions, writes to existing objects: %d, all of them kept results' % (r, len(E.funcs), len(new)), r)
        ctx.guard('query', g, go, r)
    selftest(ctx)


def setheap(E):
    E.heap = dict(E.snapshot)
    E.fieldidx = {}
    for (l, f) in E.heap:
        E.fieldidx.setdefault(l, set()).add(f)
    return True


SELF = '''
def broken_query(pl):
    pl.segments.sort()
    return len(pl.segments)
def broken_copy(pl):
    return PolygonLine(pl.segments)
'''


def selftest(ctx):
    """the rule fires on a query that does sort the segments in place"""
    E = effects.Engine(ctx.P)
    E.setup(WORLD.split('    ol =')[0] + SELF)
    E.run('broken_query(pl)')
    hit = [e for e in E.effects.values() if e.func.name == 'broken_query']
    if not hit:
        raise RuntimeError('self-test: an in-place sort is not seen')
    ctx.notes.append('self-test: in-place sort of the segments seen as %s' % construct_of(hit[0]))


# ---------------------------------------------------------------------- P02
COPIES = '''pl.ordered_copy(); pl.closed_copy(); ol.closed_copy(); remove_collinear_points(pl); p+q; p-q; polygon_from_nodes(nodes); polygon_from_nodes(nodes, True); add(pl, ol); convex_hull(nodes);
    square(x, x, x); arc(p, x)'''
# the result may hold the given segments, but not the caller's list
HOLDERS = (('PolygonLine(segs)', 'segs'), ('Triangle(segs)', 'segs'), ('PolygonGroup(lines)', 'lines'), ('remove_outlier_segments(segs)', 'segs'),
           ('segments_from_pointset(pts)', 'pts'), ('convex_hull(nodes)', 'nodes'), ('intersecting_lines(segs)', 'segs'), ('walk_segments(segs, p)', 'segs'))
MUTATIONS = '''LineSegment().move(x, x); PolygonLine().move(x, x); Point(); p._set_coords((x, x)); s.move(x, x); s.reverse(); s.mirror_vertical(x); pl.move(x, x); pl.rotate_about_origin(x); pl.mirror_vertical(x);
    pl.rotate_about_xy(x, x, x); pl.append_point_at_end(p); pl.append_point_at_beginning(p); ol.close(); pl.order(); pl.purge(); pl.add_internal_point(p, s);
    pl.add_external_point(p, s); pl.add_indifferent_point(p, s); simplify(pl); PolygonLine(); PolygonLine(segs); Triangle(segs); LineSegment(p, q); PolygonGroup(lines); square(x, x, x); arc(p, x);
    Mantel(name='n', pos_v=x, pos_h=x, d=(x, x), h=x); Klopperboden(name='n', pos_v=x, pos_h=x, d=x, h1=x, orient=1); Korbbogenboden(name='n', pos_v=x, pos_h=x, d=x, h1=x, orient=1);
    Flachboden(name='n', pos_v=x, pos_h=x, d=x); RaumEnde(name='n', pos_v=x, pos_h=x, d=x); StandZarge(name='n', pos_v=x, pos_h=x, d=(x, x), h=x)'''


def independence(ctx):
    P = ctx.P
    w = World(ctx, WORLD)
    E = w.E
    setheap(E)
    world = w.constituents([l for v in E.world.values() for l in v])

    def where(root):
        name = root.split('(')[0].split('.')[-1].strip()
        for f in P.functions():
            if f.name == name:
                return ctx.where(f)
        c = next((c for c in P.classes() if c.name == name), None)
        return ctx.where(c) if c is not None else root

    for r in COPIES.replace('\n', ' ').split(';'):
        r = r.strip()
        miss = w.missing(r)
        if miss:
            ctx.und('copy', r, 'no %s' % miss)
            continue

        def go(r=r):
            v = w.run(r)
            shared = [l for l in E.reach(v) if mutable(l) and l in E.old and l in world]
            if not shared:
                ctx.ok('copy', where(r), '%s: none of %d objects of the result existed before' % (r, len(E.reach(v))), r)
            else:
                ctx.bad('copy', where(r), 'the result of %s shares %s with the original' % (r, ', '.join(sorted({l.name for l in shared}))), r)
        ctx.guard('copy', where(r), go, r)
    for r, arg in HOLDERS:
        miss = w.missing(r)
        if miss:
            ctx.und('aliased list', r, 'no %s' % miss)
            continue

        def go(r=r, arg=arg):
            v = w.run(r)
            lst = {l for l in E.world[arg] if isinstance(l, Lab) and l.kind == 'list'}
            hit = lst & E.reach(v)
            if not hit:
                ctx.ok('aliased list', where(r), r, r)
            else:
                ctx.bad('aliased list', where(r), 'the result of %s keeps the list of the caller' % r, r)
        ctx.guard('aliased list', where(r), go, r)
    # nothing created when a module was loaded (default arguments, class attributes, globals) is written afterwards
    for r in MUTATIONS.replace('\n', ' ').split(';'):
        r = r.strip()
        miss = w.missing(r)
        if miss:
            ctx.und('shared default', r, 'no %s' % miss)
            continue

        def go(r=r):
            w.run(r)
            hit = {}
            for e in E.effects.values():
                if definition_time(e.lab):
                    hit.setdefault(construct_of(e), e)
            for k, e in hit.items():
                ctx.bad('shared default', '%s:%d %s' % (os.path.relpath(e.path, P.root), e.line, e.func.qual),
                        '%s changes an object all calls share: %s' % (r, k), k)
            if not hit:
                ctx.ok('shared default', where(r), '%s: %d writes, none to a default value, class attribute or global' % (r, len(E.effects)), r)
        ctx.guard('shared default', where(r), go, r)
    # definitions whose default values are containers that are written somewhere: positive control
    F = effects.Engine(P)
    F.setup(WORLD.split('    ol =')[0] + '\ndef keep(z, acc=[]):\n    acc.append(z)\n    return acc\ndef broken_copy(pl):\n    r = PolygonLine(pl.segments)\n    return r\n')
    F.run('keep(p)')
    if not any(definition_time(e.lab) for e in F.effects.values()):
        raise RuntimeError('self-test: a mutable default is not seen')
    v = F.run('broken_copy(pl)')
    if not any(l in F.old and mutable(l) for l in F.reach(v)):
        raise RuntimeError('self-test: a shallow copy is not seen')
    ctx.notes.append('self-test: mutable default and shallow copy seen')


# ---------------------------------------------------------------------- P03, P05, P25
class Watch(object):
    """what happens to one polygon line T"""

    def __init__(self, w, T, field):
        self.E, self.T = w.E, T
        self.field = field
        self.cause = {}

    def shape(self, l):
        """is l part of what T looks like?"""
        E = self.E
        seen, todo = set(), list(E.heap.get((self.T, '_segments'), ()))
        while todo:
            x = todo.pop()
            if not isinstance(x, Lab) or x in seen:
                continue
            if x is l:
                return True
            seen.add(x)
            for f in E.fieldidx.get(x, ()):
                if isinstance(x.kind, str) or f not in ('plot_style',):
                    todo.extend(E.heap[(x, f)])
        return False

    def note(self, what, node, fr):
        self.cause.setdefault(what, '%s:%d %s' % (os.path.relpath(fr.module.path, self.E.P.root), getattr(node, 'lineno', 0), fr.func.qual))


class Stale(Watch):
    """F: result consistent with the outline, E: no result, S: result of a former outline"""
    start = 'F'

    def event(self, E, l, field, vals, states, single, preserve, node, fr):
        if l is self.T and field == self.field:
            new = frozenset(['E'])
            return new if single else states | new
        if l in E.heap.get((self.T, self.field), ()) and l.kind == 'set':
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'clear':
                return frozenset(['E'])
            return states | (frozenset(['F']) if 'E' in states else EMPTYV)
        if preserve:
            return states
        if (l is self.T and field == '_segments') or field in ('*', '_coords', '_endpoints') and self.shape(l):
            if 'F' in states:
                self.note('S', node, fr)
                return (states - {'F'} if single or True else states) | {'S'}
        return states


class Merge(Watch):
    """H: the flag is honest, D: points came in after merging and the flag still claims they are merged"""
    start = 'H'

    def __init__(self, w, T, field):
        Watch.__init__(self, w, T, field)
        setheap(w.E)
        self.points = w.constituents(w.E.heap.get((T, '_segments'), ()))

    def event(self, E, l, field, vals, states, single, preserve, node, fr):
        if l is self.T and field == self.field:
            if vals <= frozenset([FALSE_]):
                return frozenset(['H']) if single else states | {'H'}
            if preserve:
                return frozenset(['H']) if single else states | {'H'}
            if vals <= frozenset([TRUE_]):
                self.note('D', node, fr)
                return states | {'D'}
            return states
        if preserve:
            return states
        if (l is self.T and field == '_segments') or field in ('*', '_endpoints') and self.shape(l):
            seen = self.foreign(vals)
            if seen and 'H' in states:
                self.note('D', node, fr)
                return (states - {'H'}) | {'D'}
        return states

    def foreign(self, vals):
        E, seen, todo = self.E, set(), list(vals)
        while todo:
            x = todo.pop()
            if not isinstance(x, Lab) or x in seen:
                continue
            seen.add(x)
            if isinstance(x.kind, Cls) and any(c.name == 'Point' for c in x.kind.mro) and x not in self.points:
                return True
            for f in E.fieldidx.get(x, ()):
                todo.extend(E.heap[(x, f)])
        return False


class Renewed(Watch):
    """C: the reference points are those of the current segments, O: old ones are still among them"""
    start = 'O'

    def event(self, E, l, field, vals, states, single, preserve, node, fr):
        if l is self.T and field == self.field:
            fresh = bool(vals) and all(isinstance(x, Lab) and x not in E.old for x in vals)
            if fresh:
                return frozenset(['C']) if single else states | {'C'}
            return states | {'O'}
        if l in E.heap.get((self.T, self.field), ()) and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) \
                and node.func.attr == 'clear':
            return frozenset(['C'])
        return states


class Follow(Watch):
    """C: the graph was renewed after the last change of the part, O: the part changed since"""
    start = 'C'

    def __init__(self, w, T, graphs):
        Watch.__init__(self, w, T, '_segments')
        self.graphs = graphs

    def event(self, E, l, field, vals, states, single, preserve, node, fr):
        if field == '_segments' and l in self.graphs or l is self.T and field == '_graph':
            return frozenset(['C']) if single or len(self.graphs) == 1 else states | {'C'}
        if preserve or l in self.graphs:
            return states
        if (l is self.T and field == '_segments') or field == '*' and l in E.heap.get((self.T, '_segments'), ()):
            self.note('O', node, fr)
            return frozenset(['O'])
        return states


PRES = ('PolygonLine.purge', 'PolygonLine.order', 'LineSegment.reverse', 'PolygonLine.ordered_copy')
CHANGES = (('pl', 'pl.append_point_at_end(p)'), ('pl', 'pl.append_point_at_beginning(p)'), ('ol', 'ol.close()'), ('pl', 'pl.move(x, x)'),
           ('pl', 'pl.move(x0=x, y0=x)'), ('pl', 'pl.rotate_about_origin(x)'), ('pl', 'pl.rotate_about_origin(phi=x)'), ('pl', 'pl.rotate_about_xy(x, x, x)'),
           ('pl', 'pl.rotate_about_xy(phi=x, x=x, y=x)'), ('pl', 'pl.mirror_vertical(x)'), ('pl', 'pl.mirror_vertical(x0=x)'), ('pl', 'simplify(pl)'),
           ('m1', 'm1.split(v=x)'), ('m1', 'm1.split(ht=re, keep=False)'), ('m1', 'm1.split(ht=re, keep=True)'), ('re', 'm1.split(ht=re, keep=False)'),
           ('m1.graph', 'm1.split(v=x)'), ('m1.graph', 'm1.split(ht=re, keep=False)'), ('re.graph', 'm1.split(ht=re, keep=False)'), ('m1.graph', 'm1.graph.renew()'),
           ('m1', 'm1.move(x, x)'), ('m1', 'm1.append_point_at_end(p)'),
           ('ho', "KegelKrempe(name='n', h_non_kegelside=x, h_kegelside=x, r=x, hts=hts, kegel=kg)"),
           ('kg', "KegelKrempe(name='n', h_non_kegelside=x, h_kegelside=x, r=x, hts=hts, kegel=kg)"),
           ('ho.graph', "KegelKrempe(name='n', h_non_kegelside=x, h_kegelside=x, r=x, hts=hts, kegel=kg)"),
           ('kg.graph', "KegelKrempe(name='n', h_non_kegelside=x, h_kegelside=x, r=x, hts=hts, kegel=kg)"))


def member(ctx, cls, prop):
    """the attribute whose object a property returns"""
    from .. import core, vn
    from .shapes import chain
    try:
        ctx.P.method(ctx.P.cls('geometry.SR_polygon', cls), prop)
        w = core.World(ctx, None, (), True)
        o = chain(w, 'ABC', True)
        v = w.attr_or_call(o, prop)
        hits = [k for k, x in w.st.heap[o.id].f.items() if isinstance(x, (vn.LRef, vn.DRef, vn.Ref)) and type(x) is type(v) and x.id == v.id]
    except (AnchorMissing, core.Undecided, core.PyRaise):
        return None
    return hits[0] if len(hits) == 1 else None


def watched(ctx, rule, make, changes, badstate, text, pres=PRES):
    w = World(ctx, WORLD + PARTS + REND, pres)
    for target, r in changes:
        key = '%s on %s' % (r, target)
        miss = w.missing(r)
        if miss:
            ctx.und(rule, r, 'no %s' % miss, key)
            continue

        def go(target=target, r=r, key=key):
            setheap(w.E)
            Ts = w.labels(target)
            Ts = {l for l in Ts if isinstance(l.kind, Cls)}
            if len(Ts) != 1:
                ctx.und(rule, r, '%d objects' % len(Ts), key)
                return
            T = Ts.pop()
            for watch in make(w, T):
                w.run(r, watch)
                if not w.E.exit:
                    ctx.und(rule, r, 'no normal exit', key)
                elif badstate in w.E.exit:
                    ctx.bad(rule, watch.cause.get(badstate, r), text % dict(root=r, target=target, what=getattr(watch, 'field', '')), key + ' ' + str(watch.field))
                else:
                    ctx.ok(rule, r, 'states at the exits: %s' % ', '.join(sorted(w.E.exit)), key + ' ' + str(watch.field))
        ctx.guard(rule, r, go, key)
    return w


def stale(ctx):
    field = member(ctx, 'PolygonLine', 'triangles')
    if field is None:
        ctx.und('stale result', 'PolygonLine.triangles', 'not a plain attribute')
        return
    watched(ctx, 'stale result', lambda w, T: [Stale(w, T, field)], CHANGES, 'S',
            '%(root)s changes the outline of %(target)s and can return with the triangulation (and area) of the former outline')


def merging(ctx):
    ch = [(t, r) for t, r in CHANGES if 'move' not in r and 'rotate' not in r and 'mirror' not in r]
    watched(ctx, 'merge flag', lambda w, T: [Merge(w, T, 'purged')], ch, 'D',
            '%(root)s brings new points into %(target)s, which still claims that coincident points are merged', ('PolygonLine.purge',))
    # the flag is raised by merging only, and a new line is not merged yet
    w = World(ctx, WORLD + PARTS + REND, ('PolygonLine.purge',))
    E = w.E
    E.log = {'purged': []}
    roots = [r for t, r in CHANGES] + ['PolygonLine(segs)', 'PolygonLine()', 'Triangle(segs)', 'pl.ordered_copy()', 'ol.closed_copy()', 'pl.order()', 'pl.purge()', 'add(pl, ol)',
                                       'remove_collinear_points(pl)', 'convex_hull(nodes)', 'polygon_from_nodes(nodes)', 'arc(p, x)', 'pl.add_internal_point(p, s)']
    for r in roots:
        if w.missing(r):
            ctx.und('flag raised', r, 'no %s' % w.missing(r), r)
            continue

        def go(r=r):
            del E.log['purged'][:]
            w.run(r)
            hit = {}
            for l, vals, pres, node, fr in E.log['purged']:
                if not pres and not vals <= frozenset([FALSE_, NONE_]) and vals & frozenset([TRUE_, SC]):
                    hit['%s sets purged of %s' % (fr.func.qual, l.name)] = '%s:%d %s' % (os.path.relpath(fr.module.path, ctx.P.root), node.lineno, fr.func.qual)
            for k, where in hit.items():
                ctx.bad('flag raised', where, '%s: %s without merging' % (r, k), k)
            if not hit:
                ctx.ok('flag raised', r, '%d writes of the flag' % len(E.log['purged']), r)
        ctx.guard('flag raised', r, go, r)


def renewal(ctx):
    fields = [member(ctx, 'PolygonLine', n) for n in ('internal', 'external', 'indifferent')]
    if None in fields:
        ctx.und('renewal', 'Graph', 'reference points are not plain attributes')
        return
    g = [('m1.graph', 'm1.graph.renew()')]
    w = watched(ctx, 'renewal', lambda w, T: [Renewed(w, T, f) for f in fields], g, 'O', '%(root)s keeps reference points of the former segments in %(what)s')
    parts = [('m1', 'm1.split(v=x)'), ('m1', 'm1.split(ht=re, keep=True)'), ('m1', 'm1.split(ht=re, keep=False)'), ('re', 'm1.split(ht=re, keep=False)'),
             ('ho', CHANGES[-1][1]), ('kg', CHANGES[-1][1])]

    def make(w, T):
        gs = {l for l in w.E.snapshot.get((T, '_graph'), ()) if isinstance(l, Lab)}
        return [Follow(w, T, gs)] if gs else []
    watched(ctx, 'graph follows', make, parts, 'O', '%(root)s changes the segments of %(target)s and can return without renewing its graph')


PROPS = {
    'P01': (queries, 'points-to and effect analysis from every public question in a world built by the repository\'s own constructors', 'classes of objects and creation sites, no values; operators that call __eq__ or __hash__ implicitly are covered through the direct questions'),
    'P02': (independence, 'points-to analysis of results against the objects of the caller; effects on definition-time objects', 'creation sites stand for all objects created there'),
    'P03': (stale, 'typestate of the kept triangulation along every path of every operation that changes an outline', 'normal exits only; purge, order and reverse keep the outline'),
    'P05': (merging, 'typestate of the merge flag along every path of every operation that brings points in', 'normal exits only'),
    'P25': (renewal, 'typestate of the graph of a part along every path of the operations that change the part', 'normal exits only'),
}

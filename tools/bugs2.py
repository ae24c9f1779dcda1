# -*- coding: utf-8 -*-
import os
import importlib.util as _u
_s = _u.spec_from_file_location('bugs1', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
LN, PT, PL, PG, HT, AS, IMP, VES = _m.LN, _m.PT, _m.PL, _m.PG, _m.HT, _m.AS, _m.IMP, _m.VES
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=imp + demo, needs=needs, breaks=breaks))


bug('walk-turns', 'P01', [(PL, '_not_visited = set(copy.deepcopy(segments))', '_not_visited = set(segments)'),
                          (PL, '        segs = copy.deepcopy(_visited)\n', '        segs = set(_visited)\n')],
    '''from geometry.SR_polygon import walk_segments
a = [S(0, 0, 1, 0), S(1, 1, 1, 0), S(0, 1, 1, 1), S(0, 1, 0, 0)]
b = repr(a)
w = walk_segments(a)
assert w
assert repr(a) == b, a
''', 'a closed cycle whose segments do not all run the same way round', 'looking for a cycle reverses the segments of the parts it is found in')
bug('angles-turn', 'P01', [(PL, '        _triangle = copy.deepcopy(self)\n        _ret = []', '        _triangle = copy.copy(self)\n        _ret = []')],
    '''t = Triangle(chain((0, 0), (1, 0), (0, 1), (0, 0)).segments)
b = repr(t)
t.angles
assert repr(t) == b, t
''', 'the angles of a triangle are asked, then its segments are used', 'asking for the angles reverses segments of the triangle')
bug('collinear-turn', 'P01', [(PL, '''    _c = copy.deepcopy(polygon)
    for p in [x.i for x in polygon.segments]:''', '''    _c = PolygonLine(polygon.segments)
    for p in [x.i for x in polygon.segments]:''')],
    '''p = PolygonLine([S(0, 0, 1, 0), S(1, 0, 2, 0), S(2, 2, 2, 0), S(2, 2, 0, 2), S(0, 2, 0, 0)])
b = repr(p)
from geometry.SR_polygon import remove_collinear_points
remove_collinear_points(p)
assert repr(p) == b, p
''', 'a polygon with a segment running the other way and a collinear point', 'the simplified copy is ordered by reversing the segments of the original')
bug('order-copy', 'P02', [(PL, '        _ = copy.deepcopy(self)\n        _.order()', '        _ = copy.copy(self)\n        _.order()')],
    '''p = PolygonLine([S(0, 0, 1, 0), S(1, 1, 1, 0), S(1, 1, 0, 1), S(0, 1, 0, 0)])
q = p.ordered_copy()
b = repr(q)
p.segments[0].move(x0=1, y0=1)
assert repr(q) == b
''', 'the original is moved segment-wise after the copy was made', 'the ordered copy holds the segments of the original')
bug('few-triangles', 'P03', [(PL, '''    def _delete_triangles(self):
        self._triangles = set()
''', '''    def _delete_triangles(self):
        if len(self._segments) > 3:
            self._triangles = set()
''')],
    '''p = chain((0, 0), (1, 0), (0, 1), (0, 0))
p.triangulate(algorithm='ear clipping') if False else p._triangles.add('stale')
p.move(x0=5, y0=0)
assert 'stale' not in p.triangles
''', 'a polygon of three segments', 'the triangulation of a triangular outline survives its transformations')
bug('close-apart', 'P05', [(PL, '            self._segments.append(LineSegment(self.last_point, self.first_point))\n',
                            '            self._segments.append(LineSegment(Point(self.last_point.xy), Point(self.first_point.xy)))\n')],
    '''p = chain((0, 0), (1, 0), (1, 1))
p.move(x0=1, y0=0)
p.close()
p.move(x0=1, y0=0)
p.segments
assert p.isclosed and p.first_point == P(2, 0) and p.last_point == P(2, 0), p
p.first_point._set_coords((0, 0))
assert p.isclosed, p
''', 'an open line is transformed, closed and transformed again', 'closing brings in points of its own without having them merged')
bug('old-indifferent', 'P25', [(PG, '''        self._internal_point = []
        self._indifferent_point = []
        self._external_point = []
        self.add_intex_points()''', '''        self._internal_point = []
        self._external_point = []
        self.add_intex_points()''')],
    '''f = Flachboden(name='f', pos_v=0, d=2, pos_h=0)
n = len(f.graph.indifferent)
f.graph.renew()
assert len(f.graph.indifferent) == n, f.graph.indifferent
''', 'the graph of a flat bottom is renewed', 'indifferent points pile up', imp=VES)
bug('split-late', 'P25', [(HT, '''        # making sure the numbering of the graphs is renewed
        # without this the node numbering is screwed up
        self.graph.renew()

        if not _keep:''', '''        # making sure the numbering of the graphs is renewed
        # without this the node numbering is screwed up
        if len(cut_lines) == 2:
            self.graph.renew()

        if not _keep:''')],
    '''m = Mantel(name='m', pos_h=0, pos_v=0, d=(2, 2), h=2)
m.split(v=1)
m.split(v=.5)
fb = Flachboden(name='f', pos_v=1, d=2, pos_h=0)
assert len(m.graph.segments) == len(m.wall_segments)
r = RaumEnde(name='r', pos_h=1, pos_v=1.5, d=1)
assert m.split(ht=r)
assert len(m.graph.segments) == len(m.wall_segments), (m.graph.segments, m.wall_segments)
''', 'a room end that cuts one side of a shell only', 'the graph keeps the wall that was cut', imp=VES)
bug('touching-box', 'P10', [(LN, '''    if line.is_internal_point(p=p):
        return LineSegment(line.i, p), LineSegment(p, line.j)''', '''    if line.is_internal_point(p=p):
        if p == line.i:
            p = line.i
        return LineSegment(line.i, p), LineSegment(p, line.j)''')],
    '''s = S(0, 0, 1, 0)
p = Point((4e-6, 0))
a, b = add_point_on_line(s, p)
assert a.j is p and b.i is p
''', 'a point within the tolerance of the start', 'the line is divided at its start instead of at the point')
bug('divide-start', 'P10', [(LN, '''        _x = ((numseg - i) / numseg) * line.i.x + (i / numseg) * line.j.x
''', '''        _x = line.i.x + i * (line.delta_x / numseg) if line.delta_x > 0 else line.i.x - i * (line.delta_x / numseg)
''')],
    '''d = divide_line(S(1, 0, 0, 0), 2)
assert d[0].j == P(.5, 0), d
''', 'a line running from right to left', 'division points lie outside of the line')
bug('skirt-size', 'P13', [(HT, '''        return min(self.d) / 2.

    @property
    def isvalid(self):

        # checking if the graph is valid''', '''        return self.d[0] / 2.

    @property
    def isvalid(self):

        # checking if the graph is valid''')],
    '''assert Mantel(name='m', pos_h=0, pos_v=0, d=(3, 2), h=1).characteristic_size == 1
''', 'a shell wider at its bottom', 'the characteristic size is not that of the smallest diameter', imp=VES)
bug('end-offset', 'P13', [(HT, '''        fb = Wall(Point((-self.d/2., 0)), Point((self.d/2., 0)))
        fb.move(x0=pos_h, y0=pos_v)
        super(RaumEnde, self)''', '''        fb = Wall(Point((pos_h - self.d/2., pos_v)), Point((self.d/2. - pos_h, pos_v)))
        super(RaumEnde, self)''')],
    '''r = RaumEnde(name='r', pos_h=1, pos_v=2, d=2)
assert r.segments[0].j == P(2, 2), r
''', 'a room end off the axis', 'the room end of a vessel off the axis has the wrong extent', imp=VES)
bug('default-pos', 'P16', [(HT, '''            raumende = RaumEnde(
                name=adict['name'],
                pos_v=adict['pos_v'],
                pos_h=adict['pos_h'],''', '''            raumende = RaumEnde(
                name=adict['name'],
                pos_v=adict['pos_v'],
                pos_h=adict.get('pos_h', 0),''')],
    '''try:
    RaumEnde.from_dict({'name': 'r', 'pos_v': 0, 'd': 1})
except Exception:
    pass
else:
    raise SystemExit('accepted')
''', 'a dictionary without position', 'a missing key goes unnoticed', imp=VES)
bug('boden-kind', 'P16', [(HT, '''            korbbogenboden = Korbbogenboden(
                name=adict['name'],
                pos_v=adict['pos_v'],
                pos_h=adict['pos_h'],
                d=adict['d'],
                h1=adict['h1'],
                orient=adict['orient'],
            )
''', '''            korbbogenboden = Korbbogenboden(
                name=adict['name'],
                pos_v=adict['pos_v'],
                pos_h=adict['pos_h'],
                d=adict['d'],
                h1=adict['h1'] or 0.1,
                orient=adict['orient'],
            )
''')],
    '''b = Korbbogenboden.from_dict({'name': 'r', 'pos_v': 0, 'pos_h': 0, 'd': 1, 'h1': 0, 'orient': 1})
assert b.h1 == 0
''', 'an end without cylindrical part', 'a height of zero is replaced', imp=VES)
bug('neighbour-ident', 'P30', [(PL, "return [x.i for x in _segs if x.i != p] + [x.j for x in _segs if x.j != p]",
                                "return [x.j if x.i == p else x.i for x in _segs if x.i is not x.j]")],
    '''p = PolygonLine([S(0, 0, 1, 0), S(2, 0, 1, 0)])
assert set(p.neighbour(P(1, 0))) == {P(0, 0), P(2, 0)}
p = PolygonLine([S(0, 0, 1, 0), S(1, 0, 1, 0), S(1, 0, 2, 0)])
assert P(1, 0) not in p.neighbour(P(1, 0)), p.neighbour(P(1, 0))
''', 'a segment without length', 'a point is its own neighbour')
bug('subset-either', 'P30', [(PL, "        if otherpoints.issubset(selfpoints):\n", "        if otherpoints.issubset(selfpoints) or len(otherpoints - selfpoints) == len(selfpoints - otherpoints) == 0:\n".replace(' or len(otherpoints - selfpoints) == len(selfpoints - otherpoints) == 0', ' or selfpoints < otherpoints'))],
    '''assert not chain((0, 0), (1, 0)).loose_subset(chain((0, 0), (1, 0), (1, 1)))
''', 'the other line has further points', 'a line loosely contains every line it is contained in')
bug('rotate-round', 'P04', [(PL, "        self.move(x0=-x0, y0=-y0)  # move so that he origin is in x0, y0\n        self.rotate_about_origin(phi=phi)  # rotate\n",
                             "        self.move(x0=-x0, y0=-y0)  # move so that he origin is in x0, y0\n        self.rotate_about_origin(phi=phi % 180 if phi > 360 else phi)  # rotate\n")],
    '''p = chain((0, 0), (1, 0), (1, 1))
p.rotate_about_xy(x0=0, y0=0, phi=540)
assert p.segments[0].j == P(-1, 0), p
''', 'an angle of more than a full turn', 'angles beyond a full turn rotate by the wrong amount')

bug('keep-list', 'P02', [(PL, '        self._segments = list(args)\n', '        self._segments = args if isinstance(args, list) else list(args)\n')],
    '''l = [S(0, 0, 1, 0), S(1, 0, 1, 1)]
p = PolygonLine(l)
p.close()
assert len(l) == 2
''', 'the list a line was built from is used after the line was closed', 'closing a line extends the list it was built from')
bug('sharp-knuckle', 'P25', [(HT, '''        self.kegel._segments_changed()
        self.kegel.graph.renew()
''', '''        self.kegel._segments_changed()
        if self.r > 0:
            self.kegel.graph.renew()
''')],
    '''kegel = Mantel(name='kegel', pos_h=0, pos_v=1, d=(2, 4), h=1)
ma = Mantel(name='ma', pos_h=0, pos_v=2, d=(4, 4), h=1.5)
kkr = KegelKrempe(name='kkr', h_non_kegelside=0.4, h_kegelside=0.3, r=0, hts=(ma,), kegel=kegel)
assert kegel.graph.segments == kegel.wall_segments, (kegel.graph.segments, kegel.wall_segments)
''', 'a knuckle without radius', 'the graph of the cone keeps its former walls', imp=VES)
bug('klopper-radius', 'P14', [(HT, "            R2 = 0.1 * d  # krempe\n", "            R2 = 0.154 * d  # krempe\n")],
    '''b = Klopperboden(name='b', pos_v=0, pos_h=0, d=10, h1=0)
top = max(p.y for p in b.point_set)
import math
h = math.sqrt((10 - 1.) ** 2 - (5 - 1.) ** 2)
assert abs(top - (10 - h)) < 1e-6, top
''', 'looking at the dimensions of a Klopperboden', 'the knuckle has the radius of a Korbbogenboden', imp=VES)
bug('knuckle-kind', 'P14', [(HT, "        krempe_li = PolygonLine([Wall(x.i, x.j) for x in _kre_li.segments])\n",
                             "        krempe_li = PolygonLine([(Wall if orient > 0 else NonWall)(x.i, x.j) for x in _kre_li.segments])\n".replace('orient', 'self.orient'))],
    '''b = Klopperboden(name='b', pos_v=0, pos_h=0, d=10, h1=.1, orient=-1)
assert len(b.nonwall_segments) == 1
''', 'an end turned over', 'the knuckle of an end turned over is no wall', imp=VES)
bug('flat-below', 'P15', [(HT, "_ret[s]['indifferent'].append(Point((self.pos_h, -0.01 * self.d + self.pos_v)))", "_ret[s]['indifferent'].append(Point((self.pos_h, -0.01 * self.d - self.pos_v)))")],
    '''f = Flachboden(name='f', pos_v=-1, d=2, pos_h=0)
assert min(p.y for p in f.graph.indifferent) < -1
''', 'a flat bottom below the origin', 'both reference points lie above the bottom', imp=VES)
bug('graph-apex', 'P15', [(HT, "Wall(Point((self.pos_h, self.pos_v + self.orient * self.h_graph)), Point((self.d / 2. + self.pos_h, self.pos_v)))]",
                           "Wall(Point((self.pos_h, self.pos_v + self.orient * 0.1)), Point((self.d / 2. + self.pos_h, self.pos_v)))]")],
    '''b = Korbbogenboden(name='b', pos_v=1, pos_h=0, d=200, h1=.1)
assert b.graph.iscontinuous, b.graph
''', 'an end of more than 100 in diameter', 'the two walls of the graph of a large end do not meet', imp=VES)
bug('last-turn', 'P29', [(PL, '''        _sl.append(self.segments[0])  # list with the starting point shifted
''', '''        _sl.append(self.segments[0] if len(_s) < 6 else _s[-1])  # list with the starting point shifted
''')],
    '''p = chain((1, 1), (0, -3), (4, 0), (4, 4), (2, 5), (0, 4), (1, 1))
assert not p.isconvex, list(p.cps)
''', 'a polygon of six corners, reflex at its first vertex', 'the turn at the first vertex is ignored')
bug('loose-kind', 'P09', [(LN, '''        return (
            type(other) == type(self) and set(self.ij)''', '''        return (
            isinstance(other, type(self)) and set(self.ij)''')],
    '''a = S(0, 0, 1, 0)
w = Wall(P(0, 0), P(1, 0))
assert not a.loose_equal(w) and not w.loose_equal(a)
''', 'a plain segment compared with a wall', 'a segment loosely equals a wall but not the other way round', imp=VES)

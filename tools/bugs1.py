BUGS = []
LN, PT, PL, PG, HT, AS = ('geometry/SR_line.py', 'geometry/SR_point.py', 'geometry/SR_polygon.py', 'geometry/SR_polygon_group.py',
                          'SR_Vessel/SR_hauptteile.py', 'geometry/additional_stuff.py')
IMP = '''from geometry.SR_point import *
from geometry.SR_point import Point, IntexPoint
from geometry.SR_line import *
from geometry.SR_line import LineSegment
from geometry.SR_polygon import *
from geometry.SR_polygon import PolygonLine, Triangle, square, arc, polygon_from_nodes
import copy, math
def P(x, y): return Point((x, y))
def S(a, b, c, d): return LineSegment(P(a, b), P(c, d))
def chain(*xy): return PolygonLine([S(*(a + b)) for a, b in zip(xy, xy[1:])])
'''
VES = IMP + '''from SR_Vessel.SR_hauptteile import *
'''


def bug(id, prop, edits, demo, needs, breaks, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=imp + demo, needs=needs, breaks=breaks))


bug('null-opposite', 'P08', [(LN, 'if self.is_parallel(other) and self.dotproduct(other) < 0:', 'if self.is_parallel(other) and self.dotproduct(other) <= 0:')],
    'assert not S(0, 0, 1, 0).opposite_direction(S(3, 3, 3, 3))\nassert S(0, 0, 1, 0).opposite_direction(S(3, 0, 1, 0))\n',
    'one of the two segments has no length', 'a segment without length is reported to have the opposite direction')
bug('star-merge', 'P04', [(PL, '_affected_segments = [s for s in self.segments if x in s.ij]\n', '_affected_segments = [s for s in self.segments if x in s.ij][:2]\n')],
    '''p = PolygonLine([S(0, 0, 1, 0), S(0, 0, 0, 1), S(0, 0, -1, 0), S(0, 0, 0, -1)])
p.move(x0=5, y0=0)
assert all(s.i == P(5, 0) for s in p.segments), p
''', 'four segments meeting in one place, each with its own end point object', 'only the first two segments share the vertex after merging; the others are left behind by a move')
bug('open-mean', 'P12', [(PL, '''        _x0 = sum([z.x for z in self.point_set])
        _y0 = sum([z.y for z in self.point_set])
        return Point([x / len(self.point_set) for x in [_x0, _y0]])''', '''        _ap = self.all_points
        return Point([sum([z.x for z in _ap]) / len(_ap), sum([z.y for z in _ap]) / len(_ap)])''')],
    '''m = chain((0, 0), (1, 0), (2, 3)).midpoint
assert abs(m.x - 1) < 1e-6 and abs(m.y - 1) < 1e-6, m
''', 'an open line: only there vertices are not visited equally often', 'inner vertices of an open line count twice in its midpoint')
bug('arc-centre', 'P27', [(PL, 'pl.move(x0=P[0], y0=P[1])', 'pl.move(x0=P[0], y0=P[0])')],
    '''a = arc(P=(1, 2), r=1, alpha_start=0, alpha_end=90, n=2)
assert a.first_point == Point((2, 2)), a.first_point
''', 'centre given as tuple with different coordinates', 'arc lies in the wrong place')
bug('prefix-equal', 'P09', [(PL, '''            len(self._segments) == len(other._segments) and
''', '''            len(self._segments) <= len(other._segments) and
''')],
    '''assert not (chain((0, 0), (1, 0), (1, 1)) == chain((0, 0), (1, 0), (1, 1), (0, 1)))
assert chain((0, 0), (1, 0), (1, 1)) == chain((0, 0), (1, 0), (1, 1))
''', 'one line is the beginning of the other', 'a line equals every longer line it starts')
bug('ratio-range', 'P10', [(LN, 'assert 0 <= ratio <= 1', 'assert ratio <= 1')],
    '''try:
    point_on_line_at_ratio(S(0, 0, 1, 0), -0.5)
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
''', 'a negative ratio', 'a point outside the segment is returned')
bug('slack-convex', 'P29', [(PL, 'if all([x >= 0 for x in self.cps]) or', 'if all([x >= -EPS for x in self.cps]) or')],
    '''s = 1e-4
q = chain((0, 0), (s, 0), (s, s), (s / 2, s * .6), (0, s), (0, 0))
assert not q.isconvex
''', 'a small polygon with a reflex corner', 'reflex corners of small polygons go unnoticed')
bug('sphere-z', 'P11', [(AS, '''        # second intersection
        mu = (-b - sqrt(i)) / (2.0 * a)
        p2 = (l1[0] + mu * (l2[0] - l1[0]),
              l1[1] + mu * (l2[1] - l1[1]),
              l1[2] + mu * (l2[2] - l1[2]),''', '''        # second intersection
        mu = (-b - sqrt(i)) / (2.0 * a)
        p2 = (l1[0] + mu * (l2[0] - l1[0]),
              l1[1] + mu * (l2[1] - l1[1]),
              l1[2] + mu * (l2[2] - l1[1]),''')],
    '''from geometry.additional_stuff import sphere_line_intersection as f
a, b = f((0, 1, 2), (1, 1, 2), (0, 1, 2), 3)
assert abs(a[2] - 2) < 1e-9 and abs(b[2] - 2) < 1e-9, (a, b)
''', 'a line not through a place where the y and z coordinates of its first point agree', 'the second point is off the sphere')
bug('near-parallel', 'P07', [(LN, 'if self.crossproduct(other) == 0:', 'if abs(self.crossproduct(other)) < EPS:')],
    '''a, b = S(0, 0, 4e-5, 0), S(2e-5, -5e-5, 2e-5, 5e-5)
assert not a.is_parallel(b)
''', 'two short segments at right angles', 'short segments that cross are reported parallel and without intersection')
bug('east-direction', 'P06', [(LN, '''        if _ret < 0:
            return 360 + _ret''', '''        if _ret < -EPS:
            return 360 + _ret''')],
    '''d = S(0, 0, 1000, -1e-8).direction
assert 0 <= d <= 360, d
''', 'a direction within 1e-8 degrees below east', 'a negative direction angle is returned')

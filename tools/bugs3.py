# -*- coding: utf-8 -*-
import os
import importlib.util as _u
_s = _u.spec_from_file_location('bugs1', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
LN, PT, PL, PG, HT, AS, IMP, VES = _m.LN, _m.PT, _m.PL, _m.PG, _m.HT, _m.AS, _m.IMP, _m.VES
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=imp + demo, needs=needs, breaks=breaks))


bug('obtuse-angle', 'P28', [(PL, '            _ret.append(p[0].angle_between_lines(other=p[1]))',
                            '            _a = p[0].angle_between_lines(other=p[1])\n            _ret.append(min(_a, 180 - _a) if len(_ret) == 2 else _a)')],
    '''for k in range(3):
    n = [(0, 0), (4, 0), (-1, 1)]
    n = n[k:] + n[:k]
    t = Triangle(chain(*(n + n[:1])).segments)
    assert abs(sum(t.angles) - 180) < 1e-6, t.angles
''', 'a triangle with an obtuse angle, its edges in a particular order', 'an obtuse angle is reported as its supplement')
bug('quality-sign', 'P28', [(PL, 'return sum([abs(x - 60) for x in self.angles])', 'return sum([max(x - 60, 0) for x in self.angles]) + max(60 - min(self.angles), 0)')],
    '''t = Triangle(chain((0, 0), (4, 0), (-1, 1), (0, 0)).segments)
assert abs(t.quality - sum(abs(a - 60) for a in t.angles)) < 1e-6
t = Triangle(chain((0, 0), (4, 0), (2, 1), (0, 0)).segments)
assert abs(t.quality - sum(abs(a - 60) for a in t.angles)) < 1e-6, (t.quality, t.angles)
''', 'two angles below 60 degrees', 'only the smallest angle counts towards the quality')
bug('overlap-oneway', 'P28', [(PL, 'if self.overlap(other) or other.overlap(self):\n            return False', 'if self.overlap(other):\n            return False')],
    '''class Q(Triangle):
    def overlap(self, other):
        return True
a = Q(chain((0, 0), (1, 0), (0, 1), (0, 0)).segments)
b = Triangle(chain((10, 0), (11, 0), (10, 1), (10, 0)).segments)
assert not a.disjunct(b)
assert not b.disjunct(a)
''', 'an overlap that is seen from one of the two triangles only', 'such triangles are called disjunct')
bug('disjunct-some', 'P28', [(PL, '''        if any(x[0].overlap(x[1]) or x[0].congruent(x[1]) for x in _all_tri_pairs):''',
                             '''        if any(x[0].overlap(x[1]) for x in _all_tri_pairs):''')],
    '''a = chain((0, 0), (3, 0), (0, 3), (0, 0))
b = chain((0, 0), (3, 0), (0, 3), (0, 0))
import geometry.SR_polygon as sp
class Ta(Triangle):
    pass
for p in (a, b):
    p.triangulate = lambda *x, **k: None
    p._triangles = {Triangle(p.segments)}
assert not a.disjunct(b)
''', 'two polygons with a common triangle and otherwise nothing in common', 'polygons with a common triangle are called disjunct')
bug('ray-first', 'P31', [(PL, 'if not all([_inters[x] % 2 == _inters[0] % 2 for x in range(ctrlpkt)]):', 'if not all([_inters[x] % 2 == _inters[0] % 2 for x in range(ctrlpkt - 1)]):'),
                         (PL, '        if _inters[0] % 2 == 1:', '        if _inters[-1] % 2 == 1:')],
    '''import itertools
import geometry.SR_polygon as sp
p = chain((0, 0), (4, 0), (4, 4), (0, 4), (0, 0))
for stray in range(3):
    n = itertools.count()
    class L(LineSegment):
        def __init__(self, *a):
            super(L, self).__init__(*a)
            self.n = next(n)
        def intersection_on_segment(self, other):
            return (self.n != stray) and other.i.x == other.j.x == 4
    sp.LineSegment = L
    assert p.is_internal_point(Point((2, 2))), stray
''', 'the last ray of a round passes a corner', 'that ray alone decides')
bug('ray-span', 'P31', [(PL, '(random.uniform(_x + _span, _x + 500 * _span), random.uniform(_y + _span, _y + 30 * _span))',
                        '(random.uniform(_x - _span, _x + 500 * _span), random.uniform(_y - _span, _y + 30 * _span))')],
    '''import random
random.uniform = lambda a, b: a
p = chain((0, 0), (4, 0), (4, 4), (0, 4), (0, 0))
assert p.is_internal_point(Point((2, 2)))
assert not p.is_internal_point(Point((9, 2)))
''', 'random numbers near the lower end', 'a ray ends inside the polygon')
bug('vertex-inside', 'P31', [(PL, '        if p in self.point_set:\n            return False\n\n        _bb', '        if p in [x.i for x in self.segments[:-1]]:\n            return False\n\n        _bb')],
    '''import geometry.SR_polygon as sp
class L(LineSegment):
    def intersection_on_segment(self, other):
        return other.i.x == other.j.x == 4
sp.LineSegment = L
p = chain((0, 0), (4, 0), (4, 4), (0, 4), (0, 0))
for v in ((0, 0), (4, 0), (4, 4), (0, 4)):
    assert not p.is_internal_point(Point(v)), v
''', 'the start of the last edge is asked for, and rays cross an odd number of edges', 'that vertex counts as internal')
bug('keep-forced', 'P34', [(PL, 'if not self.triangles or force:  # if previously', "if not self.triangles or force and algorithm != 'ear clipping':  # if previously")],
    '''p = chain((0, 0), (4, 0), (4, 4), (0, 4), (0, 0))
log = []
p.ear_clipping = lambda: log.append(1)
p._triangles = {1}
p.triangulate(algorithm='ear clipping', force=True)
assert log
''', 'triangles kept, ear clipping forced', 'the forced triangulation does not happen')
bug('mesh-vertices', 'P34', [(PL, '''            # check if any of the points of the triangle is external to the polygon
            if any([triangle.is_internal_point(p=x) for x in polygon.point_set if x not in triangle.point_set]):
                # print('has external point!')
                return False
''', '''            # check if any of the points of the triangle is external to the polygon
            if all([triangle.is_internal_point(p=x) for x in polygon.point_set if x not in triangle.point_set]) and len(polygon.point_set) > 3:
                # print('has external point!')
                return False
''')],
    '''import sys, types
tm, np = types.ModuleType('triangle'), types.ModuleType('numpy')
np.asarray = lambda x: x
tm.triangulate = lambda data, opts: {'vertices': data['vertices'], 'triangles': T(data['vertices'])}
def T(v):
    k = {p: i for i, p in enumerate(v)}
    return [(k[(0.0, 0.0)], k[(8.0, 0.0)], k[(0.0, 8.0)])]
sys.modules['triangle'], sys.modules['numpy'] = tm, np
import geometry.SR_polygon as sp
p = chain((0, 0), (8, 0), (8, 8), (3, 3.5), (2, 2), (0, 8), (0, 0))
p.is_internal_point = lambda p, plotit=False: True
p.triangle_mesh()
assert not p.triangles, p.triangles
''', 'a triangle that covers one of several other vertices', 'such a triangle is kept, areas count twice')
bug('mesh-centre', 'P34', [(PL, '''            if not polygon.is_internal_point(p=triangle.midpoint):
                # print('midpoint is not internal!')''', '''            if not any(polygon.is_internal_point(p=x.midpoint) for x in [triangle] + triangle.segments):
                # print('midpoint is not internal!')''')],
    '''import sys, types
tm, np = types.ModuleType('triangle'), types.ModuleType('numpy')
np.asarray = lambda x: x
tm.triangulate = lambda data, opts: {'vertices': data['vertices'], 'triangles': T(data['vertices'])}
def T(v):
    k = {p: i for i, p in enumerate(v)}
    return [(k[(2.0, 2.0)], k[(8.0, 8.0)], k[(0.0, 8.0)])]
sys.modules['triangle'], sys.modules['numpy'] = tm, np
p = chain((0, 0), (8, 0), (8, 8), (2, 2), (0, 8), (0, 0))
p.is_internal_point = lambda p, plotit=False: p.x > p.y - 1.5
p.triangle_mesh()
assert not p.triangles, p.triangles
''', 'a triangle outside the outline with an edge whose centre is inside', 'triangles outside the polygon are kept')

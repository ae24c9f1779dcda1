# -*- coding: utf-8 -*-
import os
import importlib.util as _u
_s = _u.spec_from_file_location('bugs1', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py'))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
LN, PT, PL, PG, HT, AS, IMP, VES = _m.LN, _m.PT, _m.PL, _m.PG, _m.HT, _m.AS, _m.IMP, _m.VES
BUGS = []
GRP = VES + '''from geometry.SR_polygon_group import *
from geometry.SR_polygon_group import PolygonGroup, BehalterGraph, Graph
'''


def bug(id, prop, edits, demo, needs, breaks, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=imp + demo, needs=needs, breaks=breaks))


bug('split-reach', 'P17', [(HT, 'Point((max(_bb[0]) + 0.5 * abs(max(_bb[0])-min(_bb[0])), v)))  # cutting line', 'Point((max(_bb[0]) + 0.5 * abs(max(_bb[0])), v)))  # cutting line')],
    '''for x in (0, 3, -1):
    m = Mantel(name='m', pos_v=0, pos_h=x, d=(2, 2), h=2)
    assert m.split(v=1), x
    assert len(m.graph.segments) == 4
''', 'a shell with its right wall on the axis of the coordinate system', 'the cutting line ends on the wall, so nothing is cut', VES)
bug('cut-once', 'P17', [(HT, '                    ht.split(ht=x, keep=False)\n', '                    if ht.split(ht=x, keep=False):\n                        break\n')],
    '''class B(object):
    polygons = [Mantel(name='m', pos_v=0, pos_h=0, d=(2, 2), h=9), RaumEnde(name='a', pos_v=3, pos_h=0, d=4), RaumEnde(name='b', pos_v=6, pos_h=0, d=4)]
Behalter.cut_by_raumende(B())
assert len(B.polygons[0].graph.segments) == 6, B.polygons[0].graph.segments
''', 'two room ends through one shell', 'the shell is cut by the first room end only', VES)
bug('show-bare', 'P18', [(PL, '                plt.title(title)\n\n            if show:\n                plt.show()\n', '                plt.title(title)\n\n        if show:\n            plt.show()\n')],
    '''import sys
import geometry.SR_polygon as sp
sp._plotting_available, sp.plt = False, None
chain((0, 0), (1, 0), (0, 1), (0, 0)).plot(show=True)
''', 'a plot that is to be shown, without matplotlib', 'an error instead of nothing')
bug('title-first', 'P18', [(PL, '''        if self.triangles:
            self.plot(show=False)
            for tri in self.triangles:''', '''        if self.triangles:
            self.plot(show=False)
            if show:
                from matplotlib import pyplot
                pyplot.title('triangulation')
            for tri in self.triangles:''')],
    '''import sys
sys.modules['matplotlib'] = None
p = chain((0, 0), (1, 0), (0, 1), (0, 0))
p._triangles = {Triangle(p.segments)}
p.plot_triangulation(show=True)
''', 'showing a triangulation without matplotlib', 'ImportError')
bug('axes-gone', 'P18', [(LN, '''            if show:
                plt.axis('tight')
                plt.axis('equal')
                plt.show()
''', '''        if show and not self.isnull():
            plt.axis('tight')
            plt.axis('equal')
            plt.show()
''')],
    '''import geometry.SR_line as sl
sl._plotting_available, sl.plt = False, None
S(0, 0, 1, 1).plot(show=True)
''', 'a segment to be shown, without matplotlib', 'an error instead of nothing')

bug('rooms-typo', 'P23', [(HT, '        ap = self.raume[0].as_polygon\n        numpt', '        ap = self.raeume[0].as_polygon\n        numpt')],
    '''import random
class R(object):
    as_polygon = chain((0, 0), (4, 0), (4, 4), (0, 4), (0, 0))
b = Behalter.__new__(Behalter)
b.raume = [R()]
R.as_polygon.is_internal_point = lambda *a, **k: True
b.graphical_testing()
''', 'the graphical test of a vessel', 'AttributeError', VES)
bug('arg-name', 'P23', [(PL, '''                if algorithm == 'delaunay':
                    self.triangulate_delaunay()
                elif algorithm == 'ear clipping':
                    self.ear_clipping()
                elif algorithm == 'triangle':
                    self.triangle_mesh()
                else:
                    raise Exception('Triangulation algorithm %s unknown' % algorithm)

            else:
                raise Exception('Please provide a name for the algorithm to be used')

        # as not all''', '''                if algorithm == 'delaunay':
                    self.triangulate_delaunay()
                elif algorithm == 'ear clipping':
                    self.ear_clipping(force=force)
                elif algorithm == 'triangle':
                    self.triangle_mesh()
                else:
                    raise Exception('Triangulation algorithm %s unknown' % algorithm)

            else:
                raise Exception('Please provide a name for the algorithm to be used')

        # as not all''')],
    '''p = chain((0, 0), (4, 0), (0, 4), (0, 0))
p.plot_triangulation(algorithm='ear clipping')
''', 'plotting the triangulation of a polygon that has none yet, by ear clipping', 'TypeError: unexpected keyword')

bug('contained-most', 'P24', [(PG, "                if set(_internals) == set(_ch):  # totally contained\n                    _ret[e].append(z)\n                    # _convhull.plot(also_plot=_ch, show=True)  # plots the hull and the internal points\n                elif not _internals:  # empty\n                    pass\n                # else:  # partial overlap\n                #     pp.pprint(_internals)\n                #     pp.pprint(_ch)\n                #     raise Exception('WTF')\n\n        return _ret\n        #\n",
                                   "                if len(_internals) > len(_ch) - len(_ch) // 4 or set(_internals) == set(_ch):  # totally contained\n                    _ret[e].append(z)\n                elif not _internals:  # empty\n                    pass\n\n        return _ret\n        #\n")],
    '''class P(object):
    def __init__(self, *xy): self.point_set = [Point(x) for x in xy]
g = BehalterGraph.__new__(BehalterGraph)
g.segments_in_cycles = {0: [P((0, 0), (9, 0), (9, 9), (0, 9))], 1: [P((1, 1), (2, 1), (3, 2), (3, 3), (2, 3), (1, 3), (1.5, 2.5), (20, 2))]}
assert g.contained_cycles == {0: [], 1: []}, g.contained_cycles
''', 'a cycle of eight or more points that sticks out with one of them', 'it is called contained', GRP)
bug('both-sides', 'P36', [(HT, '''                        if all((raum_graph.is_internal_point(p=P) for P in _external)):''',
                           '''                        if all((raum_graph.is_internal_point(p=P) for P in _external)) and r.name not in _ret[ht.name]['innenraum']:''')],
    '''class G(object):
    internal = external = indifferent = []
    def __init__(self):
        self.segments = [1]
        class Q(object):
            segment = 1
        self.internal = [Q()]
        self.external = [Q()]
class H(object):
    name = 'h'
    graph = G()
class Poly(object):
    def triangulate(self): pass
    def is_internal_point(self, p=None): return True
class Ro(object):
    name = 'R1'
    aussere_wandung = ganze_wandung = [H()]
    innere_wandung = []
    def graph_as_polygon(self): return Poly()
import SR_Vessel.SR_hauptteile as sh
sh.simplify = lambda x: None
sh.copy = type('c', (), {'deepcopy': staticmethod(lambda x: x)})
b = Behalter.__new__(Behalter)
b.raume = [Ro()]
b._polygons = [H()]
r = b.raum_intex()
assert r['h']['innenraum'] == {'R1'} and r['h']['aussenraum'] == {'R1'}, r
''', 'a part with the same room on both of its sides', 'the room counts as inner only', GRP)
bug('degree-five', 'P37', [(PG, "        elif any([len(x) > 3 for x in _al.values()]):", "        elif nd[4] > 0:")],
    '''class PL(object):
    isvalid = True
class G(PolygonGroup):
    def as_adjacency_list(self, as_numbered=False):
        return {0: [1, 2, 3, 4, 5], 1: [0, 2], 2: [0, 1], 3: [0, 4], 4: [0, 3], 5: [0, 6, 7], 6: [5, 7], 7: [5, 6, 8], 8: [7, 0]}
assert not G([PL()]).isvalid
''', 'a vertex with more than four edges', 'the group is called valid', GRP)
bug('edge-set', 'P37', [(PG, '        graph = sorted([(_conn[s.i], _conn[s.j]) for s in self.all_segments])', '        graph = sorted({(_conn[s.i], _conn[s.j]) for s in self.all_segments})')],
    '''a, b = chain((0, 0), (1, 0), (1, 1)), chain((0, 0), (1, 0), (0, 5))
assert len(PolygonGroup([a, b]).as_edgelist) == 4
''', 'two polygons with a common segment', 'the segment is listed once', GRP)
bug('points-either', 'P37', [(PG, '_s = [x for x in self.all_segments if all([x.i in points and x.j in points])]', '_s = [x for x in self.all_segments if any([x.i in points and x.j in points, x.i in points and x.i.y == x.j.y])]')],
    '''a, b = chain((0, 0), (1, 0), (1, 1)), chain((0, 0), (0, 5), (5, 5))
assert PolygonGroup([a, b]).segments_from_points([P(0, 0), P(0, 5)]) == [b]
''', 'a horizontal segment that starts in one of the points', 'the polygon with this segment is found as well', GRP)

bug('large-plain', 'P26', [(PT, 'self._coords = tuple([round(float(x), PRECISION) for x in coords])', 'self._coords = tuple([round(float(x), PRECISION) if abs(x) > EPS * 1e3 else float(x) for x in coords])')],
    '''assert Point((1e-9, 0)).xy == (0, 0)
''', 'a coordinate smaller than 1e-5', 'it is not rounded')
bug('half-point', 'P35', [(PT, "        if not isinstance(self.y, (int, float)):\n            # print('coord x is not numeric')\n            return False", "        if not isinstance(self.y, (int, float)) and self.y is not None:\n            # print('coord x is not numeric')\n            return False")],
    '''p = Point((1, 2))
p._coords = (1., None)
assert not p.isvalid
p._set_coords((2, None))
assert not p.isvalid
''', 'a point without a vertical coordinate', 'it is called valid')
bug('one-valid-end', 'P35', [(LN, '        if not (self.i.isvalid and self.j.isvalid):\n            return False\n        if self.isnull():\n            return True\n\n        return True', '        if not self.i.isvalid:\n            return False\n        if self.isnull():\n            return True\n\n        return True')],
    '''s = S(0, 0, 1, 1)
s.j._empty()
try:
    assert not s.isvalid
except AssertionError:
    raise
''', 'a segment whose second end has been emptied', 'it is not called invalid')
bug('obtuse-angle2', 'P28', [(PL, '            _ret.append(p[0].angle_between_lines(other=p[1]))',
                            '            _a = p[0].angle_between_lines(other=p[1])\n            _ret.append(min(_a, 180 - _a) if len(_ret) == 1 else _a)')],
    '''for k in range(3):
    n = [(0, 0), (4, 0), (-1, 1)]
    n = n[k:] + n[:k]
    t = Triangle(chain(*(n + n[:1])).segments)
    assert abs(sum(t.angles) - 180) < 1e-6, t.angles
''', 'a triangle with an obtuse angle, its edges in a particular order', 'an obtuse angle is reported as its supplement')

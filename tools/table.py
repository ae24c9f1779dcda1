# -*- coding: utf-8 -*-
PT, LN, PL, PG, HT, AS = ('geometry/SR_point.py', 'geometry/SR_line.py', 'geometry/SR_polygon.py', 'geometry/SR_polygon_group.py',
                          'SR_Vessel/SR_hauptteile.py', 'geometry/additional_stuff.py')
VN = 'global value numbering of the source over symbolic coordinates, compared with the specified normal form'
PROPERTIES = []
NOT_APPLICABLE = {}


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                           technique=technique, note=note))


def na(id, reason):
    NOT_APPLICABLE[id] = reason


EXACT = 'Decided over exact reals; the rounding of stored coordinates to 8 decimals and float error are outside the compared normal forms.'

prop('P04', 'Transformations are rigid maps applied once to every location',
     'Moving, mirroring and rotating a line or a polygon line maps every vertex by exactly the stated map, once, however many segments '
     'meet in it and whether they hold one point object or several equal ones; the segments stay in order, keep their point objects and '
     'merging coincident end points moves nothing.',
     ['inputs', 'histories'], 'all coordinates, offsets, angles; chains open, closed, with vertices visited repeatedly, with end points shared or not',
     'A vertex shared by two segments is transformed twice only for particular sharing patterns; tests use one or two fixed polygons.',
     [PL, LN, PT], [('merge before the map, map per distinct vertex', PL + ': purge, move, rotate_about_origin, rotate_about_xy, mirror_vertical'),
                    ('segment maps', LN + ': move, mirror_vertical')],
     VN + '; object identities tracked',
     'Chains of up to six segments over symbolic coordinates plus the loop structure for chains of any length. ' + EXACT)
prop('P06', 'Measures of points and segments equal their geometric definitions',
     'Length, extents, direction vector, unit vector, direction angle, cross and dot product, angle between lines, angle seen from the start '
     'point, distance to a line, bounding box and reversal of a segment, and distance, sum, difference and bounding box of points, have the '
     'value of their geometric definition for every placement of the end points.',
     ['inputs'], 'all coordinates of the points and segments, in every quadrant',
     'Formulas are tested at a few placements, mostly axis-parallel or in one quadrant.',
     [LN, PT], [('formulas', LN + ': LineSegment properties and methods'), ('formulas', PT + ': Point')], VN, EXACT)
prop('P07', 'Two lines meet exactly where both line equations hold',
     'The intersection of the lines carried by two segments is the unique point on both lines when they are not parallel and is reported as '
     'missing exactly when they are parallel; being parallel and intersecting are reported consistently with it.',
     ['inputs'], 'all pairs of segments, including vertical, horizontal and degenerate ones',
     'Intersections are tested for a handful of pairs of lines.',
     [LN], [('line intersection', LN + ': intersection_point, is_parallel, is_intersecting')], VN, EXACT)
prop('P08', 'Segment predicates mean what they say on both sides of every tolerance',
     'Whether a segment is null, a point lies to the right, to the left, on the line or within the extent of a segment, two segments have '
     'opposite direction, are collinear, touch, continue each other, or cross within both or in an end point, is reported true exactly when '
     'the defining condition with its stated tolerance holds.',
     ['inputs'], 'all placements of two segments and a point, both orders of end points',
     'A swapped comparison or tolerance shows only in narrow regions which no sampled case hits.',
     [LN], [('predicates', LN + ': LineSegment predicates')],
     VN + '; Boolean normal forms compared by case tables over the sign regions', EXACT)
prop('P09', 'Equality is by location within tolerance, per class; equals hash equal',
     'Points and segments compare equal exactly when their locations agree within the tolerance and they are of the same kind, segments loosely equal only when of one kind and between the same places, polygon lines equal exactly '
     'when their segments agree one by one; being unequal is the negation. Objects that compare equal have the same hash, whatever '
     'the arrangement of the segments.',
     ['inputs'], 'all pairs of points, segments and polygon lines of up to three segments (equality) and closed ones up to five (hash)',
     'Equality and hashing are tested on separate examples; the contract between them quantifies over pairs.',
     [PT, LN, PL], [('__eq__, __ne__, __hash__', PT + ', ' + LN + ', ' + PL)],
     VN + '; implication eq => hash decided on normal forms',
     EXACT + ' Equality of points is tolerant while hashes use the stored coordinates: listed as known finding.')
prop('P10', 'Subdividing a segment yields contiguous parts at the requested places',
     'The point at a ratio between 0 and 1 is the weighted mean of the end points and any other ratio is refused; dividing into n parts yields n '
     'segments of equal length, in order, from start to end; a point is inserted only if it lies within the '
     'extent of the segment; neighbouring parts share the dividing point.',
     ['inputs'], 'all segments and ratios; all tested numbers of parts',
     'Tests divide one or two segments.', [LN], [('subdivision', LN + ': point_on_line_at_ratio, divide_line, add_point_on_line')],
     VN, EXACT + ' Parts: 1,2,3,4,7 (quick), 1..40 (thorough).')
prop('P11', 'Line and sphere: exactly the common points are returned',
     'A line through two distinct points and a sphere yield no point when they are apart, one at tangency and two otherwise, and every returned '
     'point lies on the line and on the sphere.',
     ['inputs'], 'all lines through two distinct points, all centres and radii',
     'One or two lines are tested.', [AS], [('quadratic', AS + ': sphere_line_intersection')], VN + '; residuals of line and sphere equations reduced to zero', EXACT)
prop('P12', 'Bounding box and centre of a polygon line cover all vertices once',
     'The bounding box of a polygon line is the extent of all its vertices and its midpoint is the mean of its distinct vertices, at any '
     'distance from the origin and however often a vertex is visited.',
     ['inputs'], 'all coordinates; chains of fixed small shapes and chains of any length',
     'Sentinels and duplicates only show for coordinates and sharing the tests do not use.',
     [PL], [('extent and mean', PL + ': bounding_box, midpoint, point_set')], VN + ', with aggregates over chains of unbounded length', EXACT)
prop('P27', 'Constructed polygons have the promised vertices in the promised order',
     'A polygon built from nodes connects them in the given order (or the reverse when asked clockwise, starting at the first node) and closes; a square has the '
     'promised side and position; an arc of n parts starts and ends at the promised angles, has every vertex on the circle at equal angular '
     'steps and runs in the promised direction; angle ranges outside the contract are refused.',
     ['inputs'], 'all nodes (2 to 6 of them), sides, centres, radii, angles; arcs of 2 to 8 parts',
     'Constructors are tested at one position each; clockwise arcs not at all.', [PL], [('constructors', PL + ': polygon_from_nodes, square, arc')], VN, EXACT)
prop('P29', 'Turn directions and convexity agree with the cross products',
     'The turning numbers of a closed polygon are the cross products of consecutive edges around the whole polygon; it is convex '
     'exactly when they do not change sign, and a convex polygon is counter-clockwise exactly when their sum is positive and clockwise otherwise.',
     ['inputs'], 'all closed polygons with 3 to 8 vertices (thorough: 12)',
     'A handful of polygons are tested; the closing corner matters only for particular shapes.',
     [PL], [('turns', PL + ': cps, isconvex, iscw, isccw')], VN, EXACT + ' Polygons of 3 to 8 vertices stand for all lengths.')
prop('P30', 'Chain operations: append, close, search, compare',
     'Appending a point at an end adds one segment there; closing adds the closing segment only to an open line; first and last point, '
     'openness, continuity, boundary membership, neighbouring vertices and next segments, the set of vertices, '
     'loose equality and loose containment are those of the chain of segments.',
     ['inputs'], 'all coordinates; every arrangement of up to two segments and a selection (thorough: all) of arrangements of three',
     'Each operation is tested on one or two chains.', [PL],
     [('chain operations', PL + ': append_point_at_end, close, isclosed, iscontinuous, is_on_boundary, neighbour, loose_equal, loose_subset')], VN,
     EXACT + ' Chains of up to six segments stand for all lengths.')

prop('P13', 'Vessel parts have the contour, wall kinds and size of their dimensions',
     'A shell, skirt, flat bottom or room end has exactly the outline given by its diameter(s), height and position, its edges in the '
     'documented order, the documented edges being walls and the others not; the characteristic size of a part is half of its smallest diameter.',
     ['inputs'], 'all positive dimensions and all positions', 'Tests build each part with one or two sets of round dimensions.',
     [HT], [('contours', HT + ': Mantel, StandZarge, Flachboden, RaumEnde make_segments / __init__, wall_segments, nonwall_segments, characteristic_size')], VN,
     EXACT + ' KegelKrempe is not covered (see not_applicable).')
prop('P14', 'Dished ends follow the torispherical contour and keep every wall',
     'A Klopperboden and a Korbbogenboden consist of the cylindrical parts, the knuckle and the crown arcs with the radii of their standard, meeting tangentially, '
     'upright or turned over, at the stated position, every edge but the closing one being a wall.',
     ['inputs'], 'all positive diameters and rim heights, all positions, both orientations',
     'Tests look at one diameter.', [HT], [('contour', HT + ': TorispherischesBoden, Klopperboden, Korbbogenboden')], VN, EXACT)
prop('P15', 'Part graphs and reference points lie where the room search relies on them',
     'The graph of a part has the same walls as its contour (two straight ones for a dished end, towards the side it is turned to), belongs to that part, and '
     'each wall has its reference points on the stated sides: inside and outside of an end, above and below a flat bottom, both sides of both ends of a shell wall, none for a room end.',
     ['inputs'], 'all positive dimensions, positions and orientations',
     'A reference point on the wrong side shows only for particular proportions.', [HT, PG],
     [('graph', PG + ': Graph.__init__, segments'), ('reference points', HT + ': intex_points of the parts')], VN, EXACT +
     ' The classification of shell points as inside / outside is taken as answered by is_internal_point.')
prop('P16', 'A part built from a dictionary is the part the dictionary describes',
     'from_dict of every part yields an object of that very class with every key at its value and the same contour as direct construction; a missing key and an unknown key are refused.',
     ['inputs'], 'all values of the keys; every missing key', 'Tests compare one dictionary per class at most.',
     [HT], [('from_dict', HT + ': from_dict of each part')], VN, EXACT)

EFF = 'points-to, effect and typestate analysis of the source'
prop('P01', 'Asking a question changes nothing',
     'Every property and every query of points, segments, polygon lines, triangles, parts, vessels and rooms, and every helper that computes something from given objects, leaves the '
     'coordinates, end points, segment lists, reference points, names and dimensions of all existing objects as they were; the only thing it may keep is a result for later.',
     ['histories', 'inputs'], 'all public properties and queries, on every kind of object, in any state its constructors and operations produce',
     'A query that reorders, merges or moves its operand damages only what is asked afterwards; tests build fresh objects for each question.',
     [PT, LN, PL, PG, HT, AS], [('queries', 'all properties; comparison, containment, copy, triangulation, grouping and room queries'), ('helpers', PL + ': remove_collinear_points, convex_hull, add, intersecting_lines, walk_segments')],
     EFF, 'Objects are told apart by class, creation site and two or three levels of creation context; constructing properties (make_segments) are not questions; what plotting draws is outside.')
prop('P02', 'Copies, sums and collections share nothing with their originals',
     'Ordered and closed copies, simplified copies, sums and differences of points and lines made from coordinates consist of new objects only; a polygon line, triangle or group built from a list, and every helper that takes a list, '
     'does not keep that list; no operation writes to a default argument, class attribute or module-level object.',
     ['histories'], 'all copies and constructions, whatever is done to original or copy afterwards',
     'Sharing shows only when original and copy are used on, one after the other.',
     [PT, LN, PL, PG, HT], [('copies', PL + ': ordered_copy, closed_copy, remove_collinear_points'), ('constructors', PL + ': PolygonLine.__init__; ' + PG + ': PolygonGroup.__init__'), ('arithmetic', PT + ': __add__, __sub__')],
     EFF, 'A polygon line deliberately holds the segment objects it is given; only the list is its own.')
prop('P03', 'A kept triangulation never outlives the outline it was made for',
     'Every operation that changes the outline of a polygon line (appending, closing, moving, rotating, mirroring, simplifying, splitting a part, building a knuckle between shells, renewing a graph) drops its triangulation before it returns, '
     'so triangles and area asked afterwards are those of the new outline.',
     ['histories'], 'all sequences of operations and questions', 'Only the sequence question - change - question on one object shows it; tests ask once.',
     [PL, PG, HT], [('drop', PL + ': _delete_triangles, _segments_changed and their callers'), ('parts', HT + ': Hauptteil.split, KegelKrempe.make_segments; ' + PG + ': Graph.renew')],
     EFF, 'Per operation and normal exit; changes made directly to a point or segment object the line holds are the business of whoever makes them.')
prop('P05', 'Coincident points are merged again after points came in',
     'Whenever an operation brings new points into a polygon line, the line forgets that its points have been merged, so that the next transformation merges them first; the flag is set by merging only.',
     ['histories'], 'all sequences of appending, closing, simplifying, splitting, renewing and transforming',
     'Needs a transformation, then an append of a coincident point, then another transformation.',
     [PL, PG, HT], [('flag', PL + ': purge, append_point_at_end, append_point_at_beginning; ' + PG + ': Graph.renew; ' + HT + ': split, KegelKrempe')], EFF,
     'Per operation and normal exit; the flag is the attribute `purged`.')
prop('P25', 'Graphs follow their parts and keep no reference point of former walls',
     'Renewing the graph of a part replaces its segments and all three kinds of reference points; splitting a part, cutting at a room end and building a knuckle renew the graph of every part whose segments they change, after the change.',
     ['histories'], 'all sequences of splits and constructions', 'Left-over points matter only for rooms found after a second split.',
     [PG, HT], [('renewal', PG + ': Graph.renew'), ('callers', HT + ': Hauptteil.split, KegelKrempe.make_segments')], EFF, 'Normal exits only.')

prop('P28', 'Triangles: area, angles, quality, and relations to other triangles',
     'The area of a triangle is half the absolute cross product of two of its edges, its angles are those at its three corners, its quality is the sum of their deviations from 60 degrees; '
     'three corners on one line are refused and others are not; triangles are congruent exactly when they have the same corners in whatever order; two triangles are '
     'not disjunct as soon as they are congruent, overlap either way, touch or one encloses the other but not the reverse, and disjunct when no relation holds; two polygon lines are disjunct '
     'exactly when no triangle of one overlaps or coincides with a triangle of the other.',
     ['inputs'], 'all corner coordinates in general position, both senses of rotation; all combinations of answers of the relations',
     'Tests use one or two axis-parallel triangles.', [PL], [('triangle queries', PL + ': Triangle.area, angles, quality, congruent, disjunct, __init__; PolygonLine.disjunct')], VN,
     EXACT + ' Overlap and enclosure themselves are not decided (see not_applicable).')
prop('P31', 'A point is inside when every ray crosses an odd number of edges',
     'A point is reported internal exactly when the rays sent from it cross an odd number of the edges of the polygon; a ray that disagrees with the others does not decide; a vertex of the '
     'polygon is not internal; external means not internal; each ray starts at the point and ends outside the extent of the polygon, wherever the polygon lies, however large or small it is and whatever the random numbers are.',
     ['inputs', 'schedules'], 'all patterns of crossed edges of polygons with 3 and 4 edges (thorough: 6); each stray ray; all values of the random numbers; outlines in every quadrant and of different size',
     'Rays are random: a ray that ends too early, or passes a vertex, shows up once in many runs.', [PL],
     [('ray test', PL + ': is_internal_point, is_external_point')], VN + '; random numbers as symbols, crossings as a table', EXACT +
     ' Which edges a ray crosses is answered by intersection_on_segment (P08); degenerate positions where all rays agree on a wrong parity are outside.')
prop('P34', 'Triangulation runs the named algorithm and keeps only triangles inside',
     'Triangulating runs exactly the named algorithm when nothing is kept or when forced and nothing otherwise; a missing name is refused always and an unknown one whenever it would have to run; the area of a polygon '
     'is the sum of the areas of its triangles; a triangle delivered by the mesher is kept exactly when its centre is inside the polygon, no other vertex of the polygon is inside it and its area is positive.',
     ['inputs', 'histories'], 'all names, with and without kept triangles, forced or not; all answers of the mesher for four vertices; all coordinates',
     'Tests see only complete triangulations of well-behaved polygons.', [PL], [('dispatch', PL + ': triangulate, area, detailled_area'), ('import', PL + ': triangle_mesh')], VN, EXACT)

prop('P17', 'Splitting a part replaces exactly the crossed walls, or nothing',
     'Splitting a part by a height or a room end replaces every edge that the cutting line truly crosses by two edges of the same kind that meet at the crossing, leaves the others as they were, and reports success exactly when '
     'an edge was cut; the graph of the part then has its walls; dished ends are never cut; the line lies at the height asked for and reaches beyond the part; a room end that is not kept becomes wall, open middle and wall between '
     'its ends and the crossings; in a vessel every part is cut by every room end.',
     ['inputs', 'histories'], 'all combinations of crossed, touched and missed walls; repeated cuts; every kind of part; all dimensions and positions',
     'Tests split one shell at one height; what is left of a second cut, or of a cut that touches, is not looked at.', [HT],
     [('split', HT + ': Hauptteil.split, Behalter.cut_by_raumende')], VN + '; crossings as a table', EXACT + ' Conical shells cut once by a room end are outside.')
prop('P24', 'Rooms follow from the cycles: walls, names, containment, common parts',
     'For every two cycles with common parts these are listed once, under the sorted pair of their numbers; a part belongs to a cycle when it is loosely contained in it or has a segment in common; a cycle is contained in '
     'another one exactly when all its points lie within the hull of the other; there is one room for each cycle, named R1, R2 ..., whose outer walls are the parts of the cycle and whose inner walls are the parts of the cycles '
     'contained in it, except those that two of these have in common; the whole boundary is outer and inner walls together and the polygons of the room have their segments.',
     ['inputs', 'histories'], 'all arrangements of a selection of cycle tables with up to five cycles, all answers of the containment tests',
     'Vessels of the tests have few rooms; a room within one of two adjacent rooms does not occur.', [PG, HT],
     [('relations', PG + ': BehalterGraph.overlaps_in_cycles, contained_cycles, segments_in_cycles, all_overlapping_segments; PolygonGroup'), ('rooms', HT + ': Behalter.raum_erstellen, Raum')],
     VN + '; cycles and containment as tables', 'Which cycles are found is not analysed (see not_applicable).')
prop('P36', 'Rooms count as inside or outside of a part as its reference points say',
     'A room is recorded as inner (outer) room of a part exactly when the part bounds the room and all inner (outer) reference points of one of its walls lie in the room, and as indifferent exactly when the indifferent points of one of its walls do not '
     'all lie in it; every part of the vessel is listed by its name with the three sets, and no other.',
     ['inputs'], 'all answers of the point-in-room test, several walls and points of every kind, rooms within rooms and adjacent ones',
     'The answers of all points of all walls have to be combined; tests have vessels where one point would do.', [HT], [('classification', HT + ': Behalter.raum_intex')],
     VN + '; the point-in-room test as a table', 'Walls without any reference point of a kind which other walls of the part have do not occur (P15).')
prop('P37', 'A group of polygons is the graph of its segments',
     'The vertices of a group are numbered without gaps, each once; its edge list has the numbered ends of every segment once, in ascending order; the adjacency of a vertex lists the other end of each segment that ends there, the '
     'degree of a vertex is the number of these; all segments of the group, and the graph made from them, are those of its polygons in order; a group is valid exactly when it has more than two vertices, no dangling or isolated one, all '
     'of degree 2 or 3, an even number of degree 3 and at least one of degree 2, and all its polygons are valid; the polygons found for a set of points are those with a segment between two of them.',
     ['inputs'], 'a selection of groups of up to three polygons with all coordinates; both orders of the numbering; a table of degrees up to 17',
     'Tests have two or three groups with small degrees.', [PG], [('graph views', PG + ': PolygonGroup.points_numbered, as_edgelist, as_adjacency_list, node_degree, isvalid, all_segments, representative_graph, segments_from_points')],
     VN, 'Groups of up to three polygons stand for all groups.')
prop('P26', 'Every stored coordinate is rounded to 8 decimals',
     'The coordinates of every point the library makes or changes are rounded to 8 decimals before they are stored: points given by the user, sums and differences, points of moved, mirrored, rotated, reversed, divided '
     'and merged segments and polygon lines, intersections, arcs, centres, parts of vessels and their reference points.',
     ['inputs', 'histories'], 'all coordinates, offsets, angles and dimensions; a selection of operations, each with all points that exist afterwards',
     'Tests compare with round numbers, where a missing rounding leaves no trace; hashing and the test whether a point is in a set depend on it.', [PT, LN, PL, HT],
     [('storage', PT + ': Point._set_coords'), ('writers', PL + ': rotate_about_origin, mirror_vertical, move')], VN + '; rounding as an opaque value', 'Points made by plotting, meshing and the Delaunay class are not analysed; dished ends are covered through arcs and rotation.')
prop('P35', 'Points and segments are valid exactly while they have coordinates',
     'A point is valid exactly while both its coordinates are present, whatever was done to it before; its coordinates are the last ones set, and an emptied point is empty. Invalid points equal nothing and have no distance. A segment '
     'is valid exactly while both its ends are; invalid segments are neither equal nor loosely equal; invalid new ends are refused. A polygon line is valid exactly when it has a segment, all its segments are valid, each starts where '
     'the one before ends, and no two of them cross.',
     ['inputs', 'histories'], 'all coordinates; a selection of histories of setting and emptying; lines of up to four segments with all answers of the crossing test',
     'Validity is asked everywhere, but tests ask it of fresh objects only.', [PT, LN, PL], [('validity', PT + ': Point.isvalid, _empty, _set_coords, distance'), ('segments', LN + ': LineSegment.isvalid, _set_endpoints'), ('lines', PL + ': PolygonLine.isvalid')], VN,
     'Points of three coordinates and of things that are no numbers are outside.')
prop('P18', 'Without matplotlib everything but drawing works, and drawing does nothing',
     'Every module can be imported, and every function called, in an installation without matplotlib: nothing of matplotlib is imported without a fallback and nothing it would have provided is used on any path that can be reached then.',
     ['inputs'], 'all functions, all paths under constant propagation',
     'Tests do not draw, and run either with or without matplotlib.', [PT, LN, PL, PG, HT], [('flag', 'geometry/__init__.py: _plotting_available'), ('drawing', PT + ', ' + LN + ', ' + PL + ', ' + PG + ', ' + HT + ': plot')],
     'constant propagation with the optional package missing, over every function that can be reached from the public ones', 'Values stored in attributes or passed as arguments are not followed.')
prop('P23', 'Every name, attribute, import and argument that is used exists',
     'No function reads a name that is bound nowhere, a local variable nothing was assigned to before, an attribute of itself that no object of its class can have, or something a module does not have, and no call within '
     'the library passes arguments its callee has no parameters for or leaves out necessary ones.',
     ['inputs'], 'all functions and all their paths', 'The failing constructs sit on paths tests do not take: error messages, drawing, rare kinds of parts.', [PT, LN, PL, PG, HT],
     [('everywhere', 'all modules')], 'name resolution, may-assigned dataflow, attribute resolution over the class hierarchy, arity of resolved calls', 'Attributes of objects other than self are resolved for modules and classes only.')

prop('P38', 'Ordering a loop puts its segments in sequence from the nearest point',
     'However the segments of one simple closed loop are stored, in whatever order and direction, ordering them reports success and leaves the same segments, each once and of its kind, each starting where the one before ends, '
     'the last ending where the first starts, beginning at the vertex closest to the origin; segments that form an open chain are reported as not orderable; an ordered copy is the ordered loop and leaves its original as it was.',
     ['inputs', 'histories'], 'all coordinates in general position; all orders and directions of three segments, selections for up to six; each vertex as the nearest',
     'Tests order two or three fixed polygons; the outcome depends on the order and the direction in which segments happen to be stored.', [PL], [('ordering', PL + ': PolygonLine.order, ordered_copy')], VN,
     'Segments that branch are outside.')
prop('P39', 'Every loop of the walls is found, each once, whichever way the walls run',
     'The loops found for a vessel are exactly the simple closed loops that can be formed from the segments of its parts, each once, in sequence, those with fewer segments first; walking a set of segments reports a loop only if it is one '
     'without branches, and finds it when the segments are nothing but one loop; neither changes the given segments, and the result does not depend on the order or the direction in which they are stored nor on the order in which sets '
     'are iterated.',
     ['inputs', 'histories'], 'all coordinates in general position; a selection of graphs of up to eight segments (loops apart, meeting in a point or a wall, with tails, in a row), with a selection of orders and directions',
     'Tests have a handful of vessels, whose parts are always stored in the same order and direction.', [PL, PG], [('walking', PL + ': walk_segments'), ('combinations', PG + ': BehalterGraph.find_loops')], VN + '; sets in two orders of iteration',
     'The selected graphs stand for all graphs; loops are taken to be valid.')
prop('P40', 'The cycles of a vessel are its loops that do not overlap',
     'Of the loops found, those are kept that do not overlap, as many as possible: a loop that is the union of others and the second one of two equal loops are dropped, a loop that lies within another one is kept besides it, loops apart '
     'are all kept, whatever their areas; no loops give no cycles; every kept loop is in sequence and closed; cycles are numbered from 0 on and found once.',
     ['inputs'], 'a selection of arrangements of up to five loops, with all coordinates; areas by chance equal or sums of each other; both orders of the list and of sets',
     'Whether rooms get lost depends on the ratio of areas that the tests do not vary.', [PG], [('selection', PG + ': BehalterGraph.keep_base_polygons, cycles')], VN + '; areas, overlaps and containment as tables',
     'Loops nested three deep are outside (they are refused).')

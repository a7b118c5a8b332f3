G, A, M, U = "src/core/geom/", "src/core/algorithm/", "src/core/math/", "src/core/util/"
PROPS = []


def P(id, title, statement, quant, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, **kw))


P("C01", "Coordinate comparison, equality and ordinate access",
  "Coordinate comparison is the lexicographic order on (x, y), consistent with 2D equality and antisymmetric and transitive; 2D, 3D and tolerance equality and distances follow their definitions, two missing z being equal; planar distances neither overflow nor vanish in intermediate steps. "
  "Constructors, copies, setters and getters by name or index touch exactly their own ordinate, and a coordinate's dimension and measure counts follow from which ordinates are present.",
  "all coordinates (NaN ordinates included where stated), all pairs and triples, all tolerances and ordinate indices",
  "the laws quantify over all pairs and triples of coordinates; tests compare about a dozen fixed ones",
  [G + "coordinate.rs", G + "coordinates.rs", U + "number_util.rs"],
  [("lexicographic comparison", "Coordinate::compare_to"), ("3D equality with missing z", "Coordinate::equals_3d"), ("dimension classification", "Coordinates::dimension, Coordinates::measures")])
P("C02", "Envelope construction, expansion and measures",
  "An envelope built from points in any order is the smallest axis-parallel rectangle containing them; expansion yields the smallest envelope containing both operands, never moves a bound inwards for non-negative distances, and collapses to null when a negative distance inverts it. "
  "Width, height, area, diameter (without intermediate overflow), extents, centre, intersection and translation follow from the bounds, and the null envelope is absorbing or neutral as documented.",
  "all envelopes including null and degenerate ones, all points, distances and offsets",
  "bounds interact with nullness, degeneracy and sign; tests sample a few rectangles",
  [G + "envelope.rs"],
  [("construction from unordered bounds", "Envelope::init_xy and constructors"), ("null protocol", "Envelope::is_null, set_to_null"), ("expansion", "Envelope::expand_to_include_*, expand_by_*")])
P("C03", "Envelope predicates and distance",
  "Intersection, disjointness, coverage and containment tests between envelopes and points are the exact closed-rectangle relations, false for null envelopes (disjointness true), in every overload, including the two- and four-coordinate forms with unordered corners. "
  "Envelope distance is zero exactly for intersecting envelopes and otherwise the distance between the rectangles, with no intermediate overflow; equality and ordering compare nullness then bounds.",
  "all envelope/envelope, envelope/point and coordinate quadruple combinations",
  "boundary contact, unordered corners and null operands give many combinations; tests hit a few",
  [G + "envelope.rs"],
  [("closed interval comparisons", "Envelope::intersects_*, covers_*, disjoint"), ("rectangle distance", "Envelope::distance"), ("ordering", "Envelope::compare_to, equals")])
P("C04", "Octagonal envelope bounds",
  "An octagonal envelope holds exactly the extremes of x, y, x+y and x-y over everything it was expanded with, whatever the order and kind of the expansions, null inputs contributing nothing. "
  "Intersection, containment, buffering and validity follow from those eight bounds and treat null envelopes as empty.",
  "all sequences of expansions, points, distances, and null operands",
  "no test exercises octagonal envelopes",
  [G + "octagonal_envelope.rs"],
  [("extremes update", "OctagonalEnvelope::expand_to_include_xy"), ("predicates", "OctagonalEnvelope::intersects_*, contains_octagonal_envelope")])
P("C05", "DE-9IM matrix storage, patterns and predicates",
  "The intersection matrix stores and transposes its nine cells faithfully, raises cells only upwards with set-at-least operations, and matches symbols and patterns cell by cell. "
  "Every named spatial predicate (equals, disjoint, intersects, touches, crosses, within, contains, covers, covered-by, overlaps) is its DE-9IM definition for every matrix and pair of dimensions.",
  "all matrices over the dimension values, all symbols and patterns, all dimension pairs",
  "there are 6^9 matrices times dimension pairs; tests evaluate a handful",
  [G + "intersection_matrix.rs", G + "dimension.rs"],
  [("symbol match", "IntersectionMatrix::matches_i32_char"), ("predicates", "IntersectionMatrix::is_*"), ("monotone update", "IntersectionMatrix::set_at_least_*")])
P("C06", "Code tables: dimension, location, position and quadrant",
  "Dimension and location codes convert to their symbols and back without loss, the opposite of a position swaps left and right and fixes the rest. "
  "Quadrants partition directions by the signs of their components with closed-open boundaries, and opposite, common, half-plane and northern tests follow from quadrant arithmetic.",
  "all codes, symbols, directions and quadrant pairs",
  "tests cover no table exhaustively",
  [G + "dimension.rs", G + "location.rs", G + "position.rs", G + "quadrant.rs"],
  [("symbol tables", "Dimension::to_dimension_symbol, to_dimension_value, Location::to_location_symbol"), ("quadrant of a direction", "Quadrant::quadrant")])
P("C07", "Sequence comparators are lexicographic orders",
  "Coordinate sequences, line strings and rings compare lexicographically over coordinates, ordinate by ordinate up to the smaller dimension, NaN sorting first and a proper prefix before its extension. "
  "Comparing the operands in the other order negates the result.",
  "all pairs of sequences of any length and dimension, NaN included",
  "an order is a statement about all pairs and lengths; tests have none for comparators",
  [G + "coordinate_sequence_comparator.rs", G + "line_string.rs", G + "linear_ring.rs"],
  [("ordinate comparison with NaN", "CoordinateSequenceComparator::compare"), ("lexicographic loop", "CoordinateSequenceComparator::compare_coordinate_array_sequence")])
P("C08", "Double-double sign, comparison and value semantics",
  "Sign, zero, NaN, minimum, maximum, absolute value, ordering and equality of extended-precision numbers follow the (high, low) pair lexicographically. "
  "Rounding operations follow floor, ceiling, truncation and half-up definitions, and operations named for computing a new value leave their operands unchanged.",
  "all component pairs",
  "tests use a few literals; operand mutation is never checked",
  [M + "dd.rs"],
  [("lexicographic comparison", "DD::gt, lt, compare_to"), ("rounding", "DD::floor, ceil, rint, trunc")])
P("C09", "Double-double arithmetic carries its error terms",
  "Sum, difference, product, quotient, reciprocal, square and determinant of extended-precision numbers carry the exact rounding error of the leading operation into the low component, with the same result through in-place and value-returning forms. "
  "In exact arithmetic each operation, and integer powers and square roots, is the mathematical one.",
  "all component pairs (floating-point operations in their evaluation order)",
  "dropping an error term is invisible at test tolerances except on adversarial inputs",
  [M + "dd.rs"],
  [("two-sum", "DD::self_add_*"), ("split product", "DD::self_multiply_hi_lo"), ("quotient", "DD::self_divide_hi_lo")])
P("C18", "Area, length and centroid formulas",
  "Ring area is the signed shoelace sum (positive for clockwise rings) for coordinate vectors and sequences alike, length is the sum of segment lengths (none overflowing or vanishing in intermediate steps), and both are zero below their minimum sizes. "
  "The centroid is the weighted mean of the highest-dimension components present, falling back from area to length to points.",
  "all sequences of any length",
  "tests check a few small polygons",
  [A + "area.rs", A + "length.rs", A + "centroid.rs"],
  [("shoelace sum", "Area::of_ring_signed_*"), ("segment sum", "Length::of_line"), ("weighted sums", "Centroid::add_*")])
P("C10", "Orientation index and determinant signs",
  "The orientation of a point relative to a directed line is the exact sign of the cross product (1 left, -1 right, 0 collinear), in every coordinate form, antisymmetric in the line's end points and invariant under rotation of the three points. "
  "The fast floating-point filter answers only when the signs or a determinant above its error bound decide it, and otherwise the extended-precision determinant does; determinant signs follow the same rule.",
  "all triples of coordinates (sign laws over the reals; filter structure in floating point)",
  "tests sample a few orientations; antisymmetry and rotation are laws over all triples",
  [A + "orientation.rs", A + "cg_algorithms_dd.rs"],
  [("filter", "CGAlgorithmsDD::orientation_index_filter"), ("extended precision determinant", "CGAlgorithmsDD::orientation_index_f64"), ("orientation entry points", "Orientation::index, index_f64")])
P("C11", "Line intersection point",
  "The computed intersection of two lines, in extended precision, in homogeneous coordinates or after conditioning, is the common point of both lines, and parallel lines have none. "
  "A line meets a segment at a segment end lying on the line, nowhere when both ends lie strictly on one side, and otherwise at the intersection of the lines.",
  "all quadruples of coordinates, over the reals",
  "tests compare selected pairs with tolerances",
  [A + "intersection.rs", A + "cg_algorithms_dd.rs", A + "hcoordinate.rs"],
  [("homogeneous solution", "HCoordinate::*"), ("conditioning", "Intersection::intersection"), ("line against segment", "Intersection::line_segment")])
P("C12", "Segment intersection classification",
  "Two segments are classified as having no intersection, one point or a collinear overlap exactly as their end points' orientations and extents dictate; the reported points of an overlap are the ends of the common part, and a single common point at an end is that end's coordinate. "
  "A computed crossing point lies in both extents or falls back to the nearest end point, and z values come from the coordinates themselves, from interpolation along a segment, or from the average of both segments, missing values ignored.",
  "all quadruples of coordinates, z missing or present",
  "classification has many boundary and collinear cases; tests hit selected ones",
  [A + "robust_line_intersector.rs"],
  [("classification", "RobustLineIntersector::compute_intersect"), ("collinear overlap", "RobustLineIntersector::compute_collinear_intersection"), ("z interpolation", "RobustLineIntersector::z_interpolate_*")])
P("C13", "Distances between points, lines and segments",
  "Point to segment distance is perpendicular distance within the segment's span and end-point distance outside; point to line is perpendicular distance (signed positive to the right); point to line string is the least over its segments. "
  "Segment to segment distance is zero when they meet, otherwise the least of the four end-point distances; the 3D forms follow the clamped projections and fall back to planar distance when a z is missing.",
  "all points and segments including degenerate ones, line strings of any length",
  "tests check a few positions each",
  [A + "distance.rs", A + "cg_algorithms_3d.rs"],
  [("projection parameter", "Distance::point_to_segment"), ("crossing test", "Distance::segment_to_segment"), ("clamped 3D projection", "CGAlgorithms3D::distance_*")])
P("C14", "Angle conversions, normalisation and differences",
  "Degree conversion, vector angle, acute and obtuse tests, projection along an angle and snapped sine and cosine follow their definitions; normalising yields the equivalent angle in (-pi, pi], positive normalising the one in [0, 2 pi), idempotent and never outside range even after rounding. "
  "The unoriented difference is symmetric and in [0, pi] for normalised angles; the oriented angle, bisector, interior angle and turn agree with it.",
  "all angles of any magnitude, all coordinates",
  "range guarantees quantify over all finite angles; tests use multiples of pi",
  [A + "angle.rs"],
  [("normalisation", "Angle::normalize, normalize_positive"), ("difference", "Angle::diff, angle_between*"), ("turn", "Angle::get_turn, bisector, interior_angle")])
P("C15", "Line segment queries",
  "Length, extent, mid point, orientation of another segment, normalisation, equality and order follow from the end points. "
  "Projection factor and fraction, points along and offset sideways, projections, reflection, closest points, distances and intersection of segments satisfy their geometric definitions, including degenerate segments and positions beyond the ends.",
  "all segments, points, fractions and offsets, over the reals",
  "tests sample a handful of positions",
  [G + "line_segment.rs"],
  [("projection", "LineSegment::projection_factor, project_*"), ("offset and reflection", "LineSegment::point_along_offset, reflect"), ("closest points", "LineSegment::closest_point, closest_points")])
P("C16", "Triangle formulas",
  "Area (plain, signed, 3D), perimeter, longest side, centroid, in-centre and circumradius of a triangle are their formulas, the circumcentre in doubles and in extended precision is equidistant from the corners, and perpendicular and angle bisectors pass where they should. "
  "Interpolated z lies on the plane of the corners and reproduces their z; acuteness, orientation and point intersection follow from angles and sides; methods equal the functions of the corners.",
  "all triangles, over the reals",
  "tests use a few triangles with tolerances",
  [G + "triangle.rs"],
  [("circumcentre", "Triangle::circumcentre*"), ("plane interpolation", "Triangle::interpolate_z"), ("area", "Triangle::area, signed_area, area_3d")])
P("C17", "Vector algebra in two and three dimensions",
  "Construction, component access, sum, difference, scaling, negation, dot product, length, normalisation, weighted sums and averages of 2D and 3D vectors follow their componentwise definitions. "
  "Direction angles, unoriented and oriented angles, rotations by an angle and by quarter circles, parallelism and equality agree with them; planar lengths do not overflow in intermediate steps.",
  "all vectors, scalars, angles and quarter-circle counts",
  "tests check a few vectors; 3D vectors are untested",
  [M + "vector_2d.rs", M + "vector_3d.rs"],
  [("rotation", "Vector2D::rotate, rotate_by_quarter_circle"), ("normalisation", "Vector2D::normalize, Vector3D::normalize"), ("algebra", "Vector2D::*, Vector3D::*")])
P("C25", "Point location on lines and in rings",
  "A point is on a segment exactly when it is collinear with it and within its extent, and on a line when it is on one of its segments. "
  "In a ring it is on the boundary when on any segment and otherwise inside or outside by the parity of half-open ray crossings, identically for coordinate vectors and both kinds of sequence, whatever the number of vertices.",
  "all points and rings of any length, including horizontal edges and vertices at the ray's height",
  "vertex-crossing and horizontal-edge cases over arbitrary rings cannot be enumerated by tests",
  [A + "ray_crossing_counter.rs", A + "point_location.rs"],
  [("half-open crossing rule", "RayCrossingCounter::count_segment"), ("ring loop", "RayCrossingCounter::locate_point_in_ring_*"), ("on-line loop", "PointLocation::is_on_line_*")])
P("C19", "Coordinate sequences: access, copies and transforms",
  "A sequence, array-backed or packed, gives back the ordinates it was built from or last set to, by index or name, and setting one changes no other; dimension, measure count and size follow from construction, and copies share no state. "
  "Swap, reverse, copy, scroll, ring closing and extension move whole coordinates, z and measure included, to the stated positions and leave the rest; equality, ring test, minimum and index search follow their definitions for both kinds alike.",
  "all sequences of any length, all valid indices, layouts with and without z and measure",
  "in-place moves over every length, index and ordinate cannot be enumerated; tests use a few short sequences",
  [G + "coordinate_array_sequences.rs", G + "packed_coordinate_sequences.rs", G + "implementation/coordinate_array_sequence.rs", G + "implementation/packed_coordinate_sequence_double.rs", G + "implementation/coordinate_array_sequence_factory.rs", G + "implementation/packed_coordinate_sequence_factory.rs"],
  [("ordinate addressing", "CoordinateArraySequence::get_ordinate, PackedCoordinateSequenceDouble::get_ordinate"), ("scroll and reverse in place", "CoordinateArraySequences::scroll_*, reverse"), ("ring closing", "CoordinateArraySequences::ensure_valid_ring, create_closed_ring")])
P("C20", "Coordinate arrays and lists",
  "Comparison, equality, reversed equality, direction, ring test, search, dimension, repetition and validity tests of coordinate arrays follow their definitions, and copying, scrolling, extracting, intersecting, stripping and removing repetitions give exactly the stated coordinates in order, every ordinate kept. "
  "A coordinate list built or extended with repetition disallowed holds one of each run of 2D-equal neighbours, inserts at the stated index, adds stretches forwards or backwards, and closes by repeating its first coordinate unless already closed.",
  "all arrays and lists of any length, indices, flags; ordinates including NaN where validity is tested",
  "runs of repeats, rotations and stretches over every length and index cannot be enumerated; tests use a few arrays",
  [G + "coordinate_arrays.rs", G + "coordinate_list.rs"],
  [("comparison and direction", "CoordinateArrays::compare, increasing_direction, is_equal_reversed"), ("rotation", "CoordinateArrays::scroll_index_ensure_ring"), ("repetition rule", "CoordinateArrays::remove_*, CoordinateList::add_*"), ("closing", "CoordinateList::close_ring")])
P("C21", "Geometries: components, copies, reversal, comparison, normal form",
  "Points, lines, rings, polygons and their collections hold exactly the coordinates and components they were built from, report counts, ends, emptiness, closedness, dimension and segments accordingly, and copies and reversals keep every ordinate, component and the precision model, reversing order only where stated. "
  "Equality within a tolerance, comparison and equality under a comparator go component by component; a normalised line or ring starts as stated, with the stated orientation, and a polygon is a rectangle exactly when a hole-free axis-parallel five-point ring.",
  "all points, lines, rings, polygons and collections of any size",
  "component-wise behaviour over every number of components and coordinates cannot be enumerated; collections are barely tested",
  [G + "point.rs", G + "line_string.rs", G + "linear_ring.rs", G + "polygon.rs", G + "multi_point.rs", G + "multi_line_string.rs", G + "multi_polygon.rs", G + "geometry_factory.rs"],
  [("component copies", "Polygon::copy, MultiPolygon::reverse"), ("normal form", "Polygon::normalize, LineString::normalize"), ("comparison", "LineString::compare_to_same_class, Polygon::compare_to_with_comparator")])
P("C22", "Envelopes of geometries stay coherent",
  "The envelope of a point, line, ring, polygon or point collection is exactly the extent of its coordinates (a polygon's, of its shell; null when empty), however often it is asked for. "
  "Copies and reversals made before or after the envelope was computed and cached report the same extent, and the cache never goes stale.",
  "all geometries of any size, every order of asking, copying and reversing",
  "staleness needs particular histories over arbitrary geometries",
  [G + "geometry.rs", G + "line_string.rs", G + "linear_ring.rs", G + "polygon.rs", G + "multi_point.rs"],
  [("cache fill", "LinearRing::get_envelope_internal, Polygon::get_envelope_internal"), ("cache carried by copies", "LinearRing::copy, Polygon::copy"), ("extent of components", "Polygon::compute_envelope_internal, MultiPoint::compute_envelope_internal")])
P("C26", "Precision models round to their grid",
  "A floating model changes nothing, a single-precision one rounds to single precision, a fixed one rounds x and y to the nearest multiple of its grid with ties towards positive infinity (given as scale or, negative, as grid size), never z, m or a NaN. "
  "The result is the whole number divided by the scale, or multiplied by the grid size, rounded once. Rounding is idempotent and moves a value by at most half a cell; scale, grid size, type, significant digits, equality, order and copies report the model as set.",
  "all values, coordinates, scales and grid sizes other than zero",
  "ties, negative values and grid-size models are a few sampled points in tests",
  [G + "precision_model.rs"],
  [("rounding", "PrecisionModel::make_precise, round"), ("scale or grid size", "PrecisionModel::set_scale"), ("order", "PrecisionModel::compare_to")])
P("C27", "Ring orientation",
  "A ring, as vector or sequence, is counter-clockwise exactly when it turns left at the end of its last highest upward segment or, on a flat top, when that top runs leftwards; flat rings, rings folded back on themselves there and rings of fewer than four points are not. "
  "It never depends on where repeated or collinear points lie elsewhere.",
  "all coordinate vectors and sequences of any length, closed or not",
  "flat caps, repeated points and folded rings at arbitrary positions cannot be enumerated",
  [A + "orientation.rs"],
  [("highest upward segment", "Orientation::is_ccw_coordinate_array_sequence"), ("flat cap", "Orientation::is_ccw_coordinate_array_sequence")])
P("C28", "Linear systems",
  "Solving a system gives the solution of its equations, rows exchanged as needed, and none exactly when the system is singular or its sizes disagree. "
  "Exchanging rows moves exactly the entries of the two.",
  "all systems of one and two equations and families of three equations that need elimination and row exchanges, over the reals; sizes of any kind",
  "pivot choices depend on relative magnitudes and zero pivots that a few sampled systems miss",
  [M + "matrix.rs"],
  [("pivoting and elimination", "Matrix::solve"), ("row exchange", "Matrix::swap_rows_*")])
P("C29", "Numeric helpers",
  "Clamping, integer ceiling division by positive divisors, index wrapping, average, extremes and equality within a tolerance follow their definitions. "
  "The quasi-random sequence steps by its increment modulo one and stays in [0, 1).",
  "all arguments, over the integers and reals",
  "signs and boundary values combine in ways sampled tests miss",
  ["src/core/util/math_util.rs", "src/core/util/number_util.rs"],
  [("ceiling", "MathUtil::ceil"), ("wrapping", "MathUtil::wrap"), ("step", "MathUtil::quasirandom_curr_alpha")])
P("C30", "Text forms",
  "The text of a coordinate is its x, y and z in that order, in parentheses; that of a sequence is its coordinates' texts in order, separated by a comma and a blank, in parentheses, for any length including none. "
  "Envelopes show the x range then the y range, vectors their components in order, a double-double its high and low part, and a precision model its kind, with its scale when fixed; every number appears in the plain form of the language.",
  "all values, all sequences of any length",
  "texts of sequences depend on length and order, and numbers in them on every ordinate; no test looks at most of them",
  [G + "coordinate.rs", G + "envelope.rs", G + "precision_model.rs", G + "implementation/coordinate_array_sequence.rs", M + "dd.rs", M + "vector_2d.rs", M + "vector_3d.rs"],
  [("sequence text", "CoordinateArraySequence as Display"), ("coordinate text", "Coordinate as Display"), ("precision text", "PrecisionModel as Display")])
P("C31", "Shuffling is uniform",
  "A shuffle of n indices returns each of the n! orders equally often.",
  "all n and all states of the random source",
  "a distribution over runs, which no single result shows",
  [U + "math_util.rs"],
  [("exchange with a random earlier element", "MathUtil::shuffle")],
  na="a distribution over the draws of an external random generator: no static rule over the source bounds it; that every draw stays in range and no index leaves the vector is decided under C23")
P("C32", "Exact orientation sign under rounding",
  "The sign the orientation test returns is that of the exact determinant for every triple of finite doubles, however nearly collinear.",
  "all triples of coordinates whose ordinates are finite doubles",
  "the failing triples lie within a few units in the last place of collinear",
  [A + "cg_algorithms_dd.rs", A + "orientation.rs", M + "dd.rs"],
  [("filter then extended precision", "CGAlgorithmsDD::orientation_index, CGAlgorithmsDD::orientation_index_filter")],
  na="a theorem of rounding-error analysis over double-double products (106 bits do not hold every exact determinant): no dataflow or syntactic argument in reach bounds it; what is structural about it (the filter answers only when its bound holds, the exact formula is what is evaluated in double-double, antisymmetry) is decided under C08 to C10")
P("C23", "No operation panics within its preconditions",
  "Within the documented preconditions (indices and ranges inside the sequence, ordinate indices and dimensions that exist, non-zero divisors, a point built from at most one coordinate) no public operation panics: no index is out of range, no unsigned subtraction wraps, no division by zero, no missing value is unwrapped. "
  "Empty sequences, lines, rings, polygons and collections, null envelopes, absent z and m and single-element inputs are inside the preconditions wherever the operation is meaningful.",
  "all arguments of every public operation that meet the preconditions written as the first test of the operation's wrapper",
  "the failing inputs are the empty, single-element and boundary ones; the tests never pass most of them",
  [G, A, M, U],
  [("slice and vector indexing", "every index expression reached from a public operation"), ("unsigned arithmetic on lengths", "CoordinateArraySequences, CoordinateArrays, PackedCoordinateSequences"), ("unwrapping of optional results", "RobustLineIntersector, LineSegment, Centroid")],
  technique="static analysis: abstract interpretation of type-resolved MIR into value graphs; every assertion reached (index, overflow of lengths, division, unwrap) is an obligation 'path condition implies condition', decided by a case-splitting prover",
  level_note="Each reached assertion is decided for all inputs that meet the wrapper's precondition; assertions left open are listed in the evidence and not claimed. "
  "Arithmetic overflow of i32 values and memory exhaustion are outside. Trusts rustc's MIR, the driver and the engine's models of std.")
P("C24", "Every operation terminates",
  "Within their preconditions all operations of the library return: every loop reached has a trip count fixed on entry, or a measure that is bounded while the loop goes on and falls by a fixed amount in every round. "
  "Comparison, normalisation, exponentiation and list copying do not hang on equal, empty, repeated or reversed inputs.",
  "all arguments of every public operation that meet the preconditions written as the first test of the operation's wrapper, reals standing for finite doubles",
  "a hang shows only for the inputs that make no progress; a test suite that samples others passes",
  [G, A, M, U],
  [("index loops", "CoordinateArrays::compare, Polygon::compare_to, LineString::compare_to"), ("angle reduction", "Angle::normalize, Angle::normalize_positive"), ("binary exponentiation", "DD::pow"), ("cyclic search", "Orientation::is_ccw_coordinate_array_sequence")],
  over=["inputs"],
  technique="static analysis: termination analysis over type-resolved MIR: loop recurrences by abstract interpretation, trip counts, synthesised ranking measures; a violation is a recurrence state shown to come back to itself",
  level_note="Each loop reached is given a trip count or a ranking measure for all inputs that meet the wrapper's precondition; loops without one (the cyclic search in Orientation::is_ccw, whose exit depends on data) are listed in the evidence and not claimed. "
  "An alarm needs a loop state proved to repeat. Doubles are read as reals: infinities are outside. Trusts rustc's MIR, the driver and the engine's models of std.")

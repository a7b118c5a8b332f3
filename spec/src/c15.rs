// C15: line segment operations.
use crate::core::algorithm::distance::Distance;
use crate::core::algorithm::intersection::Intersection;
use crate::core::algorithm::orientation::Orientation;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::line_segment::LineSegment;

type C = Coordinate;
type S = LineSegment;
fn d(a: &C, b: &C) -> f64 { (a.x - b.x).hypot(a.y - b.y) }
fn xy(c: &C) -> (f64, f64) { (c.x, c.y) }
fn ends(s: &S) -> (C, C) { (s.p0, s.p1) }
fn eq(a: &C, b: &C) -> bool { a.x == b.x && a.y == b.y }

/// constructors and setters keep the end points in order
/// @opaque Coordinate::from_coordinate
pub fn c15_make__impl(a: &C, b: &C, s: &S, x: f64, y: f64) -> ([(C, C); 3], C, C) {
    let (n, m) = (S::new_from_xy(x, y, y, x), S::new_from_coordinates(a, b));
    (([ends(&S::new_from_coordinates(a, b)), ends(&S::new_from_line_segment(s)), ends(&n)]), m.get_coordinate(0), m.get_coordinate(1))
}
pub fn c15_make__spec(a: &C, b: &C, s: &S, x: f64, y: f64) -> ([(C, C); 3], C, C) {
    let f = |c: &C| C::from_coordinate(c);
    ([(f(a), f(b)), (f(&s.p0), f(&s.p1)), (f(&C::new_xy(x, y)), f(&C::new_xy(y, x)))], f(a), f(b))
}
/// setting coordinates changes x and y of both ends
pub fn c15_set__impl(s: &S, a: &C, b: &C, t: &S) -> [(f64, f64); 4] {
    let (mut u, mut v) = (*s, *s);
    u.set_coordinates(a, b);
    v.set_coordinates_from_line_segment(*t);
    [xy(&u.p0), xy(&u.p1), xy(&v.p0), xy(&v.p1)]
}
pub fn c15_set__spec(s: &S, a: &C, b: &C, t: &S) -> [(f64, f64); 4] { [xy(a), xy(b), xy(&t.p0), xy(&t.p1)] }
/// extent, length, axis parallelism and mid point
pub fn c15_extent__impl(s: &S) -> ([f64; 5], bool, bool, (f64, f64)) {
    ([s.min_x(), s.max_x(), s.min_y(), s.max_y(), s.get_length()], s.is_horizontal(), s.is_vertical(), xy(&s.mid_point()))
}
pub fn c15_extent__spec(s: &S) -> ([f64; 5], bool, bool, (f64, f64)) {
    let (a, b) = (&s.p0, &s.p1);
    ([a.x.min(b.x), a.x.max(b.x), a.y.min(b.y), a.y.max(b.y), d(a, b)], a.y == b.y, a.x == b.x, ((a.x + b.x) / 2.0, (a.y + b.y) / 2.0))
}
/// direction angle
pub fn c15_angle__impl(s: &S) -> f64 { s.angle() }
pub fn c15_angle__spec(s: &S) -> f64 { (s.p1.y - s.p0.y).atan2(s.p1.x - s.p0.x) }
/// the orientation of another segment is the side it lies on, zero when it straddles the line
/// @opaque Orientation::index
pub fn c15_orientation__impl(s: &S, t: &S, p: &C) -> (i32, i32) { (s.orientation_index_line_segment(t), s.orientation_index_coordinate(p)) }
pub fn c15_orientation__spec(s: &S, t: &S, p: &C) -> (i32, i32) {
    let (a, b) = (Orientation::index(&s.p0, &s.p1, &t.p0), Orientation::index(&s.p0, &s.p1, &t.p1));
    (if a < 0 && b > 0 || a > 0 && b < 0 { 0 } else if a > 0 || b > 0 { a.max(b) } else { a.min(b) }, Orientation::index(&s.p0, &s.p1, p))
}
/// reversal swaps the ends; normalisation puts the lexicographically smaller end first
pub fn c15_normalize__impl(s: &S) -> ((C, C), (C, C)) { let (mut u, mut v) = (*s, *s); u.reverse(); v.normalize(); (ends(&u), ends(&v)) }
pub fn c15_normalize__spec(s: &S) -> ((C, C), (C, C)) {
    let (a, b) = (s.p0, s.p1);
    ((b, a), if b.x < a.x || b.x == a.x && b.y < a.y { (b, a) } else { (a, b) })
}
/// distances to points and segments are the distance functions of the ends
/// @opaque Distance::point_to_segment, Distance::segment_to_segment
pub fn c15_distance__impl(s: &S, t: &S, p: &C) -> (f64, f64) { (s.distance_coordinate(p), s.distance_line_segment(t)) }
pub fn c15_distance__spec(s: &S, t: &S, p: &C) -> (f64, f64) { (Distance::point_to_segment(p, &s.p0, &s.p1), Distance::segment_to_segment(&s.p0, &s.p1, &t.p0, &t.p1)) }
/// perpendicular distance, positive to the left when oriented; end point distance for degenerate segments
/// @opaque Distance::point_to_line_perpendicular, Orientation::index
pub fn c15_perpendicular__impl(s: &S, p: &C) -> (f64, f64) { (s.distance_perpendicular(p), s.distance_perpendicular_oriented(p)) }
pub fn c15_perpendicular__spec(s: &S, p: &C) -> (f64, f64) {
    if eq(&s.p0, &s.p1) { return (d(&s.p0, p), d(&s.p0, p)); }
    let v = Distance::point_to_line_perpendicular(p, &s.p0, &s.p1);
    (v, if Orientation::index(&s.p0, &s.p1, p) < 0 { -v } else { v })
}
/// the point at a fraction of the length, and offset sideways (positive to the left)
pub fn c15_along__impl(s: &S, f: f64, o: f64) -> ((f64, f64), (f64, f64)) { (xy(&s.point_along(f)), xy(&s.point_along_offset(f, o))) }
pub fn c15_along__spec(s: &S, f: f64, o: f64) -> ((f64, f64), (f64, f64)) {
    let (dx, dy) = (s.p1.x - s.p0.x, s.p1.y - s.p0.y);
    let (x, y) = (s.p0.x + f * dx, s.p0.y + f * dy);
    if o == 0.0 { return ((x, y), (x, y)); }
    let l = dx.hypot(dy);
    ((x, y), (x - o * dy / l, y + o * dx / l))
}
/// the offset segment is both ends offset
/// @opaque LineSegment::point_along_offset
pub fn c15_offset__impl(s: &S, o: f64) -> (C, C) { ends(&s.offset(o)) }
pub fn c15_offset__spec(s: &S, o: f64) -> (C, C) { let f = |c: &C| C::from_coordinate(c); (f(&s.point_along_offset(0.0, o)), f(&s.point_along_offset(1.0, o))) }
fn pf(s: &S, p: &C) -> f64 {
    let (dx, dy) = (s.p1.x - s.p0.x, s.p1.y - s.p0.y);
    if eq(p, &s.p0) { return 0.0; }
    if eq(p, &s.p1) { return 1.0; }
    if dx * dx + dy * dy <= 0.0 { return f64::NAN; }
    ((p.x - s.p0.x) * dx + (p.y - s.p0.y) * dy) / (dx * dx + dy * dy)
}
/// the projection factor is the dot product over the squared length, exact at the ends
pub fn c15_factor__impl(s: &S, p: &C) -> f64 { s.projection_factor(p) }
pub fn c15_factor__spec(s: &S, p: &C) -> f64 { pf(s, p) }
/// the segment fraction is the projection factor clamped to [0, 1]
/// @mode nan
/// @opaque LineSegment::projection_factor
pub fn c15_fraction__impl(s: &S, p: &C) -> f64 { s.segment_fraction(p) }
pub fn c15_fraction__spec(s: &S, p: &C) -> f64 {
    let f = s.projection_factor(p);
    if f.is_nan() || f > 1.0 { 1.0 } else if f < 0.0 { 0.0 } else { f }
}
/// projections of points land on the line at the projection factor, keeping the point's other ordinates
/// @opaque LineSegment::projection_factor
pub fn c15_project__impl(s: &S, p: &C, f: f64) -> (C, C) { (s.project_coordinate(p), s.project_coordinate_with_projection_factor(p, f)) }
pub fn c15_project__spec(s: &S, p: &C, f: f64) -> (C, C) {
    let at = |r: f64| { let mut c = C::from_coordinate(p); c.x = s.p0.x + r * (s.p1.x - s.p0.x); c.y = s.p0.y + r * (s.p1.y - s.p0.y); c };
    (if eq(p, &s.p0) || eq(p, &s.p1) { C::from_coordinate(p) } else { at(s.projection_factor(p)) }, at(f))
}
/// the projection of a segment is clamped to this segment, absent when it lies beyond one end
/// @opaque LineSegment::projection_factor
pub fn c15_project_segment__impl(s: &S, t: &S) -> Option<((f64, f64), (f64, f64))> { match s.project_line_segment(t) { Some(u) => Some((xy(&u.p0), xy(&u.p1))), None => None } }
pub fn c15_project_segment__spec(s: &S, t: &S) -> Option<((f64, f64), (f64, f64))> {
    let (f, g) = (s.projection_factor(&t.p0), s.projection_factor(&t.p1));
    if f >= 1.0 && g >= 1.0 || f <= 0.0 && g <= 0.0 { return None; }
    let at = |r: f64| { let r = if r < 0.0 { 0.0 } else if r > 1.0 { 1.0 } else { r }; (s.p0.x + r * (s.p1.x - s.p0.x), s.p0.y + r * (s.p1.y - s.p0.y)) };
    Some((at(f), at(g)))
}
/// reflection in the line: the mid point of point and image is on the line and their difference at right angles to it
pub fn c15_reflect__impl(s: &S, p: &C) -> (f64, f64) { xy(&s.reflect(p)) }
pub fn c15_reflect__spec(s: &S, p: &C) -> (f64, f64) {
    let (dx, dy) = (s.p1.x - s.p0.x, s.p1.y - s.p0.y);
    let r = ((p.x - s.p0.x) * dx + (p.y - s.p0.y) * dy) / (dx * dx + dy * dy);
    (2.0 * (s.p0.x + r * dx) - p.x, 2.0 * (s.p0.y + r * dy) - p.y)
}
/// the closest point is the projection when that is inside, else the nearer end
/// @opaque LineSegment::projection_factor, Coordinate::distance
pub fn c15_closest__impl(s: &S, p: &C) -> (f64, f64) { xy(&s.closest_point(p)) }
pub fn c15_closest__spec(s: &S, p: &C) -> (f64, f64) {
    let f = s.projection_factor(p);
    if f > 0.0 && f < 1.0 { return (s.p0.x + f * (s.p1.x - s.p0.x), s.p0.y + f * (s.p1.y - s.p0.y)); }
    if s.p0.distance(p) < s.p1.distance(p) { xy(&s.p0) } else { xy(&s.p1) }
}
/// the closest points of two segments: their intersection, else the closest of the four end point projections
/// @opaque LineSegment::closest_point, LineSegment::intersection, Coordinate::distance
pub fn c15_closest_points__impl(s: &S, t: &S) -> Vec<C> { s.closest_points(t) }
pub fn c15_closest_points__spec(s: &S, t: &S) -> Vec<C> {
    if let Some(c) = s.intersection(t) { return vec![C::new_xy(c.x, c.y)]; }
    let (a, b, c, e) = (s.closest_point(&t.p0), s.closest_point(&t.p1), t.closest_point(&s.p0), t.closest_point(&s.p1));
    let d = [a.distance(&t.p0), b.distance(&t.p1), c.distance(&s.p0), e.distance(&s.p1)];
    let m = d[0].min(d[1]).min(d[2]).min(d[3]);
    if d[0] == m { vec![a, t.p0] } else if d[1] == m { vec![b, t.p1] } else if d[2] == m { vec![s.p0, c] } else { vec![s.p1, e] }
}
/// line intersection of two segments is that of their end points
/// @opaque Intersection::intersection
pub fn c15_line_intersection__impl(s: &S, t: &S) -> Option<C> { s.line_intersection(*t) }
pub fn c15_line_intersection__spec(s: &S, t: &S) -> Option<C> { Intersection::intersection(&s.p0, &s.p1, &t.p0, &t.p1) }
/// equality, topological equality and lexicographic order of segments
pub fn c15_order__impl(s: &S, t: &S) -> (bool, bool, i32) { (s.equals(t), s.equals_topo(t), s.compare_to(t)) }
pub fn c15_order__spec(s: &S, t: &S) -> (bool, bool, i32) {
    let c = |a: &C, b: &C| if a.x < b.x { -1 } else if a.x > b.x { 1 } else if a.y < b.y { -1 } else if a.y > b.y { 1 } else { 0 };
    let k = c(&s.p0, &t.p0);
    let same = eq(&s.p0, &t.p0) && eq(&s.p1, &t.p1);
    (same, same || eq(&s.p0, &t.p1) && eq(&s.p1, &t.p0), if k != 0 { k } else { c(&s.p1, &t.p1) })
}
/// the crossing of two segments is the intersector's first point, none when they miss
/// @opaque RobustLineIntersector::compute_intersection_4, RobustLineIntersector::compute_intersect, RobustLineIntersector::has_intersection, RobustLineIntersector::get_intersection, RobustLineIntersector::intersection, RobustLineIntersector::compute_collinear_intersection, RobustLineIntersector::nearest_endpoint, RobustLineIntersector::copy_with_z_interpolate, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5, RobustLineIntersector::intersection_safe, Envelope::intersects_4, Envelope::intersects_3, Orientation::index, Distance::point_to_segment, Intersection::intersection
pub fn c15_crossing__impl(s: &S, t: &S) -> Option<C> { s.intersection(t) }
pub fn c15_crossing__spec(s: &S, t: &S) -> Option<C> {
    let mut li = crate::core::algorithm::robust_line_intersector::RobustLineIntersector::default();
    li.compute_intersection_4(&s.p0, &s.p1, &t.p0, &t.p1);
    if li.has_intersection() { Some(li.get_intersection(0)) } else { None }
}
/// a default segment has default ends
pub fn c15_default__impl() -> (C, C) { ends(&LineSegment::default()) }
pub fn c15_default__spec() -> (C, C) { (Coordinate::default(), Coordinate::default()) }
fn scale(d: f64) -> i32 { if d.is_nan() { -1 } else if d == 0.0 { 0 } else if d.is_infinite() { 2 } else { 1 } }
/// the length of a segment neither overflows nor vanishes in intermediate steps
/// @mode fp
pub fn c15_length_range__impl(a: &C, b: &C) -> i32 { scale(S::new_from_coordinates(a, b).get_length()) }
pub fn c15_length_range__spec(a: &C, b: &C) -> i32 { scale((a.x - b.x).hypot(a.y - b.y)) }
fn far(c: &C) -> C { C::new_xy(1e9 + c.x, 1e9 + c.y) }
fn near(a: f64, b: f64, m: f64) -> bool { a == b || b.is_nan() || !(m <= 1e30) || (a - b).abs() <= m * 1e-6 + 1e-200 }
/// the position of a projection far from the origin keeps its digits
/// @mode fp
pub fn c15_factor_far__law(p: &C, a: &C, b: &C) -> bool {
    let (p, a, b) = (&far(p), &far(a), &far(b));
    let f = S::new_from_coordinates(a, b).projection_factor(p);
    if (p.x == a.x && p.y == a.y) || (p.x == b.x && p.y == b.y) { return true; }
    let (dx, dy) = (b.x - a.x, b.y - a.y);
    let n = dx * dx + dy * dy;
    if n <= 0.0 { return true; }
    let m = ((p.x - a.x).abs() + (p.y - a.y).abs() + dx.abs() + dy.abs()) * (dx.abs() + dy.abs());
    near(f, ((p.x - a.x) * dx + (p.y - a.y) * dy) / n, m / n)
}
/// a point beside a segment neither overflows nor vanishes in intermediate steps
/// @mode fp
pub fn c15_offset_range__impl(a: &C, b: &C) -> [i32; 2] { let o = S::new_from_coordinates(a, b).point_along_offset(0.0, 1.0); [scale(o.x), scale(o.y)] }
pub fn c15_offset_range__spec(a: &C, b: &C) -> [i32; 2] {
    let (dx, dy) = (b.x - a.x, b.y - a.y);
    let l = dx.hypot(dy);
    [scale(a.x + 0.0 * dx - 1.0 * dy / l), scale(a.y + 0.0 * dy + 1.0 * dx / l)]
}

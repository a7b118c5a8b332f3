// C12: segment intersection: classification, points, z.
use crate::core::algorithm::distance::Distance;
use crate::core::algorithm::intersection::Intersection;
use crate::core::algorithm::orientation::Orientation;
use crate::core::algorithm::robust_line_intersector::RobustLineIntersector;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::precision_model::PrecisionModel;

type C = Coordinate;
type R = RobustLineIntersector;
fn same_side(a: i32, b: i32) -> bool { (a > 0 && b > 0) || (a < 0 && b < 0) }
fn eq(a: &C, b: &C) -> bool { a.x == b.x && a.y == b.y }
// number of end points of the common part of two collinear segments
fn overlap(p1: &C, p2: &C, q1: &C, q2: &C) -> i32 {
    let (a, b) = (Envelope::intersects_3(p1, p2, q1), Envelope::intersects_3(p1, p2, q2));
    let (c, d) = (Envelope::intersects_3(q1, q2, p1), Envelope::intersects_3(q1, q2, p2));
    if (a && b) || (c && d) { return 2; }
    if !(a || b) || !(c || d) { return 0; }
    let s = if a { q1 } else { q2 };
    let t = if c { p1 } else { p2 };
    if s.equals_2d(t) { 1 } else { 2 }
}
/// segments have no common point, one, or a common part with two ends
/// @opaque Orientation::index, Envelope::intersects_3, Envelope::intersects_4, Intersection::intersection, Coordinate::equals_2d, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5, RobustLineIntersector::get_z, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::nearest_endpoint, Distance::point_to_segment
pub fn c12_classify__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> i32 { R::default().compute_intersect(p1, p2, q1, q2) }
pub fn c12_classify__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> i32 {
    if !Envelope::intersects_4(p1, p2, q1, q2) { return 0; }
    let (a, b) = (Orientation::index(p1, p2, q1), Orientation::index(p1, p2, q2));
    let (c, d) = (Orientation::index(q1, q2, p1), Orientation::index(q1, q2, p2));
    if same_side(a, b) || same_side(c, d) { return 0; }
    if a == 0 && b == 0 && c == 0 && d == 0 { overlap(p1, p2, q1, q2) } else { 1 }
}
/// having an intersection is the same as a non-zero classification
/// @opaque Orientation::index, Envelope::intersects_3, Envelope::intersects_4, Intersection::intersection, Coordinate::equals_2d, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5, RobustLineIntersector::get_z, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::nearest_endpoint, Distance::point_to_segment
pub fn c12_has__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> bool {
    let mut r = R::default();
    r.compute_intersection_4(p1, p2, q1, q2);
    r.has_intersection()
}
pub fn c12_has__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> bool { c12_classify__spec(p1, p2, q1, q2) != 0 }
/// a point intersects a segment when it is within its extent and collinear with it
/// @opaque Orientation::index, Envelope::intersects_3
pub fn c12_point__impl(p: &C, a: &C, b: &C) -> bool { let mut r = R::default(); r.compute_intersection_3(p, a, b); r.has_intersection() }
pub fn c12_point__spec(p: &C, a: &C, b: &C) -> bool {
    Envelope::intersects_3(a, b, p) && Orientation::index(a, b, p) == 0 && Orientation::index(b, a, p) == 0
}
fn zi(p: &C, a: &C, b: &C) -> f64 {
    if a.z.is_nan() { return b.z; }
    if b.z.is_nan() || eq(p, a) { return a.z; }
    if eq(p, b) { return b.z; }
    if a.z == b.z { return a.z; }
    let l = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y);
    let m = (p.x - a.x) * (p.x - a.x) + (p.y - a.y) * (p.y - a.y);
    a.z + (b.z - a.z) * (m / l).sqrt()
}
/// interpolated z is linear along a segment, one known end z serving for both
/// @mode nan
pub fn c12_z__impl(p: &C, a: &C, b: &C) -> f64 { R::default().z_interpolate_3(p, a, b) }
pub fn c12_z__spec(p: &C, a: &C, b: &C) -> f64 { zi(p, a, b) }
/// a point's own z wins over interpolation
/// @mode nan
pub fn c12_z_own__impl(p: &C, a: &C, b: &C) -> f64 { R::default().get_z_or_interpolate(p, a, b) }
pub fn c12_z_own__spec(p: &C, a: &C, b: &C) -> f64 { if p.z.is_nan() { zi(p, a, b) } else { p.z } }
/// z from two coincident points is the first that is known
/// @mode nan
pub fn c12_z_pair__impl(p: &C, q: &C) -> f64 { R::default().get_z(p, q) }
pub fn c12_z_pair__spec(p: &C, q: &C) -> f64 { if p.z.is_nan() { q.z } else { p.z } }
/// at a crossing the two segments' interpolated z are averaged, a missing one ignored
/// @mode nan
/// @opaque RobustLineIntersector::z_interpolate_3
pub fn c12_z_cross__impl(p: &C, a: &C, b: &C, c: &C, d: &C) -> f64 { R::default().z_interpolate_5(p, a, b, c, d) }
pub fn c12_z_cross__spec(p: &C, a: &C, b: &C, c: &C, d: &C) -> f64 {
    let (z, w) = (R::default().z_interpolate_3(p, a, b), R::default().z_interpolate_3(p, c, d));
    if z.is_nan() { w } else if w.is_nan() { z } else { (z + w) / 2.0 }
}
/// a copied point takes the given z when that is known
/// @mode nan
pub fn c12_copy_z__impl(p: &C, z: f64) -> C { R::default().copy_with_z(p, z) }
pub fn c12_copy_z__spec(p: &C, z: f64) -> C { let mut c = C::from_coordinate(p); if !z.is_nan() { c.z = z; } c }
/// the fallback point is the end point nearest the other segment, the first such in order p1 p2 q1 q2
/// @opaque Distance::point_to_segment
pub fn c12_nearest__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> C { R::default().nearest_endpoint(p1, p2, q1, q2) }
pub fn c12_nearest__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> C {
    let d = [Distance::point_to_segment(p1, q1, q2), Distance::point_to_segment(p2, q1, q2), Distance::point_to_segment(q1, p1, p2), Distance::point_to_segment(q2, p1, p2)];
    let m = d[0].min(d[1]).min(d[2]).min(d[3]);
    C::from_coordinate(if d[0] == m { p1 } else if d[1] == m { p2 } else if d[2] == m { q1 } else { q2 })
}
/// parallel segments have the nearest end point as their computed intersection
/// @opaque Intersection::intersection, RobustLineIntersector::nearest_endpoint, Distance::point_to_segment
pub fn c12_safe__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> C { R::default().intersection_safe(p1, p2, q1, q2) }
pub fn c12_safe__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> C {
    match Intersection::intersection(p1, p2, q1, q2) { Some(c) => c, None => R::default().nearest_endpoint(p1, p2, q1, q2) }
}
fn inside(a: &C, b: &C, p: &C) -> bool { p.x >= a.x.min(b.x) && p.x <= a.x.max(b.x) && p.y >= a.y.min(b.y) && p.y <= a.y.max(b.y) }
/// a computed crossing point outside either segment's extent is replaced by the nearest end point
/// @opaque Intersection::intersection, RobustLineIntersector::nearest_endpoint, Distance::point_to_segment, RobustLineIntersector::intersection_safe, RobustLineIntersector::is_in_segment_envelopes
pub fn c12_extent__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> C { R::default().intersection(p1, p2, q1, q2) }
pub fn c12_extent__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> C {
    let c = R::default().intersection_safe(p1, p2, q1, q2);
    if R::default().is_in_segment_envelopes(&c) { c } else { R::default().nearest_endpoint(p1, p2, q1, q2) }
}
/// a point is in the segments' extents when both closed boxes contain it
/// @opaque Orientation::index, Envelope::intersects_4, Envelope::intersects_3, Intersection::intersection, Coordinate::equals_2d, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5, RobustLineIntersector::get_z, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::nearest_endpoint, Distance::point_to_segment
pub fn c12_in_extent__impl(p1: &C, p2: &C, q1: &C, q2: &C, c: &C) -> bool {
    let mut r = R::default();
    if Envelope::intersects_4(p1, p2, q1, q2) { return true; }
    r.compute_intersection_4(p1, p2, q1, q2);
    r.is_in_segment_envelopes(c)
}
pub fn c12_in_extent__spec(p1: &C, p2: &C, q1: &C, q2: &C, c: &C) -> bool { Envelope::intersects_4(p1, p2, q1, q2) || inside(p1, p2, c) && inside(q1, q2, c) }
fn copy_zi(p: &C, a: &C, b: &C) -> C { let z = R::default().get_z_or_interpolate(p, a, b); let mut c = C::from_coordinate(p); if !z.is_nan() { c.z = z; } c }
/// the reported points of collinear segments are the ends of their common part
/// @opaque Envelope::intersects_3, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::get_z_or_interpolate, Coordinate::equals_2d
pub fn c12_collinear__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> (i32, C, C) {
    let mut r = R::default();
    let n = r.compute_collinear_intersection(p1, p2, q1, q2);
    (n, r.get_intersection(0), r.get_intersection(1))
}
pub fn c12_collinear__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> (i32, C, C) {
    let (a, b) = (Envelope::intersects_3(p1, p2, q1), Envelope::intersects_3(p1, p2, q2));
    let (c, d) = (Envelope::intersects_3(q1, q2, p1), Envelope::intersects_3(q1, q2, p2));
    let n = overlap(p1, p2, q1, q2);
    let (q, p) = (|x: &C| copy_zi(x, p1, p2), |x: &C| copy_zi(x, q1, q2));
    if a && b { (n, q(q1), q(q2)) }
    else if c && d { (n, p(p1), p(p2)) }
    else if (a || b) && (c || d) { (n, q(if a { q1 } else { q2 }), p(if c { p1 } else { p2 })) }
    else { (n, C::default(), C::default()) }
}
/// a single common point at an end is that end's coordinate
/// @opaque Orientation::index, Envelope::intersects_3, Envelope::intersects_4, Intersection::intersection, Coordinate::equals_2d, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5, RobustLineIntersector::get_z, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::nearest_endpoint, Distance::point_to_segment
pub fn c12_vertex__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64) {
    let (a, b) = (Orientation::index(p1, p2, q1), Orientation::index(p1, p2, q2));
    let (c, d) = (Orientation::index(q1, q2, p1), Orientation::index(q1, q2, p2));
    if a == 0 && b == 0 && c == 0 && d == 0 || a != 0 && b != 0 && c != 0 && d != 0 { return (0.0, 0.0); }
    let mut r = R::default();
    r.compute_intersection_4(p1, p2, q1, q2);
    let c = r.get_intersection(0);
    if r.has_intersection() { (c.x, c.y) } else { (0.0, 0.0) }
}
pub fn c12_vertex__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64) {
    let (a, b) = (Orientation::index(p1, p2, q1), Orientation::index(p1, p2, q2));
    let (c, d) = (Orientation::index(q1, q2, p1), Orientation::index(q1, q2, p2));
    if a == 0 && b == 0 && c == 0 && d == 0 || a != 0 && b != 0 && c != 0 && d != 0 { return (0.0, 0.0); }
    if !Envelope::intersects_4(p1, p2, q1, q2) || same_side(a, b) || same_side(c, d) { return (0.0, 0.0); }
    let e = if p1.equals_2d(q1) || p1.equals_2d(q2) { p1 } else if p2.equals_2d(q1) || p2.equals_2d(q2) { p2 } else if a == 0 { q1 } else if b == 0 { q2 } else if c == 0 { p1 } else { p2 };
    (e.x, e.y)
}
/// the codes
pub fn c12_constants__impl() -> [i32; 3] { [R::NO_INTERSECTION, R::POINT_INTERSECTION, R::COLLINEAR_INTERSECTION] }
pub fn c12_constants__spec() -> [i32; 3] { [0, 1, 2] }

fn z_of(z: f64, own: f64) -> f64 { if z.is_nan() { own } else { z } }
/// its z is the first known of two coincident ends, or the end's own or interpolated along the other segment
/// @opaque Orientation::index, Envelope::intersects_3, Envelope::intersects_4, Intersection::intersection, Coordinate::equals_2d, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5, RobustLineIntersector::get_z, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::nearest_endpoint, Distance::point_to_segment
pub fn c12_vertex_z__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> f64 {
    let (a, b) = (Orientation::index(p1, p2, q1), Orientation::index(p1, p2, q2));
    let (c, d) = (Orientation::index(q1, q2, p1), Orientation::index(q1, q2, p2));
    if a == 0 && b == 0 && c == 0 && d == 0 || a != 0 && b != 0 && c != 0 && d != 0 { return 0.0; }
    let mut r = R::default();
    r.compute_intersection_4(p1, p2, q1, q2);
    if r.has_intersection() { r.get_intersection(0).z } else { 0.0 }
}
pub fn c12_vertex_z__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> f64 {
    let (a, b) = (Orientation::index(p1, p2, q1), Orientation::index(p1, p2, q2));
    let (c, d) = (Orientation::index(q1, q2, p1), Orientation::index(q1, q2, p2));
    if a == 0 && b == 0 && c == 0 && d == 0 || a != 0 && b != 0 && c != 0 && d != 0 { return 0.0; }
    if !Envelope::intersects_4(p1, p2, q1, q2) || same_side(a, b) || same_side(c, d) { return 0.0; }
    let mut r = R::default();
    if p1.equals_2d(q1) { z_of(r.get_z(p1, q1), p1.z) }
    else if p1.equals_2d(q2) { z_of(r.get_z(p1, q2), p1.z) }
    else if p2.equals_2d(q1) { z_of(r.get_z(p2, q1), p2.z) }
    else if p2.equals_2d(q2) { z_of(r.get_z(p2, q2), p2.z) }
    else if a == 0 { z_of(r.get_z_or_interpolate(q1, p1, p2), q1.z) }
    else if b == 0 { z_of(r.get_z_or_interpolate(q2, p1, p2), q2.z) }
    else if c == 0 { z_of(r.get_z_or_interpolate(p1, q1, q2), p1.z) }
    else { z_of(r.get_z_or_interpolate(p2, q1, q2), p2.z) }
}
/// a crossing point's z is the average of the two segments' interpolated z
/// @opaque Orientation::index, Envelope::intersects_3, Envelope::intersects_4, Intersection::intersection, Coordinate::equals_2d, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5, RobustLineIntersector::get_z, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::nearest_endpoint, Distance::point_to_segment
pub fn c12_cross_z__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64, f64) {
    let (a, b) = (Orientation::index(p1, p2, q1), Orientation::index(p1, p2, q2));
    let (c, d) = (Orientation::index(q1, q2, p1), Orientation::index(q1, q2, p2));
    if a == 0 || b == 0 || c == 0 || d == 0 { return (0.0, 0.0, 0.0); }
    let mut r = R::default();
    r.compute_intersection_4(p1, p2, q1, q2);
    if r.has_intersection() { let c = r.get_intersection(0); (c.x, c.y, c.z) } else { (0.0, 0.0, 0.0) }
}
pub fn c12_cross_z__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64, f64) {
    let (a, b) = (Orientation::index(p1, p2, q1), Orientation::index(p1, p2, q2));
    let (c, d) = (Orientation::index(q1, q2, p1), Orientation::index(q1, q2, p2));
    if a == 0 || b == 0 || c == 0 || d == 0 { return (0.0, 0.0, 0.0); }
    if !Envelope::intersects_4(p1, p2, q1, q2) || same_side(a, b) || same_side(c, d) { return (0.0, 0.0, 0.0); }
    let mut r = R::default();
    let e = match Intersection::intersection(p1, p2, q1, q2) { Some(c) => c, None => r.nearest_endpoint(p1, p2, q1, q2) };
    let e = if inside(p1, p2, &e) && inside(q1, q2, &e) { e } else { C::from_coordinate(&r.nearest_endpoint(p1, p2, q1, q2)) };
    (e.x, e.y, z_of(r.z_interpolate_5(&e, p1, p2, q1, q2), e.z))
}
/// with a precision model the computed crossing point is rounded by it, without one it is kept
/// @opaque RobustLineIntersector::intersection_safe, RobustLineIntersector::is_in_segment_envelopes, RobustLineIntersector::nearest_endpoint, PrecisionModel::make_precise_coordinate, PrecisionModel::make_precise, Distance::point_to_segment, Intersection::intersection
pub fn c12_rounded__impl(p1: &C, p2: &C, q1: &C, q2: &C, pm: PrecisionModel) -> C { let mut r = R::default(); r.set_precision_model(pm); r.intersection(p1, p2, q1, q2) }
pub fn c12_rounded__spec(p1: &C, p2: &C, q1: &C, q2: &C, pm: PrecisionModel) -> C {
    let mut s = R::default();
    s.set_precision_model(pm);
    let mut c = s.intersection_safe(p1, p2, q1, q2);
    if !s.is_in_segment_envelopes(&c) { c = s.nearest_endpoint(p1, p2, q1, q2); }
    let mut m = pm;
    m.make_precise_coordinate(&mut c);
    c
}

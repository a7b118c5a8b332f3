// C11: line intersection points: three implementations, one point.
use crate::core::algorithm::cg_algorithms_dd::CGAlgorithmsDD;
use crate::core::algorithm::distance::Distance;
use crate::core::algorithm::hcoordinate::HCoordinate;
use crate::core::algorithm::intersection::Intersection;
use crate::core::algorithm::orientation::Orientation;
use crate::core::geom::coordinate::Coordinate;
use crate::core::math::dd::DD;

type C = Coordinate;
fn point(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64) {
    let (px, py, pw) = (p1.y - p2.y, p2.x - p1.x, p1.x * p2.y - p2.x * p1.y);
    let (qx, qy, qw) = (q1.y - q2.y, q2.x - q1.x, q1.x * q2.y - q2.x * q1.y);
    let w = px * qy - qx * py;
    if w == 0.0 { return (f64::NAN, f64::NAN); }
    ((py * qw - qy * pw) / w, (qx * pw - px * qw) / w)
}
fn xy(o: Option<C>) -> (f64, f64) { match o { Some(c) => (c.x, c.y), None => (f64::NAN, f64::NAN) } }

/// the extended-precision intersection is the common point of the two lines
pub fn c11_dd__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64) { xy(Intersection::intersection(p1, p2, q1, q2)) }
pub fn c11_dd__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64) { point(p1, p2, q1, q2) }
/// the same through the predicate class
pub fn c11_cg__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64) { xy(CGAlgorithmsDD::intersection(p1, p2, q1, q2)) }
pub fn c11_cg__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64) { point(p1, p2, q1, q2) }
/// the extended-precision intersection keeps the error terms of every operation down to the final rounding
/// @mode fp
/// @opaque DD::self_subtract_f64, DD::self_multiply_f64, DD::multiply_dd, DD::self_subtract_dd, DD::self_divide_dd
pub fn c11_cg_fp__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> Option<(f64, f64)> { match CGAlgorithmsDD::intersection(p1, p2, q1, q2) { Some(c) => Some((c.x, c.y)), None => None } }
pub fn c11_cg_fp__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> Option<(f64, f64)> { dd_point(p1, p2, q1, q2) }
/// the same through the intersection class
/// @mode fp
/// @opaque DD::self_subtract_f64, DD::self_multiply_f64, DD::multiply_dd, DD::self_subtract_dd, DD::self_divide_dd
pub fn c11_dd_fp__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> Option<(f64, f64)> { match Intersection::intersection(p1, p2, q1, q2) { Some(c) => Some((c.x, c.y)), None => None } }
pub fn c11_dd_fp__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> Option<(f64, f64)> { dd_point(p1, p2, q1, q2) }
fn dd_point(p1: &C, p2: &C, q1: &C, q2: &C) -> Option<(f64, f64)> {
    let diff = |a: f64, b: f64| { let mut d = DD::value_of_f64(a); d.self_subtract_f64(b); d };
    let cross = |a: &C, b: &C| {
        let mut d = DD::value_of_f64(a.x);
        d.self_multiply_f64(b.y);
        let mut e = DD::value_of_f64(b.x);
        e.self_multiply_f64(a.y);
        d.self_subtract_dd(&e);
        d
    };
    let minor = |a: &DD, b: &DD, c: &DD, d: &DD| { let mut r = a.multiply_dd(b); r.self_subtract_dd(&c.multiply_dd(d)); r };
    let (px, py, pw) = (diff(p1.y, p2.y), diff(p2.x, p1.x), cross(p1, p2));
    let (qx, qy, qw) = (diff(q1.y, q2.y), diff(q2.x, q1.x), cross(q1, q2));
    let (mut x, mut y, w) = (minor(&py, &qw, &qy, &pw), minor(&qx, &pw, &px, &qw), minor(&px, &qy, &qx, &py));
    x.self_divide_dd(&w);
    y.self_divide_dd(&w);
    checked(x.double_value(), y.double_value())
}
/// homogeneous-coordinate intersection
pub fn c11_h__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64) { xy(HCoordinate::intersection(p1, p2, q1, q2)) }
pub fn c11_h__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64) { point(p1, p2, q1, q2) }
/// homogeneous points and lines: join, meet and dehomogenisation
pub fn c11_hmeet__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> [(f64, f64); 3] {
    let l1 = HCoordinate::new_with_coordinates(p1, p2);
    let l2 = HCoordinate::new_with_hcoordinates(&HCoordinate::new_with_coordinate(q1), &HCoordinate::new_with_xy(q2.x, q2.y));
    let m = HCoordinate::new_with_hcoordinates(&l1, &l2);
    let n = HCoordinate::new_with_coordinates_4(p1, p2, q1, q2);
    let c = n.get_coordinate();
    [(m.get_x(), m.get_y()), (n.get_x(), n.get_y()), (c.x, c.y)]
}
pub fn c11_hmeet__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> [(f64, f64); 3] { let p = point(p1, p2, q1, q2); [p, p, p] }
/// the conditioned floating-point intersection translates, intersects and translates back
pub fn c11_fp__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64) { xy(Intersection::intersection_fp(p1, p2, q1, q2)) }
pub fn c11_fp__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> (f64, f64) {
    let mx = (p1.x.min(p2.x).max(q1.x.min(q2.x)) + p1.x.max(p2.x).min(q1.x.max(q2.x))) / 2.0;
    let my = (p1.y.min(p2.y).max(q1.y.min(q2.y)) + p1.y.max(p2.y).min(q1.y.max(q2.y))) / 2.0;
    let t = |c: &C| C::new_xy(c.x - mx, c.y - my);
    let (x, y) = point(&t(p1), &t(p2), &t(q1), &t(q2));
    (x + mx, y + my)
}
fn checked(x: f64, y: f64) -> Option<(f64, f64)> {
    if x.is_nan() || x.is_infinite() || y.is_nan() || y.is_infinite() { None } else { Some((x, y)) }
}
/// parallel lines have no intersection point: not-a-number and infinite results are rejected
/// @mode fp
pub fn c11_none__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> Option<(f64, f64)> {
    match HCoordinate::intersection(p1, p2, q1, q2) { Some(c) => Some((c.x, c.y)), None => None }
}
pub fn c11_none__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> Option<(f64, f64)> {
    let (px, py, pw) = (p1.y - p2.y, p2.x - p1.x, p1.x * p2.y - p2.x * p1.y);
    let (qx, qy, qw) = (q1.y - q2.y, q2.x - q1.x, q1.x * q2.y - q2.x * q1.y);
    let w = px * qy - qx * py;
    checked((py * qw - qy * pw) / w, (qx * pw - px * qw) / w)
}
/// a line meets a segment at a segment end on the line, nowhere if both ends are on one side, otherwise at the line intersection
/// @opaque Orientation::index, Intersection::intersection, Distance::point_to_line_perpendicular, Coordinate::from_coordinate
pub fn c11_line_segment__impl(a: &C, b: &C, s: &C, t: &C) -> Option<C> { Intersection::line_segment(a, b, s, t) }
pub fn c11_line_segment__spec(a: &C, b: &C, s: &C, t: &C) -> Option<C> {
    let (i, j) = (Orientation::index(a, b, s), Orientation::index(a, b, t));
    if i == 0 { return Some(Coordinate::from_coordinate(s)); }
    if j == 0 { return Some(Coordinate::from_coordinate(t)); }
    if i > 0 && j > 0 || i < 0 && j < 0 { return None; }
    match Intersection::intersection(a, b, s, t) {
        Some(c) => Some(c),
        None => {
            if Distance::point_to_line_perpendicular(s, a, b) < Distance::point_to_line_perpendicular(t, a, b) { Some(Coordinate::from_coordinate(s)) }
            else { Some(Coordinate::from_coordinate(t)) }
        }
    }
}
/// the conditioning point is the middle of the intersection of the two extents, rounding included
/// @mode fp
pub fn c11_fp_mid__impl(p1: &C, p2: &C, q1: &C, q2: &C) -> Option<(f64, f64)> {
    match Intersection::intersection_fp(p1, p2, q1, q2) { Some(c) => Some((c.x, c.y)), None => None }
}
pub fn c11_fp_mid__spec(p1: &C, p2: &C, q1: &C, q2: &C) -> Option<(f64, f64)> {
    let lo = |a: f64, b: f64| if a < b { a } else { b };
    let hi = |a: f64, b: f64| if a > b { a } else { b };
    let mid = |a: f64, b: f64, c: f64, d: f64| (hi(lo(a, b), lo(c, d)) + lo(hi(a, b), hi(c, d))) / 2.0;
    let (mx, my) = (mid(p1.x, p2.x, q1.x, q2.x), mid(p1.y, p2.y, q1.y, q2.y));
    let (ax, ay, bx, by) = (p1.x - mx, p1.y - my, p2.x - mx, p2.y - my);
    let (cx, cy, dx, dy) = (q1.x - mx, q1.y - my, q2.x - mx, q2.y - my);
    let (px, py, pw) = (ay - by, bx - ax, ax * by - bx * ay);
    let (qx, qy, qw) = (cy - dy, dx - cx, cx * dy - dx * cy);
    let w = px * qy - qx * py;
    match checked((py * qw - qy * pw) / w, (qx * pw - px * qw) / w) { Some((x, y)) => Some((x + mx, y + my)), None => None }
}
/// the default homogeneous coordinate is the origin
pub fn c11_origin__impl() -> (f64, f64) { let h = HCoordinate::default(); (h.get_x(), h.get_y()) }
pub fn c11_origin__spec() -> (f64, f64) { (0.0, 0.0) }

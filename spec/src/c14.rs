// C14: angles.
use crate::core::algorithm::angle::Angle;
use crate::core::geom::coordinate::Coordinate;
use std::f64::consts::PI;

type C = Coordinate;
const TAU: f64 = 2.0 * PI;
fn at(a: &C, b: &C) -> f64 { (b.y - a.y).atan2(b.x - a.x) }
fn dot(a: &C, b: &C, c: &C) -> f64 { (a.x - b.x) * (c.x - b.x) + (a.y - b.y) * (c.y - b.y) }
fn wrap_pi(d: f64) -> f64 { if d <= -PI { d + TAU } else if d > PI { d - TAU } else { d } }

/// degrees and radians convert by 180/pi
pub fn c14_convert__impl(a: f64) -> (f64, f64) { (Angle::to_degrees(a), Angle::to_radians(a)) }
pub fn c14_convert__spec(a: f64) -> (f64, f64) { (a * 180.0 / PI, a * PI / 180.0) }
/// the angle of a vector or point is atan2 of its components
pub fn c14_angle__impl(a: &C, b: &C) -> (f64, f64) { (Angle::angle_coordinates(a, b), Angle::angle_coordinate(a)) }
pub fn c14_angle__spec(a: &C, b: &C) -> (f64, f64) { (at(a, b), a.y.atan2(a.x)) }
/// acute and obtuse angles are told by the sign of the dot product at the middle point
pub fn c14_acute__impl(a: &C, b: &C, c: &C) -> (bool, bool) { (Angle::is_acute(a, b, c), Angle::is_obtuse(a, b, c)) }
pub fn c14_acute__spec(a: &C, b: &C, c: &C) -> (bool, bool) { (dot(a, b, c) > 0.0, dot(a, b, c) < 0.0) }
/// normalisation: the equivalent angle in (-pi, pi]
pub fn c14_normalize__impl(a: f64) -> f64 { Angle::normalize(a) }
pub fn c14_normalize__spec(a: f64) -> f64 { wrap_pi(a % TAU) }
/// a normalised angle is greater than -pi and at most pi
pub fn c14_normalize_range__law(a: f64) -> bool { let n = Angle::normalize(a); n > -PI && n <= PI }
/// an angle already in range is its own normal form
pub fn c14_normalize_id__law(a: f64) -> bool { !(a > -PI && a <= PI) || Angle::normalize(a) == a }
/// positive normalisation: the equivalent angle in [0, 2 pi)
pub fn c14_positive__impl(a: f64) -> f64 { Angle::normalize_positive(a) }
pub fn c14_positive__spec(a: f64) -> f64 { let r = a % TAU; if r < 0.0 { r + TAU } else { r } }
/// a positively normalised angle is at least 0 and less than 2 pi
pub fn c14_positive_range__law(a: f64) -> bool { let n = Angle::normalize_positive(a); n >= 0.0 && n < TAU }
/// rounding never takes the positive normal form out of [0, 2 pi)
/// @mode fp
pub fn c14_positive_fp__impl(a: f64) -> bool { let n = Angle::normalize_positive(a); !(n < 0.0) && !(n >= TAU) }
pub fn c14_positive_fp__spec(_a: f64) -> bool { true }
/// the unoriented difference of two angles is the smaller way round, symmetric in them
pub fn c14_diff__impl(a: f64, b: f64) -> f64 { Angle::diff(a, b) }
pub fn c14_diff__spec(a: f64, b: f64) -> f64 { let d = (a - b).abs(); if d > PI { TAU - d } else { d } }
/// for normalised angles the difference lies in [0, pi]
pub fn c14_diff_range__law(a: f64, b: f64) -> bool {
    !(a > -PI && a <= PI && b > -PI && b <= PI) || { let d = Angle::diff(a, b); d >= 0.0 && d <= PI }
}
/// the angle between two directions at a tail point, without and with orientation
/// @opaque Angle::angle_coordinates
pub fn c14_between__impl(p: &C, t: &C, q: &C) -> (f64, f64) { (Angle::angle_between(p, t, q), Angle::angle_between_oriented(p, t, q)) }
pub fn c14_between__spec(p: &C, t: &C, q: &C) -> (f64, f64) {
    let (a, b) = (Angle::angle_coordinates(t, p), Angle::angle_coordinates(t, q));
    let d = (a - b).abs();
    (if d > PI { TAU - d } else { d }, wrap_pi(b - a))
}
/// the bisector halves the oriented angle from the first direction
/// @opaque Angle::angle_coordinates, Angle::normalize
pub fn c14_bisector__impl(p: &C, t: &C, q: &C) -> f64 { Angle::bisector(p, t, q) }
pub fn c14_bisector__spec(p: &C, t: &C, q: &C) -> f64 {
    let (a, b) = (Angle::angle_coordinates(t, p), Angle::angle_coordinates(t, q));
    Angle::normalize(a + wrap_pi(b - a) / 2.0)
}
/// the interior angle is the positive turn from the previous to the next side
/// @opaque Angle::angle_coordinates, Angle::normalize_positive
pub fn c14_interior__impl(p: &C, t: &C, q: &C) -> f64 { Angle::interior_angle(p, t, q) }
pub fn c14_interior__spec(p: &C, t: &C, q: &C) -> f64 {
    Angle::normalize_positive(Angle::angle_coordinates(t, q) - Angle::angle_coordinates(t, p))
}
/// the turn between two angles is the sign of the sine of their difference
pub fn c14_turn__impl(a: f64, b: f64) -> i32 { Angle::get_turn(a, b) }
pub fn c14_turn__spec(a: f64, b: f64) -> i32 { let s = (b - a).sin(); if s > 0.0 { 1 } else if s < 0.0 { -1 } else { 0 } }
/// snapped sine and cosine are zero within 5e-16 of zero and exact otherwise
pub fn c14_snap__impl(a: f64) -> (f64, f64) { (Angle::sin_snap(a), Angle::cos_snap(a)) }
pub fn c14_snap__spec(a: f64) -> (f64, f64) {
    let z = |v: f64| if v.abs() < 5e-16 { 0.0 } else { v };
    (z(a.sin()), z(a.cos()))
}
/// projection moves a point by a distance along an angle
/// @opaque Angle::sin_snap, Angle::cos_snap
pub fn c14_project__impl(p: &C, a: f64, d: f64) -> (f64, f64) { let c = Angle::project(p, a, d); (c.x, c.y) }
pub fn c14_project__spec(p: &C, a: f64, d: f64) -> (f64, f64) { (p.x + d * Angle::cos_snap(a), p.y + d * Angle::sin_snap(a)) }
/// the turn and angle constants
pub fn c14_constants__impl() -> (f64, f64, f64, i32, i32, i32) {
    (Angle::PI_TIMES_2, Angle::PI_OVER_2, Angle::PI_OVER_4, Angle::COUNTERCLOCKWISE, Angle::CLOCKWISE, Angle::NONE)
}
pub fn c14_constants__spec() -> (f64, f64, f64, i32, i32, i32) { (TAU, PI / 2.0, PI / 4.0, 1, -1, 0) }

/// in rounded arithmetic a small negative angle whose positive form rounds up to 2 pi becomes 0
/// @mode fp
pub fn c14_positive_round__impl(a: f64) -> f64 { Angle::normalize_positive(a) }
pub fn c14_positive_round__spec(a: f64) -> f64 {
    let r = a % TAU;
    if r < 0.0 { let mut s = r; while s < 0.0 { s += TAU; } if s >= TAU { 0.0 } else { s } } else { let mut s = r; while s >= TAU { s -= TAU; } if s < 0.0 { 0.0 } else { s } }
}

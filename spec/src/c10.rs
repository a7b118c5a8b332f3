// C10: orientation predicate: filter, extended-precision fallback, exact sign.
use crate::core::algorithm::cg_algorithms_dd::CGAlgorithmsDD;
use crate::core::algorithm::orientation::Orientation;
use crate::core::geom::coordinate::Coordinate;
use crate::core::math::dd::DD;

fn sgn(v: f64) -> i32 { if v > 0.0 { 1 } else if v < 0.0 { -1 } else { 0 } }
fn cross(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> f64 { (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) }

/// the orientation index is the sign of the cross product: 1 left, -1 right, 0 collinear
pub fn c10_index__impl(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> i32 { Orientation::index(a, b, c) }
pub fn c10_index__spec(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> i32 { sgn(cross(a, b, c)) }
/// both coordinate forms agree
pub fn c10_forms__impl(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> (i32, i32) {
    (CGAlgorithmsDD::orientation_index_coordinates(a, b, c), CGAlgorithmsDD::orientation_index_xy(a.x, a.y, b.x, b.y, c.x, c.y))
}
pub fn c10_forms__spec(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> (i32, i32) { let s = sgn(cross(a, b, c)); (s, s) }
/// swapping the line's end points negates the orientation
pub fn c10_antisym__law(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> bool { Orientation::index(a, b, c) == -Orientation::index(b, a, c) }
/// rotating the three points keeps the orientation
pub fn c10_cyclic__law(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> bool { Orientation::index(a, b, c) == Orientation::index(b, c, a) }
/// the constants name the signs
pub fn c10_constants__impl() -> [i32; 6] {
    [Orientation::CLOCKWISE, Orientation::RIGHT, Orientation::COUNTERCLOCKWISE, Orientation::LEFT, Orientation::COLLINEAR, Orientation::STRAIGHT]
}
pub fn c10_constants__spec() -> [i32; 6] { [-1, -1, 1, 1, 0, 0] }

fn filter(ax: f64, ay: f64, bx: f64, by: f64, cx: f64, cy: f64) -> i32 {
    let l = (ax - cx) * (by - cy);
    let r = (ay - cy) * (bx - cx);
    let det = l - r;
    let sum = if l > 0.0 && !(r <= 0.0) { l + r } else if l < 0.0 && !(r >= 0.0) { -l - r } else { return sgn(det) };
    let e = 1e-15 * sum;
    if det >= e || -det >= e { sgn(det) } else { 2 }
}
/// the floating-point filter answers only when signs decide or the determinant reaches 1e-15 times the sum of its products
/// @mode fp
pub fn c10_filter__impl(ax: f64, ay: f64, bx: f64, by: f64, cx: f64, cy: f64) -> i32 { CGAlgorithmsDD::orientation_index_filter(ax, ay, bx, by, cx, cy) }
pub fn c10_filter__spec(ax: f64, ay: f64, bx: f64, by: f64, cx: f64, cy: f64) -> i32 { filter(ax, ay, bx, by, cx, cy) }
/// where the filter abstains the sign comes from the extended-precision determinant
/// @mode fp
/// @opaque CGAlgorithmsDD::orientation_index_filter
pub fn c10_fallback__impl(ax: f64, ay: f64, bx: f64, by: f64, cx: f64, cy: f64) -> i32 { CGAlgorithmsDD::orientation_index_xy(ax, ay, bx, by, cx, cy) }
pub fn c10_fallback__spec(ax: f64, ay: f64, bx: f64, by: f64, cx: f64, cy: f64) -> i32 {
    let f = CGAlgorithmsDD::orientation_index_filter(ax, ay, bx, by, cx, cy);
    if f < 2 { return f; }
    let d = |p: f64, q: f64| DD::value_of_f64(q).add_f64(-p);
    let l = d(ax, bx).multiply_dd(&d(by, cy));
    l.subtract_dd(&d(ay, by).multiply_dd(&d(bx, cx))).signum()
}
/// the sign of a 2x2 determinant of doubles or extended-precision numbers is x1*y2 - y1*x2's
pub fn c10_det__impl(a: f64, b: f64, c: f64, d: f64) -> (i32, i32) {
    let v = |x| DD::value_of_f64(x);
    (CGAlgorithmsDD::sign_of_det2x2_f64(a, b, c, d), CGAlgorithmsDD::sign_of_det2x_2dd(&v(a), &v(b), &v(c), &v(d)))
}
pub fn c10_det__spec(a: f64, b: f64, c: f64, d: f64) -> (i32, i32) { let s = sgn(a * d - b * c); (s, s) }
/// determinant signs are computed in extended precision
/// @mode fp
pub fn c10_det_precise__impl(a: f64, b: f64, c: f64, d: f64) -> (i32, i32) {
    let v = |x| DD::value_of_f64(x);
    (CGAlgorithmsDD::sign_of_det2x2_f64(a, b, c, d), CGAlgorithmsDD::sign_of_det2x_2dd(&v(a), &v(b), &v(c), &v(d)))
}
pub fn c10_det_precise__spec(a: f64, b: f64, c: f64, d: f64) -> (i32, i32) {
    let v = |x| DD::value_of_f64(x);
    let s = v(a).multiply_dd(&v(d)).subtract_dd(&v(b).multiply_dd(&v(c))).signum();
    (s, s)
}
/// signum
pub fn c10_signum__impl(x: f64) -> i32 { CGAlgorithmsDD::signum(x) }
pub fn c10_signum__spec(x: f64) -> i32 { sgn(x) }

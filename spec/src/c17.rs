// C17: vector algebra.
use crate::core::algorithm::angle::Angle;
use crate::core::geom::coordinate::Coordinate;
use crate::core::math::vector_2d::Vector2D;
use crate::core::math::vector_3d::Vector3D;
use std::f64::consts::PI;

type C = Coordinate;
type V = Vector2D;
fn xy(v: &V) -> (f64, f64) { (v.get_x(), v.get_y()) }
fn xyz(v: &Vector3D) -> (f64, f64, f64) { (v.get_x(), v.get_y(), v.get_z()) }

/// every way of making a 2D vector takes its components from the right place
pub fn c17_make2__impl(a: &C, b: &C, v: &V, x: f64, y: f64) -> [(f64, f64); 9] {
    [xy(&V::default()), xy(&V::new_from_xy(x, y)), xy(&V::new_from_vector_2d(v)), xy(&V::new_from_coordinate(a)), xy(&V::new_from_coordinate_from_to(a, b)),
     xy(&V::create_from_xy(x, y)), xy(&V::create_from_vector_2d(v)), xy(&V::create_from_coodinate(a)), xy(&V::create_from_coordinate_from_to(a, b))]
}
pub fn c17_make2__spec(a: &C, b: &C, v: &V, x: f64, y: f64) -> [(f64, f64); 9] {
    let d = (b.x - a.x, b.y - a.y);
    [(0.0, 0.0), (x, y), xy(v), (a.x, a.y), d, (x, y), xy(v), (a.x, a.y), d]
}
/// components by index
pub fn c17_component__impl(v: &V, i: usize) -> f64 { v.get_component(i) }
pub fn c17_component__spec(v: &V, i: usize) -> f64 { if i == 0 { v.get_x() } else { v.get_y() } }
/// sum, difference, scaling, negation
pub fn c17_linear2__impl(a: &V, b: &V, d: f64) -> [(f64, f64); 5] {
    [xy(&a.add(b)), xy(&a.subtract(b)), xy(&a.multiply(d)), xy(&a.divide(d)), xy(&a.negate())]
}
pub fn c17_linear2__spec(a: &V, b: &V, d: f64) -> [(f64, f64); 5] {
    let ((ax, ay), (bx, by)) = (xy(a), xy(b));
    [(ax + bx, ay + by), (ax - bx, ay - by), (ax * d, ay * d), (ax / d, ay / d), (-ax, -ay)]
}
/// length, squared length, distance and dot product
pub fn c17_metric2__impl(a: &V, b: &V) -> [f64; 4] { [a.length(), a.length_squared(), a.distance(b), a.dot(b)] }
pub fn c17_metric2__spec(a: &V, b: &V) -> [f64; 4] {
    let ((ax, ay), (bx, by)) = (xy(a), xy(b));
    [ax.hypot(ay), ax * ax + ay * ay, (bx - ax).hypot(by - ay), ax * bx + ay * by]
}
/// the unit vector of a non-zero vector, zero otherwise
pub fn c17_unit2__impl(a: &V) -> (f64, f64) { xy(&a.normalize()) }
pub fn c17_unit2__spec(a: &V) -> (f64, f64) {
    let l = a.get_x().hypot(a.get_y());
    if l > 0.0 { (a.get_x() / l, a.get_y() / l) } else { (0.0, 0.0) }
}
/// weighted sums and averages
pub fn c17_mean2__impl(a: &V, b: &V, f: f64) -> [(f64, f64); 2] { [xy(&a.average(b)), xy(&a.weighted_sum(b, f))] }
pub fn c17_mean2__spec(a: &V, b: &V, f: f64) -> [(f64, f64); 2] {
    let ((ax, ay), (bx, by)) = (xy(a), xy(b));
    [((ax + bx) / 2.0, (ay + by) / 2.0), (f * ax + (1.0 - f) * bx, f * ay + (1.0 - f) * by)]
}
/// direction angles, the unoriented angle between vectors and the oriented angle to another
/// @opaque Angle::diff
pub fn c17_angles__impl(a: &V, b: &V) -> [f64; 3] { [a.angle(), a.angle_vector_2d(b), a.angle_to(b)] }
pub fn c17_angles__spec(a: &V, b: &V) -> [f64; 3] {
    let (p, q) = (a.get_y().atan2(a.get_x()), b.get_y().atan2(b.get_x()));
    let d = q - p;
    [p, Angle::diff(q, p), if d <= -PI { d + 2.0 * PI } else if d > PI { d - 2.0 * PI } else { d }]
}
/// rotation by an angle
pub fn c17_rotate__impl(a: &V, t: f64) -> (f64, f64) { xy(&a.rotate(t)) }
pub fn c17_rotate__spec(a: &V, t: f64) -> (f64, f64) {
    let (x, y) = xy(a);
    (x * t.cos() - y * t.sin(), x * t.sin() + y * t.cos())
}
/// rotation by quarter circles, negative counts turning clockwise
pub fn c17_quarters__impl(a: &V, n: i32) -> Option<(f64, f64)> { match a.rotate_by_quarter_circle(n) { Some(v) => Some(xy(&v)), None => None } }
pub fn c17_quarters__spec(a: &V, n: i32) -> Option<(f64, f64)> {
    let (x, y) = xy(a);
    let r = n % 4;
    let q = if r < 0 { r + 4 } else { r };
    if q == 0 { Some((x, y)) } else if q == 1 { Some((-y, x)) } else if q == 2 { Some((-x, -y)) } else { Some((y, -x)) }
}
/// vectors are parallel exactly when their cross product is zero; equal exactly when both components are
pub fn c17_parallel__impl(a: &V, b: &V) -> (bool, bool) { (a.is_parallel(b), a.equals(b)) }
pub fn c17_parallel__spec(a: &V, b: &V) -> (bool, bool) {
    let ((ax, ay), (bx, by)) = (xy(a), xy(b));
    (ax * by - ay * bx == 0.0, ax == bx && ay == by)
}
/// translation of a coordinate, and the coordinate of a vector
pub fn c17_coordinate__impl(a: &V, c: &C) -> [(f64, f64); 2] { let (t, u) = (a.translate(c), a.to_coordinate()); [(t.x, t.y), (u.x, u.y)] }
pub fn c17_coordinate__spec(a: &V, c: &C) -> [(f64, f64); 2] { let (x, y) = xy(a); [(x + c.x, y + c.y), (x, y)] }
/// every way of making a 3D vector takes its components from the right place
pub fn c17_make3__impl(a: &C, b: &C, x: f64, y: f64, z: f64) -> [(f64, f64, f64); 5] {
    [xyz(&Vector3D::new_from_xyz(x, y, z)), xyz(&Vector3D::create_from_xyz(x, y, z)), xyz(&Vector3D::new_from_coordinate(a)),
     xyz(&Vector3D::create_from_coordinate(a)), xyz(&Vector3D::new_from_to_coordinates(a, b))]
}
pub fn c17_make3__spec(a: &C, b: &C, x: f64, y: f64, z: f64) -> [(f64, f64, f64); 5] {
    let c = (a.x, a.y, a.z);
    [(x, y, z), (x, y, z), c, c, (b.x - a.x, b.y - a.y, b.z - a.z)]
}
/// 3D sum, difference and scaling
pub fn c17_linear3__impl(a: &Vector3D, b: &Vector3D, d: f64) -> [(f64, f64, f64); 3] { [xyz(&a.add(b)), xyz(&a.subtract(b)), xyz(&a.divide(d))] }
pub fn c17_linear3__spec(a: &Vector3D, b: &Vector3D, d: f64) -> [(f64, f64, f64); 3] {
    let ((ax, ay, az), (bx, by, bz)) = (xyz(a), xyz(b));
    [(ax + bx, ay + by, az + bz), (ax - bx, ay - by, az - bz), (ax / d, ay / d, az / d)]
}
/// 3D length, dot product and equality
pub fn c17_metric3__impl(a: &Vector3D, b: &Vector3D) -> (f64, f64, bool) { (a.length(), a.dot(b), a.equals(b)) }
pub fn c17_metric3__spec(a: &Vector3D, b: &Vector3D) -> (f64, f64, bool) {
    let ((ax, ay, az), (bx, by, bz)) = (xyz(a), xyz(b));
    ((ax * ax + ay * ay + az * az).sqrt(), ax * bx + ay * by + az * bz, ax == bx && ay == by && az == bz)
}
/// the 3D unit vector of a non-zero vector, zero otherwise
pub fn c17_unit3__impl(a: &Vector3D) -> (f64, f64, f64) { xyz(&a.normalize()) }
pub fn c17_unit3__spec(a: &Vector3D) -> (f64, f64, f64) {
    let (x, y, z) = xyz(a);
    let l = (x * x + y * y + z * z).sqrt();
    if l > 0.0 { (x / l, y / l, z / l) } else { (0.0, 0.0, 0.0) }
}
/// coordinate forms: dot products of points and of difference vectors, length, unit vector
pub fn c17_coords3__impl(a: &C, b: &C, c: &C, d: &C) -> (f64, f64, f64, (f64, f64, f64)) {
    let n = Vector3D::normalize_coordinate(a);
    (Vector3D::dot_4(a, b, c, d), Vector3D::dot_2(a, b), Vector3D::length_of_coordinate(a), (n.x, n.y, n.z))
}
pub fn c17_coords3__spec(a: &C, b: &C, c: &C, d: &C) -> (f64, f64, f64, (f64, f64, f64)) {
    let l = (a.x * a.x + a.y * a.y + a.z * a.z).sqrt();
    ((b.x - a.x) * (d.x - c.x) + (b.y - a.y) * (d.y - c.y) + (b.z - a.z) * (d.z - c.z), a.x * b.x + a.y * b.y + a.z * b.z, l, (a.x / l, a.y / l, a.z / l))
}
fn scale(d: f64) -> i32 { if d.is_nan() { -1 } else if d == 0.0 { 0 } else if d.is_infinite() { 2 } else { 1 } }
/// planar vector lengths and distances neither overflow nor vanish in intermediate steps
/// @mode fp
pub fn c17_length_range__impl(a: f64, b: f64, c: f64, d: f64) -> (i32, i32) { let v = V::new_from_xy(a, b); (scale(v.length()), scale(v.distance(&V::new_from_xy(c, d)))) }
pub fn c17_length_range__spec(a: f64, b: f64, c: f64, d: f64) -> (i32, i32) { (scale(a.hypot(b)), scale((c - a).hypot(d - b))) }

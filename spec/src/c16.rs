// C16: triangle measures.
use crate::core::algorithm::orientation::Orientation;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::triangle::Triangle;
use crate::core::math::dd::DD;

type C = Coordinate;
fn d(a: &C, b: &C) -> f64 { (a.x - b.x).hypot(a.y - b.y) }
fn s2(a: &C, b: &C, c: &C) -> f64 { (c.x - a.x) * (b.y - a.y) - (b.x - a.x) * (c.y - a.y) }
fn xy(c: &C) -> (f64, f64) { (c.x, c.y) }
fn dot(a: &C, b: &C, c: &C) -> f64 { (a.x - b.x) * (c.x - b.x) + (a.y - b.y) * (c.y - b.y) }

/// area is half the absolute cross product; the signed area is positive for clockwise triangles
pub fn c16_area__impl(a: &C, b: &C, c: &C) -> (f64, f64) { (Triangle::area_coordinates(a, b, c), Triangle::signed_area_coordinates(a, b, c)) }
pub fn c16_area__spec(a: &C, b: &C, c: &C) -> (f64, f64) { let s = s2(a, b, c) / 2.0; (s.abs(), s) }
/// the 3D area is half the length of the cross product
pub fn c16_area3__impl(a: &C, b: &C, c: &C) -> f64 { Triangle::area_3d_coordinates(a, b, c) }
pub fn c16_area3__spec(a: &C, b: &C, c: &C) -> f64 {
    let (ux, uy, uz) = (b.x - a.x, b.y - a.y, b.z - a.z);
    let (vx, vy, vz) = (c.x - a.x, c.y - a.y, c.z - a.z);
    let (x, y, z) = (uy * vz - uz * vy, uz * vx - ux * vz, ux * vy - uy * vx);
    (x * x + y * y + z * z).sqrt() / 2.0
}
/// perimeter and longest side
pub fn c16_length__impl(a: &C, b: &C, c: &C) -> (f64, f64) { (Triangle::length_coordinates(a, b, c), Triangle::longest_side_length_coordinates(a, b, c)) }
pub fn c16_length__spec(a: &C, b: &C, c: &C) -> (f64, f64) { (d(a, b) + d(b, c) + d(c, a), d(a, b).max(d(b, c)).max(d(c, a))) }
/// the centroid is the mean of the corners
pub fn c16_centroid__impl(a: &C, b: &C, c: &C) -> (f64, f64) { xy(&Triangle::centroid_coordinates(a, b, c)) }
pub fn c16_centroid__spec(a: &C, b: &C, c: &C) -> (f64, f64) { ((a.x + b.x + c.x) / 3.0, (a.y + b.y + c.y) / 3.0) }
/// the in-centre weights each corner by the opposite side
pub fn c16_incentre__impl(a: &C, b: &C, c: &C) -> (f64, f64) { xy(&Triangle::in_centre_coordinates(a, b, c)) }
pub fn c16_incentre__spec(a: &C, b: &C, c: &C) -> (f64, f64) {
    let (p, q, r) = (d(b, c), d(a, c), d(a, b));
    ((p * a.x + q * b.x + r * c.x) / (p + q + r), (p * a.y + q * b.y + r * c.y) / (p + q + r))
}
fn centre(a: &C, b: &C, c: &C) -> (f64, f64) {
    let (ax, ay, bx, by) = (a.x - c.x, a.y - c.y, b.x - c.x, b.y - c.y);
    let w = 2.0 * (ax * by - ay * bx);
    let (p, q) = (ax * ax + ay * ay, bx * bx + by * by);
    (c.x - (ay * q - p * by) / w, c.y + (ax * q - p * bx) / w)
}
/// the circumcentre, in doubles
pub fn c16_circumcentre__impl(a: &C, b: &C, c: &C) -> (f64, f64) { xy(&Triangle::circumcentre_coordinates(a, b, c)) }
pub fn c16_circumcentre__spec(a: &C, b: &C, c: &C) -> (f64, f64) { centre(a, b, c) }
/// the circumcentre, in extended precision
pub fn c16_circumcentre_dd__impl(a: &C, b: &C, c: &C) -> (f64, f64) { xy(&Triangle::circumcentre_dd_coordinates(a, b, c)) }
pub fn c16_circumcentre_dd__spec(a: &C, b: &C, c: &C) -> (f64, f64) { centre(a, b, c) }
/// the extended-precision circumcentre keeps the error terms of every operation down to the final rounding
/// @mode fp
/// @opaque DD::subtract_f64, DD::sqr, DD::add_dd, DD::determinant_xy_dd, DD::multiply_f64, DD::divide_dd, DD::subtract_dd
pub fn c16_circumcentre_dd_fp__impl(a: &C, b: &C, c: &C) -> (f64, f64) { xy(&Triangle::circumcentre_dd_coordinates(a, b, c)) }
pub fn c16_circumcentre_dd_fp__spec(a: &C, b: &C, c: &C) -> (f64, f64) {
    let d = |p: f64, q: f64| DD::value_of_f64(p).subtract_f64(q);
    let (ax, ay, bx, by) = (d(a.x, c.x), d(a.y, c.y), d(b.x, c.x), d(b.y, c.y));
    let w = DD::determinant_xy_dd(&ax, &ay, &bx, &by).multiply_f64(2.0);
    let (p, q) = (ax.sqr().add_dd(&ay.sqr()), bx.sqr().add_dd(&by.sqr()));
    let x = DD::value_of_f64(c.x).subtract_dd(&DD::determinant_xy_dd(&ay, &p, &by, &q).divide_dd(&w));
    let y = DD::value_of_f64(c.y).add_dd(&DD::determinant_xy_dd(&ax, &p, &bx, &q).divide_dd(&w));
    (x.double_value(), y.double_value())
}
/// the circumcentre is equidistant from the corners of a triangle with non-zero area
/// @mode real
pub fn c16_equidistant__law(ax: f64, ay: f64, bx: f64, by: f64) -> bool {
    let (a, b, c) = (C::new_xy(ax, ay), C::new_xy(bx, by), C::new_xy(0.0, 0.0));
    if ax * by == ay * bx { return true; }
    let o = Triangle::circumcentre_coordinates(&a, &b, &c);
    let r = |p: &C| (o.x - p.x) * (o.x - p.x) + (o.y - p.y) * (o.y - p.y);
    r(&a) == r(&c) && r(&b) == r(&c)
}
/// the circumradius is the product of the sides over four times the area, infinite for zero area
pub fn c16_circumradius__impl(a: &C, b: &C, c: &C) -> f64 { Triangle::circumradius_coordinates(a, b, c) }
pub fn c16_circumradius__spec(a: &C, b: &C, c: &C) -> f64 {
    let s = Triangle::area_coordinates(a, b, c);
    if s == 0.0 { f64::INFINITY } else { a.distance(b) * b.distance(c) * c.distance(a) / (4.0 * s) }
}
/// the perpendicular bisector passes through the mid point, at right angles
pub fn c16_bisector__impl(a: &C, b: &C, c: &C, e: &C) -> (f64, f64) {
    use crate::core::algorithm::hcoordinate::HCoordinate;
    let h = HCoordinate::new_with_hcoordinates(&Triangle::perpendicular_bisector_coordinates(a, b), &Triangle::perpendicular_bisector_coordinates(c, e));
    (h.get_x(), h.get_y())
}
pub fn c16_bisector__spec(a: &C, b: &C, c: &C, e: &C) -> (f64, f64) {
    let line = |p: &C, q: &C| {
        let (dx, dy) = (q.x - p.x, q.y - p.y);
        (dx, dy, -(dx * (p.x + q.x) + dy * (p.y + q.y)) / 2.0)
    };
    let (p, q, r) = line(a, b);
    let (s, t, u) = line(c, e);
    let w = p * t - q * s;
    if w == 0.0 { return (f64::NAN, f64::NAN); }
    ((q * u - r * t) / w, (r * s - p * u) / w)
}
/// the angle bisector divides the opposite side in the ratio of the adjacent sides
pub fn c16_angle_bisector__impl(a: &C, b: &C, c: &C) -> (f64, f64) { xy(&Triangle::angle_bisector_coordinates(a, b, c)) }
pub fn c16_angle_bisector__spec(a: &C, b: &C, c: &C) -> (f64, f64) {
    let f = d(b, a) / (d(b, a) + d(b, c));
    (a.x + f * (c.x - a.x), a.y + f * (c.y - a.y))
}
/// a triangle is acute when its three angles are; counter-clockwise when its orientation is
pub fn c16_acute__impl(a: &C, b: &C, c: &C) -> (bool, bool) { (Triangle::is_acute_coordinates(a, b, c), Triangle::is_ccw_coordinates(a, b, c)) }
pub fn c16_acute__spec(a: &C, b: &C, c: &C) -> (bool, bool) {
    (dot(a, b, c) > 0.0 && dot(b, c, a) > 0.0 && dot(c, a, b) > 0.0, s2(a, b, c) < 0.0)
}
/// a point intersects a triangle when it is on the outer side of none of its sides
/// @opaque Orientation::index
pub fn c16_intersects__impl(a: &C, b: &C, c: &C, p: &C) -> bool { Triangle::intersects_coordinates(a, b, c, p) }
pub fn c16_intersects__spec(a: &C, b: &C, c: &C, p: &C) -> bool {
    let out = if Orientation::index(a, b, c) == 1 { -1 } else { 1 };
    Orientation::index(a, b, p) != out && Orientation::index(b, c, p) != out && Orientation::index(c, a, p) != out
}
/// interpolated z lies on the plane of the triangle
pub fn c16_z__impl(p: &C, a: &C, b: &C, c: &C) -> f64 { Triangle::interpolate_z_coordinates(p, a, b, c) }
pub fn c16_z__spec(p: &C, a: &C, b: &C, c: &C) -> f64 {
    let w = (b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y);
    let t = ((p.x - a.x) * (c.y - a.y) - (c.x - a.x) * (p.y - a.y)) / w;
    let u = ((b.x - a.x) * (p.y - a.y) - (p.x - a.x) * (b.y - a.y)) / w;
    a.z + t * (b.z - a.z) + u * (c.z - a.z)
}
/// interpolation reproduces the corners' own z
/// @mode real
pub fn c16_z_corner__law(a: &C, b: &C, c: &C) -> bool {
    if s2(a, b, c) == 0.0 { return true; }
    Triangle::interpolate_z_coordinates(a, a, b, c) == a.z && Triangle::interpolate_z_coordinates(b, a, b, c) == b.z && Triangle::interpolate_z_coordinates(c, a, b, c) == c.z
}
/// the methods of a triangle are the functions of its corners
/// @opaque Triangle::in_centre_coordinates, Triangle::is_acute_coordinates, Triangle::is_ccw_coordinates, Triangle::circumcentre_coordinates, Triangle::circumradius_coordinates, Triangle::centroid_coordinates, Triangle::length_coordinates, Triangle::longest_side_length_coordinates, Triangle::area_coordinates, Triangle::signed_area_coordinates, Triangle::area_3d_coordinates, Triangle::interpolate_z_coordinates, Coordinate::from_coordinate
pub fn c16_methods__impl(a: &C, b: &C, c: &C, p: &C) -> ([C; 3], bool, bool, [f64; 7]) {
    let t = Triangle::new(a, b, c);
    ([t.in_centre(), t.circumcentre(), t.centroid()], t.is_acute(), t.is_ccw(),
     [t.circumradius(), t.length(), t.longest_side_length(), t.area(), t.signed_area(), t.area_3d(), t.interpolate_z(p)])
}
pub fn c16_methods__spec(a: &C, b: &C, c: &C, p: &C) -> ([C; 3], bool, bool, [f64; 7]) {
    let (a, b, c) = (&C::from_coordinate(a), &C::from_coordinate(b), &C::from_coordinate(c));
    type T = Triangle;
    ([T::in_centre_coordinates(a, b, c), T::circumcentre_coordinates(a, b, c), T::centroid_coordinates(a, b, c)],
     T::is_acute_coordinates(a, b, c), T::is_ccw_coordinates(a, b, c),
     [T::circumradius_coordinates(a, b, c), T::length_coordinates(a, b, c), T::longest_side_length_coordinates(a, b, c), T::area_coordinates(a, b, c),
      T::signed_area_coordinates(a, b, c), T::area_3d_coordinates(a, b, c), T::interpolate_z_coordinates(p, a, b, c)])
}
fn far(c: &C) -> C { C::new_xy(1e9 + c.x, 1e9 + c.y) }
fn near(a: f64, b: f64, m: f64) -> bool { a == b || b.is_nan() || !(m <= 1e30) || (a - b).abs() <= m * 1e-6 + 1e-200 }
/// the area of a small triangle far from the origin keeps its digits
/// @mode fp
pub fn c16_area_far__law(a: &C, b: &C, c: &C) -> bool {
    let (a, b, c) = (&far(a), &far(b), &far(c));
    let (t, u) = ((c.x - a.x) * (b.y - a.y), (b.x - a.x) * (c.y - a.y));
    let r = (t - u) / 2.0;
    let m = ((c.x - a.x).abs() + (b.x - a.x).abs()) * ((c.y - a.y).abs() + (b.y - a.y).abs());
    near(Triangle::signed_area_coordinates(a, b, c), r, m) && near(Triangle::area_coordinates(a, b, c), r.abs(), m)
}
/// the circumcentre of a small triangle far from the origin stays near its corners
/// @mode fp
pub fn c16_circumcentre_far__law(a: &C, b: &C, c: &C) -> bool {
    let (a, b, c) = (&far(a), &far(b), &far(c));
    let (ax, ay, bx, by) = (a.x - c.x, a.y - c.y, b.x - c.x, b.y - c.y);
    let d = 2.0 * (ax * by - ay * bx);
    let (p, q) = (ax * ax + ay * ay, bx * bx + by * by);
    let r = Triangle::circumcentre_coordinates(a, b, c);
    let (x, y) = (c.x - (ay * q - p * by) / d, c.y + (ax * q - p * bx) / d);
    if !(d.abs() >= (p + q) * 0.01) || !(p + q >= 1.0) { return true; }
    near(r.x, x, (p + q) * 1e3) && near(r.y, y, (p + q) * 1e3)
}

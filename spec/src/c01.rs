// C01: ordering, equality and ordinate access of coordinates.
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::coordinates::Coordinates;
use crate::core::util::number_util::NumberUtil;

/// compare_to is the lexicographic order on (x, y)
pub fn c01_compare__impl(a: &Coordinate, b: &Coordinate) -> i32 { a.compare_to(b) }
pub fn c01_compare__spec(a: &Coordinate, b: &Coordinate) -> i32 {
    if a.x != b.x { return if a.x < b.x { -1 } else { 1 }; }
    if a.y != b.y { return if a.y < b.y { -1 } else { 1 }; }
    0
}
/// compare_to is antisymmetric
pub fn c01_antisym__law(a: &Coordinate, b: &Coordinate) -> bool { a.compare_to(b) == -b.compare_to(a) }
/// compare_to is transitive
pub fn c01_trans__law(a: &Coordinate, b: &Coordinate, c: &Coordinate) -> bool {
    !(a.compare_to(b) <= 0 && b.compare_to(c) <= 0) || a.compare_to(c) <= 0
}
/// compare_to is 0 exactly when equals_2d holds
pub fn c01_zero_iff_equal__law(a: &Coordinate, b: &Coordinate) -> bool { (a.compare_to(b) == 0) == a.equals_2d(b) }
/// equals_2d compares x and y only, and is false as soon as one of them is NaN
/// @mode nan
pub fn c01_equals_2d__impl(a: &Coordinate, b: &Coordinate) -> bool { a.equals_2d(b) }
pub fn c01_equals_2d__spec(a: &Coordinate, b: &Coordinate) -> bool { a.x == b.x && a.y == b.y }
/// equals_3d also compares z, two NaN z being equal
/// @mode nan
pub fn c01_equals_3d__impl(a: &Coordinate, b: &Coordinate) -> bool { a.equals_3d(b) }
pub fn c01_equals_3d__spec(a: &Coordinate, b: &Coordinate) -> bool {
    a.x == b.x && a.y == b.y && (a.z == b.z || (a.z.is_nan() && b.z.is_nan()))
}
/// equals_3d is symmetric
/// @mode nan
pub fn c01_equals_3d_sym__law(a: &Coordinate, b: &Coordinate) -> bool { a.equals_3d(b) == b.equals_3d(a) }
/// tolerance equality is the per-axis distance test
pub fn c01_tolerance__impl(a: &Coordinate, b: &Coordinate, t: f64) -> bool { a.equals_2d_with_tolerance(b, t) }
pub fn c01_tolerance__spec(a: &Coordinate, b: &Coordinate, t: f64) -> bool { (a.x - b.x).abs() <= t && (a.y - b.y).abs() <= t }
/// z tolerance equality compares z
/// @mode nan
pub fn c01_tolerance_z__impl(a: &Coordinate, b: &Coordinate, t: f64) -> (bool, bool) { (a.equal_in_z(b, t), a.equal_in_coordinate_z(b, t)) }
pub fn c01_tolerance_z__spec(a: &Coordinate, b: &Coordinate, t: f64) -> (bool, bool) {
    let r = (a.z - b.z).abs() <= t;
    (r, r)
}
/// equals_with_tolerance(x1, x2, t) is |x1 - x2| <= t
pub fn c01_number_tolerance__impl(a: f64, b: f64, t: f64) -> bool { NumberUtil::equals_with_tolerance(a, b, t) }
pub fn c01_number_tolerance__spec(a: f64, b: f64, t: f64) -> bool { (b - a).abs() <= t }
/// Coordinates::equal with tolerance 0 is equals_2d, otherwise a distance test
pub fn c01_coordinates_equal__impl(a: &Coordinate, b: &Coordinate, t: f64) -> bool { Coordinates::equal(a, b, t) }
pub fn c01_coordinates_equal__spec(a: &Coordinate, b: &Coordinate, t: f64) -> bool {
    if t == 0.0 { a.x == b.x && a.y == b.y } else { (a.x - b.x).hypot(a.y - b.y) <= t }
}
/// distance is the planar Euclidean distance
pub fn c01_distance__impl(a: &Coordinate, b: &Coordinate) -> f64 { a.distance(b) }
pub fn c01_distance__spec(a: &Coordinate, b: &Coordinate) -> f64 { (a.x - b.x).hypot(a.y - b.y) }
/// distance_3d is the spatial Euclidean distance
pub fn c01_distance3__impl(a: &Coordinate, b: &Coordinate) -> f64 { a.distance_3d(b) }
pub fn c01_distance3__spec(a: &Coordinate, b: &Coordinate) -> f64 {
    ((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)).sqrt()
}
/// a coordinate is valid exactly when x and y are finite
/// @mode nan
pub fn c01_valid__impl(a: &Coordinate) -> bool { a.is_valid() }
pub fn c01_valid__spec(a: &Coordinate) -> bool { a.x.is_finite() && a.y.is_finite() }
/// get_ordinate(k) reads the k-th of x, y, z
pub fn c01_get_ordinate__impl(a: &Coordinate, k: i32) -> Option<f64> { if k == 3 { return None; } a.get_ordinate(k) }
pub fn c01_get_ordinate__spec(a: &Coordinate, k: i32) -> Option<f64> {
    match k { 0 => Some(a.x), 1 => Some(a.y), 2 => Some(a.z), _ => None }
}
/// set_ordinate(k, v) changes exactly the k-th ordinate
pub fn c01_set_ordinate__impl(a: &Coordinate, k: i32, v: f64) -> Coordinate {
    let mut c = *a;
    if k != 3 { c.set_ordinate(k, v); }
    c
}
pub fn c01_set_ordinate__spec(a: &Coordinate, k: i32, v: f64) -> Coordinate {
    Coordinate { x: if k == 0 { v } else { a.x }, y: if k == 1 { v } else { a.y }, z: if k == 2 { v } else { a.z }, m: a.m }
}
/// the named setters change exactly their ordinate and the getters read it
pub fn c01_accessors__impl(a: &Coordinate, v: f64) -> (Coordinate, Coordinate, Coordinate, Coordinate, f64, f64, f64, f64) {
    let (mut p, mut q, mut r, mut s) = (*a, *a, *a, *a);
    p.set_x(v); q.set_y(v); r.set_z(v); s.set_m(v);
    (p, q, r, s, a.get_x(), a.get_y(), a.get_z(), a.get_m())
}
pub fn c01_accessors__spec(a: &Coordinate, v: f64) -> (Coordinate, Coordinate, Coordinate, Coordinate, f64, f64, f64, f64) {
    (Coordinate { x: v, y: a.y, z: a.z, m: a.m }, Coordinate { x: a.x, y: v, z: a.z, m: a.m },
     Coordinate { x: a.x, y: a.y, z: v, m: a.m }, Coordinate { x: a.x, y: a.y, z: a.z, m: v }, a.x, a.y, a.z, a.m)
}
/// copying a coordinate keeps all four ordinates; set_coordinate assigns x, y and z
pub fn c01_copy__impl(a: &Coordinate, b: &Coordinate) -> (Coordinate, Coordinate) {
    let mut c = *b;
    c.set_coordinate(a);
    (Coordinate::from_coordinate(a), c)
}
pub fn c01_copy__spec(a: &Coordinate, b: &Coordinate) -> (Coordinate, Coordinate) {
    let c = Coordinate { x: a.x, y: a.y, z: a.z, m: a.m };
    (c, Coordinate { x: a.x, y: a.y, z: a.z, m: b.m })
}
/// constructors put each argument into its ordinate and leave the others NaN
pub fn c01_new__impl(x: f64, y: f64, z: f64, m: f64) -> [Coordinate; 7] {
    [Coordinate::new_xy(x, y), Coordinate::new_xyz(x, y, z), Coordinate::new_xym(x, y, m), Coordinate::new_xyzm(x, y, z, m),
     Coordinate::new_coordinatexy(x, y), Coordinate::new_coordinatexym(x, y, m), Coordinate::new_coordinatexyzm(x, y, z, m)]
}
pub fn c01_new__spec(x: f64, y: f64, z: f64, m: f64) -> [Coordinate; 7] {
    let n = f64::NAN;
    let c = |x, y, z, m| Coordinate { x, y, z, m };
    [c(x, y, n, n), c(x, y, z, n), c(x, y, n, m), c(x, y, z, m), c(x, y, n, n), c(x, y, n, m), c(x, y, z, m)]
}
/// the kind predicates partition coordinates by which of z and m are present
/// @mode nan
pub fn c01_kind__impl(a: &Coordinate) -> (bool, bool, bool) { (a.is_xy(), a.is_xym(), a.is_xyzm()) }
pub fn c01_kind__spec(a: &Coordinate) -> (bool, bool, bool) {
    let ok = !(a.x.is_nan() || a.y.is_nan());
    (ok && a.z.is_nan() && a.m.is_nan(), ok && a.z.is_nan() && !a.m.is_nan(), ok && !a.z.is_nan() && !a.m.is_nan())
}
/// dimension and measure counts agree with the ordinates present
/// @mode nan
pub fn c01_dimension__impl(a: &Coordinate) -> (i32, i32) { (Coordinates::dimension(a), Coordinates::measures(a)) }
pub fn c01_dimension__spec(a: &Coordinate) -> (i32, i32) {
    let bad = a.x.is_nan() || a.y.is_nan();
    if bad { return (3, 0); }
    match (a.z.is_nan(), a.m.is_nan()) { (true, true) => (2, 0), (true, false) => (3, 1), (false, false) => (4, 1), (false, true) => (3, 0) }
}
/// created coordinates have the requested dimension and measures
pub fn c01_create__impl() -> [(i32, i32); 3] {
    let f = |d, m| { let c = Coordinates::create_dim_measures(d, m); (Coordinates::dimension(&c), Coordinates::measures(&c)) };
    [f(2, 0), f(3, 1), f(4, 1)]
}
pub fn c01_create__spec() -> [(i32, i32); 3] { [(2, 0), (3, 1), (4, 1)] }
fn scale(d: f64) -> i32 { if d.is_nan() { -1 } else if d == 0.0 { 0 } else if d.is_infinite() { 2 } else { 1 } }
/// planar distances neither overflow nor vanish in intermediate steps
/// @mode fp
pub fn c01_distance_range__impl(a: &Coordinate, b: &Coordinate) -> i32 { scale(a.distance(b)) }
pub fn c01_distance_range__spec(a: &Coordinate, b: &Coordinate) -> i32 { scale((a.x - b.x).hypot(a.y - b.y)) }

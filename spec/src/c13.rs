// C13: distance formulas.
use crate::core::algorithm::cg_algorithms_3d::CGAlgorithms3D;
use crate::core::algorithm::distance::Distance;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;

type C = Coordinate;
fn d(a: &C, b: &C) -> f64 { (a.x - b.x).hypot(a.y - b.y) }
fn cross(p: &C, a: &C, b: &C) -> f64 { (b.x - a.x) * (a.y - p.y) - (a.x - p.x) * (b.y - a.y) }
fn dot(p: &C, a: &C, b: &C) -> f64 { (p.x - a.x) * (b.x - a.x) + (p.y - a.y) * (b.y - a.y) }
fn len2(a: &C, b: &C) -> f64 { (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y) }
fn pt_seg(p: &C, a: &C, b: &C) -> f64 {
    if a.x == b.x && a.y == b.y { return d(p, a); }
    let r = dot(p, a, b) / len2(a, b);
    if r <= 0.0 { return d(p, a); }
    if r >= 1.0 { return d(p, b); }
    (cross(p, a, b) / len2(a, b)).abs() * len2(a, b).sqrt()
}
/// point to segment: the perpendicular distance inside the segment's span, else the distance to the nearer end
pub fn c13_point_segment__impl(p: &C, a: &C, b: &C) -> f64 { Distance::point_to_segment(p, a, b) }
pub fn c13_point_segment__spec(p: &C, a: &C, b: &C) -> f64 { pt_seg(p, a, b) }
/// point to line: |cross product| / length, signed positive to the right of the line
pub fn c13_perpendicular__impl(p: &C, a: &C, b: &C) -> (f64, f64) {
    (Distance::point_to_line_perpendicular(p, a, b), Distance::point_to_line_perpendicular_signed(p, a, b))
}
pub fn c13_perpendicular__spec(p: &C, a: &C, b: &C) -> (f64, f64) {
    let s = cross(p, a, b) / len2(a, b);
    (s.abs() * len2(a, b).sqrt(), s * len2(a, b).sqrt())
}
/// point to line string: the minimum over its segments, NaN for none
/// @opaque Distance::point_to_segment, Coordinate::distance
pub fn c13_line_string__impl(p: &C, line: &Vec<C>) -> f64 { Distance::point_to_segment_string(p, line) }
pub fn c13_line_string__spec(p: &C, line: &Vec<C>) -> f64 {
    if line.is_empty() { return f64::NAN; }
    let mut m = p.distance(&line[0]);
    let mut i = 1;
    while i < line.len() {
        let v = Distance::point_to_segment(p, &line[i - 1], &line[i]);
        if v < m { m = v; }
        i += 1;
    }
    m
}
/// segment to segment: zero when they cross, else the least of the four end point distances
/// @opaque Distance::point_to_segment, Envelope::intersects_4
pub fn c13_segments__impl(a: &C, b: &C, c: &C, e: &C) -> f64 { Distance::segment_to_segment(a, b, c, e) }
pub fn c13_segments__spec(a: &C, b: &C, c: &C, e: &C) -> f64 {
    if a.x == b.x && a.y == b.y { return Distance::point_to_segment(a, c, e); }
    if c.x == e.x && c.y == e.y { return Distance::point_to_segment(e, a, b); }
    let den = (b.x - a.x) * (e.y - c.y) - (b.y - a.y) * (e.x - c.x);
    let r = ((a.y - c.y) * (e.x - c.x) - (a.x - c.x) * (e.y - c.y)) / den;
    let s = ((a.y - c.y) * (b.x - a.x) - (a.x - c.x) * (b.y - a.y)) / den;
    if Envelope::intersects_4(a, b, c, e) && den != 0.0 && 0.0 <= r && r <= 1.0 && 0.0 <= s && s <= 1.0 { return 0.0; }
    let m = Distance::point_to_segment(a, c, e).min(Distance::point_to_segment(b, c, e));
    m.min(Distance::point_to_segment(c, a, b).min(Distance::point_to_segment(e, a, b)))
}
/// 3D point distance, planar when a z is missing
/// @mode nan
pub fn c13_d3__impl(a: &C, b: &C) -> f64 { CGAlgorithms3D::distance(a, b) }
pub fn c13_d3__spec(a: &C, b: &C) -> f64 {
    if a.z.is_nan() || b.z.is_nan() { return (a.x - b.x).hypot(a.y - b.y); }
    ((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)).sqrt()
}
fn l3(a: &C, b: &C, c: &C, e: &C) -> f64 { (b.x - a.x) * (e.x - c.x) + (b.y - a.y) * (e.y - c.y) + (b.z - a.z) * (e.z - c.z) }
/// 3D point to segment: clamped projection
/// @mode real
/// @opaque CGAlgorithms3D::distance
pub fn c13_point_segment3__impl(p: &C, a: &C, b: &C) -> f64 { CGAlgorithms3D::distance_point_segment(p, a, b) }
pub fn c13_point_segment3__spec(p: &C, a: &C, b: &C) -> f64 {
    if a.x == b.x && a.y == b.y && a.z == b.z { return CGAlgorithms3D::distance(p, a); }
    let r = l3(a, p, a, b) / l3(a, b, a, b);
    if r <= 0.0 { return CGAlgorithms3D::distance(p, a); }
    if r >= 1.0 { return CGAlgorithms3D::distance(p, b); }
    let (x, y, z) = (a.x + r * (b.x - a.x), a.y + r * (b.y - a.y), a.z + r * (b.z - a.z));
    ((p.x - x) * (p.x - x) + (p.y - y) * (p.y - y) + (p.z - z) * (p.z - z)).sqrt()
}
/// 3D segment to segment: between the mutual closest points when they are inside both, else the least end point distance
/// @mode real
/// @opaque CGAlgorithms3D::distance, CGAlgorithms3D::distance_point_segment
pub fn c13_segments3__impl(a: &C, b: &C, c: &C, e: &C) -> f64 { CGAlgorithms3D::distance_segment_segment(a, b, c, e) }
pub fn c13_segments3__spec(a: &C, b: &C, c: &C, e: &C) -> f64 {
    if a.equals_3d(b) { return CGAlgorithms3D::distance_point_segment(a, c, e); }
    if c.equals_3d(e) { return CGAlgorithms3D::distance_point_segment(c, a, b); }
    let (uu, uv, vv, uw, vw) = (l3(a, b, a, b), l3(a, b, c, e), l3(c, e, c, e), l3(a, b, c, a), l3(c, e, c, a));
    let den = uu * vv - uv * uv;
    let (s, t) = if den <= 0.0 { (0.0, if uv > vv { uw / uv } else { vw / vv }) } else { ((uv * vw - vv * uw) / den, (uu * vw - uv * uw) / den) };
    if s < 0.0 || s > 1.0 || t < 0.0 || t > 1.0 {
        let m = CGAlgorithms3D::distance_point_segment(a, c, e).min(CGAlgorithms3D::distance_point_segment(b, c, e));
        return m.min(CGAlgorithms3D::distance_point_segment(c, a, b).min(CGAlgorithms3D::distance_point_segment(e, a, b)));
    }
    let at = |p: &C, q: &C, k: f64| C::new_xyz(p.x + k * (q.x - p.x), p.y + k * (q.y - p.y), p.z + k * (q.z - p.z));
    CGAlgorithms3D::distance(&at(a, b, s), &at(c, e, t))
}
fn far(c: &C) -> C { C::new_xy(1e9 + c.x, 1e9 + c.y) }
fn near(a: f64, b: f64, m: f64) -> bool { a == b || b.is_nan() || !(m <= 1e30) || (a - b).abs() <= m * 1e-6 + 1e-200 }
/// distances far from the origin keep their digits
/// @mode fp
pub fn c13_segment_far__law(p: &C, a: &C, b: &C) -> bool {
    let (p, a, b) = (&far(p), &far(a), &far(b));
    near(Distance::point_to_segment(p, a, b), pt_seg(p, a, b), d(p, a) + d(p, b))
}
/// @mode fp
pub fn c13_line_far__law(p: &C, a: &C, b: &C) -> bool {
    let (p, a, b) = (&far(p), &far(a), &far(b));
    let n = len2(a, b);
    let s = cross(p, a, b) / n;
    let m = d(p, a) + d(p, b);
    near(Distance::point_to_line_perpendicular(p, a, b), s.abs() * n.sqrt(), m) && near(Distance::point_to_line_perpendicular_signed(p, a, b), s * n.sqrt(), m)
}

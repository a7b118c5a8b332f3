// C18: areas, lengths and centroids.
use crate::core::algorithm::area::Area;
use crate::core::algorithm::centroid::Centroid;
use crate::core::algorithm::length::Length;
use crate::core::algorithm::orientation::Orientation;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as A;
use crate::core::geom::line_string::LineString;
use crate::core::geom::linear_ring::LinearRing;
use crate::core::geom::multi_polygon::MultiPolygon;
use crate::core::geom::point::Point;
use crate::core::geom::polygon::Polygon;

type C = Coordinate;

/// the area of an envelope is its width times its height
pub fn c18_envarea__impl(x1: f64, x2: f64, y1: f64, y2: f64) -> f64 {
    Envelope::new_xy(x1, x2, y1, y2).get_area()
}
pub fn c18_envarea__spec(x1: f64, x2: f64, y1: f64, y2: f64) -> f64 {
    (x1-x2).abs()*(y1-y2).abs()
}
fn signed(ring: &Vec<C>) -> f64 {
    let n = ring.len();
    if n < 3 { return 0.0; }
    let mut s = 0.0;
    let mut i = 1;
    while i < n - 1 {
        s += (ring[i].x - ring[0].x) * (ring[i - 1].y - ring[i + 1].y);
        i += 1;
    }
    s / 2.0
}
/// the signed area of a ring is the shoelace sum, positive when clockwise
pub fn c18_area__impl(ring: &Vec<C>) -> f64 { Area::of_ring_signed_vec(ring) }
pub fn c18_area__spec(ring: &Vec<C>) -> f64 { signed(ring) }
/// the area of a ring is the magnitude of its signed area
pub fn c18_area_abs__impl(ring: &Vec<C>) -> f64 { Area::of_ring_vec(ring) }
pub fn c18_area_abs__spec(ring: &Vec<C>) -> f64 { signed(ring).abs() }
/// the signed area of a coordinate sequence is that of its coordinates
pub fn c18_area_seq__impl(s: &A) -> f64 { Area::of_ring_signed_coordinate_sequence(s) }
pub fn c18_area_seq__spec(s: &A) -> f64 {
    let n = s.size();
    if n < 3 { return 0.0; }
    let mut t = 0.0;
    let mut i = 1;
    while i < n - 1 {
        t += (s.get_x(i) - s.get_x(0)) * (s.get_y(i - 1) - s.get_y(i + 1));
        i += 1;
    }
    t / 2.0
}
/// the area of a coordinate sequence is the magnitude of its signed area
/// @opaque Area::of_ring_signed_coordinate_sequence
pub fn c18_area_seq_abs__impl(s: &A) -> f64 { Area::of_ring_coordinate_sequence(s) }
pub fn c18_area_seq_abs__spec(s: &A) -> f64 { Area::of_ring_signed_coordinate_sequence(s).abs() }
/// the length of a line is the sum of the distances between neighbours
pub fn c18_length__impl(s: &A) -> f64 { Length::of_line(s) }
pub fn c18_length__spec(s: &A) -> f64 {
    let n = s.size();
    let mut t = 0.0;
    let mut i = 1;
    while i < n {
        t += (s.get_x(i) - s.get_x(i - 1)).hypot(s.get_y(i) - s.get_y(i - 1));
        i += 1;
    }
    t
}
/// a ring is counter-clockwise by area when its signed area is negative
pub fn c18_ccw_area__impl(ring: &Vec<C>) -> bool { Orientation::is_ccw_area_vec(ring) }
pub fn c18_ccw_area__spec(ring: &Vec<C>) -> bool { signed(ring) < 0.0 }

struct S { a: f64, ax: f64, ay: f64, l: f64, lx: f64, ly: f64, n: i32, px: f64, py: f64 }
fn zero() -> S { S { a: 0.0, ax: 0.0, ay: 0.0, l: 0.0, lx: 0.0, ly: 0.0, n: 0, px: 0.0, py: 0.0 } }
fn lines(s: &mut S, v: &Vec<C>) {
    let mut l = 0.0;
    let mut i = 1;
    while i < v.len() {
        let (p, q) = (v[i - 1], v[i]);
        let d = p.distance(&q);
        if d != 0.0 {
            l += d;
            s.lx += d * (p.x + q.x) / 2.0;
            s.ly += d * (p.y + q.y) / 2.0;
        }
        i += 1;
    }
    s.l += l;
    if l == 0.0 && v.len() > 0 { s.n += 1; s.px += v[0].x; s.py += v[0].y; }
}
fn area(s: &mut S, b: &C, v: &Vec<C>, sign: f64) {
    let mut i = 1;
    while i < v.len() {
        let (p, q) = (v[i - 1], v[i]);
        let d = ((p.x - b.x) * (q.y - b.y) - (q.x - b.x) * (p.y - b.y)) * sign;
        s.a += d;
        s.ax += d * (b.x + p.x + q.x);
        s.ay += d * (b.y + p.y + q.y);
        i += 1;
    }
}
fn done(s: &S) -> Option<(f64, f64)> {
    if s.a != 0.0 { return Some((s.ax / 3.0 / s.a, s.ay / 3.0 / s.a)); }
    if s.l > 0.0 { return Some((s.lx / s.l, s.ly / s.l)); }
    if s.n > 0 { return Some((s.px / s.n as f64, s.py / s.n as f64)); }
    None
}
fn xy(c: Option<C>) -> Option<(f64, f64)> { match c { Some(c) => Some((c.x, c.y)), None => None } }
/// the centroid of a point is the point, none when empty
pub fn c18_point__impl(p: &Point) -> Option<(f64, f64)> { xy(Centroid::get_centroid_from_point(p)) }
pub fn c18_point__spec(p: &Point) -> Option<(f64, f64)> { xy(p.get_coordinate()) }
/// the centroid of points is their mean
pub fn c18_points__impl(v: &Vec<C>) -> Option<(f64, f64)> {
    let mut c = Centroid::default();
    let mut i = 0;
    while i < v.len() { c.add_point(&v[i]); i += 1; }
    xy(c.get_centroid())
}
pub fn c18_points__spec(v: &Vec<C>) -> Option<(f64, f64)> {
    let mut s = zero();
    let mut i = 0;
    while i < v.len() { s.n += 1; s.px += v[i].x; s.py += v[i].y; i += 1; }
    done(&s)
}
/// the centroid of a line is the length-weighted mean of its segments' mid points; of a line without length, its point
pub fn c18_line__impl(v: &Vec<C>) -> Option<(f64, f64)> {
    let mut c = Centroid::default();
    c.add_line_segments(v);
    xy(c.get_centroid())
}
pub fn c18_line__spec(v: &Vec<C>) -> Option<(f64, f64)> {
    let mut s = zero();
    lines(&mut s, v);
    done(&s)
}
/// a line adds to the points and lines before it
pub fn c18_line_after__impl(p: &C, q: &C, v: &Vec<C>) -> Option<(f64, f64)> {
    let mut c = Centroid::default();
    c.add_point(p);
    c.add_line_segments(&vec![*p, *q]);
    c.add_line_segments(v);
    xy(c.get_centroid())
}
pub fn c18_line_after__spec(p: &C, q: &C, v: &Vec<C>) -> Option<(f64, f64)> {
    let mut s = zero();
    s.n = 1; s.px = p.x; s.py = p.y;
    lines(&mut s, &vec![*p, *q]);
    lines(&mut s, v);
    done(&s)
}
/// a shell adds its area and lines to the areas, lines and points before it
/// @opaque Orientation::is_ccw_vec
pub fn c18_shell_after__impl(p: &C, q: &C, r: &C, v: &Vec<C>) -> Option<(f64, f64)> {
    let mut c = Centroid::default();
    c.set_area_base_point(p);
    c.add_triangle(p, q, r, true);
    c.add_line_segments(&vec![*p, *q]);
    c.add_shell(v);
    xy(c.get_centroid())
}
pub fn c18_shell_after__spec(p: &C, q: &C, r: &C, v: &Vec<C>) -> Option<(f64, f64)> {
    let mut s = zero();
    area(&mut s, p, &vec![*q, *r], 1.0);
    lines(&mut s, &vec![*p, *q]);
    let cw = !Orientation::is_ccw_vec(v);
    if v.len() > 0 { area(&mut s, &v[0], v, if cw { 1.0 } else { -1.0 }); }
    lines(&mut s, v);
    done(&s)
}
/// the centroid of a line string is that of its coordinates
/// @opaque Centroid::add_line_segments
pub fn c18_line_string__impl(l: &LineString) -> Option<C> { Centroid::new_from_line_string(l).get_centroid() }
pub fn c18_line_string__spec(l: &LineString) -> Option<C> {
    let mut c = Centroid::default();
    c.add_line_segments(&l.get_coordinates());
    c.get_centroid()
}
/// a triangle adds its signed area and area-weighted centroid
pub fn c18_triangle__impl(a: &C, b: &C, c: &C, p: bool, d: &C, e: &C, f: &C) -> Option<(f64, f64)> {
    let mut t = Centroid::default();
    t.add_triangle(a, b, c, p);
    t.add_triangle(d, e, f, true);
    xy(t.get_centroid())
}
pub fn c18_triangle__spec(a: &C, b: &C, c: &C, p: bool, d: &C, e: &C, f: &C) -> Option<(f64, f64)> {
    let mut s = zero();
    area(&mut s, a, &vec![*b, *c], if p { 1.0 } else { -1.0 });
    area(&mut s, d, &vec![*e, *f], 1.0);
    done(&s)
}
/// the centroid of a shell is its area's, its line's when without area
/// @opaque Orientation::is_ccw_vec
pub fn c18_shell__impl(v: &Vec<C>) -> Option<(f64, f64)> {
    let mut c = Centroid::default();
    c.add_shell(v);
    xy(c.get_centroid())
}
pub fn c18_shell__spec(v: &Vec<C>) -> Option<(f64, f64)> {
    let mut s = zero();
    let cw = !Orientation::is_ccw_vec(v);
    if v.len() > 0 { area(&mut s, &v[0], v, if cw { 1.0 } else { -1.0 }); }
    lines(&mut s, v);
    done(&s)
}
/// a hole's area counts against that of the shell, from the shell's base point; its lines count as any
/// @opaque Orientation::is_ccw_vec
pub fn c18_hole__impl(b: &C, v: &Vec<C>) -> Option<(f64, f64)> {
    let mut c = Centroid::default();
    c.set_area_base_point(b);
    c.add_line_segments(&vec![*b, C::default()]);
    c.add_hole(v);
    xy(c.get_centroid())
}
pub fn c18_hole__spec(b: &C, v: &Vec<C>) -> Option<(f64, f64)> {
    let mut s = zero();
    let ccw = Orientation::is_ccw_vec(v);
    area(&mut s, b, v, if ccw { 1.0 } else { -1.0 });
    lines(&mut s, &vec![*b, C::default()]);
    lines(&mut s, v);
    done(&s)
}
/// the centroid of a polygon takes its shell and every hole
/// @opaque Centroid::add_shell, Centroid::add_hole
pub fn c18_polygon__impl(p: &Polygon) -> Option<C> { Centroid::get_centroid_from_polygon(p) }
pub fn c18_polygon__spec(p: &Polygon) -> Option<C> {
    let mut c = Centroid::default();
    c.add_shell(&p.get_exterior_ring().get_coordinates());
    let mut i = 0;
    while i < p.get_num_interior_ring() { c.add_hole(&p.get_interior_ring_n(i).get_coordinates()); i += 1; }
    c.get_centroid()
}
/// the centroid of polygons takes every polygon
/// @opaque Centroid::add_shell
pub fn c18_multi_polygon__impl(r: &LinearRing, s: &LinearRing) -> Option<C> { Centroid::get_centroid_from_multi_polygon(&pair(r, s)) }
pub fn c18_multi_polygon__spec(r: &LinearRing, s: &LinearRing) -> Option<C> {
    let m = pair(r, s);
    let mut c = Centroid::default();
    c.add_shell(&m.get_polygon_at_index(0).get_exterior_ring().get_coordinates());
    c.add_shell(&m.get_polygon_at_index(1).get_exterior_ring().get_coordinates());
    c.get_centroid()
}
fn pair(r: &LinearRing, s: &LinearRing) -> MultiPolygon { MultiPolygon::new_with_polygons(&vec![Polygon::new_with_linear_ring(r), Polygon::new_with_linear_ring(s)]) }
fn scale(d: f64) -> i32 { if d.is_nan() { -1 } else if d == 0.0 { 0 } else if d.is_infinite() { 2 } else { 1 } }
/// the length of a line neither overflows nor vanishes in intermediate steps
/// @mode fp
pub fn c18_length_range__impl(a: &Coordinate, b: &Coordinate) -> i32 { scale(Length::of_line(&A::new_with_coordinates(&vec![Coordinate::from_coordinate(a), Coordinate::from_coordinate(b)]))) }
pub fn c18_length_range__spec(a: &Coordinate, b: &Coordinate) -> i32 { scale(0.0 + (b.x - a.x).hypot(b.y - a.y)) }
fn far(c: &C) -> C { C::new_xy(1e9 + c.x, 1e9 + c.y) }
fn near(a: f64, b: f64, m: f64) -> bool { a == b || b.is_nan() || !(m <= 1e30) || (a - b).abs() <= m * 1e-6 + 1e-200 }
fn quad(a: &C, b: &C, c: &C, e: &C) -> (Vec<C>, f64, f64) {
    let (a, b, c, e) = (far(a), far(b), far(c), far(e));
    let mut s = 0.0;
    s += (b.x - a.x) * (a.y - c.y);
    s += (c.x - a.x) * (b.y - e.y);
    s += (e.x - a.x) * (c.y - a.y);
    let m = (b.x - a.x).abs() + (c.x - a.x).abs() + (e.x - a.x).abs();
    let n = (b.y - a.y).abs() + (c.y - a.y).abs() + (e.y - a.y).abs();
    (vec![a, b, c, e, a], s / 2.0, m * n)
}
/// the area of a small ring far from the origin keeps its digits
/// @mode fp
pub fn c18_area_far__law(a: &C, b: &C, c: &C, e: &C) -> bool {
    let (v, s, m) = quad(a, b, c, e);
    near(Area::of_ring_signed_vec(&v), s, m) && near(Area::of_ring_vec(&v), s.abs(), m)
}
/// @mode fp
pub fn c18_area_far_sequence__law(a: &C, b: &C, c: &C, e: &C) -> bool {
    let (v, s, m) = quad(a, b, c, e);
    let v = A::new_with_coordinates(&v);
    near(Area::of_ring_signed_coordinate_sequence(&v), s, m) && near(Area::of_ring_coordinate_sequence(&v), s.abs(), m)
}

// C04: octagonal envelopes (bounds on x, y, x+y and x-y).
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::octagonal_envelope::OctagonalEnvelope;
use crate::core::geom::line_string::LineString;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence;

type O = (bool, [f64; 8]);
pub fn octs(o: &OctagonalEnvelope) -> O {
    if o.is_null() { (true, [0.0; 8]) } else {
        (false, [o.get_min_x(), o.get_max_x(), o.get_min_y(), o.get_max_y(), o.get_min_a(), o.get_max_a(), o.get_min_b(), o.get_max_b()])
    }
}
fn lo(a: f64, b: f64) -> f64 { if a < b { a } else { b } }
fn hi(a: f64, b: f64) -> f64 { if a < b { b } else { a } }
fn of(p: &Coordinate) -> O { (false, [p.x, p.x, p.y, p.y, p.x + p.y, p.x + p.y, p.x - p.y, p.x - p.y]) }
fn join(s: O, t: O) -> O {
    if s.0 { return t; }
    if t.0 { return s; }
    let (a, b) = (s.1, t.1);
    (false, [lo(a[0], b[0]), hi(a[1], b[1]), lo(a[2], b[2]), hi(a[3], b[3]), lo(a[4], b[4]), hi(a[5], b[5]), lo(a[6], b[6]), hi(a[7], b[7])])
}
/// built from k points (k = 0, 1, 2)
fn oct(k: i32, p: &Coordinate, q: &Coordinate) -> OctagonalEnvelope {
    if k == 0 { OctagonalEnvelope::default() } else if k == 1 { OctagonalEnvelope::new_with_coordinate(p) } else { OctagonalEnvelope::new_with_coordinates(p, q) }
}
fn octd(k: i32, p: &Coordinate, q: &Coordinate) -> O {
    if k == 0 { (true, [0.0; 8]) } else if k == 1 { of(p) } else { join(of(p), of(q)) }
}

/// an octagonal envelope built from points has exactly their bounds in x, y, x+y and x-y
pub fn c04_build__impl(p: &Coordinate, q: &Coordinate) -> (O, O, O) {
    (octs(&OctagonalEnvelope::default()), octs(&OctagonalEnvelope::new_with_coordinate(p)), octs(&OctagonalEnvelope::new_with_coordinates(p, q)))
}
pub fn c04_build__spec(p: &Coordinate, q: &Coordinate) -> (O, O, O) { ((true, [0.0; 8]), of(p), join(of(p), of(q))) }
/// expanding to a point takes the join with that point's bounds; a null envelope becomes the point
pub fn c04_expand_point__impl(k: i32, p: &Coordinate, q: &Coordinate, r: &Coordinate) -> (O, O) {
    let mut v = oct(k, p, q);
    let mut w = v;
    v.expand_to_include_coordinate(r);
    w.expand_to_include_xy(r.x, r.y);
    (octs(&v), octs(&w))
}
pub fn c04_expand_point__spec(k: i32, p: &Coordinate, q: &Coordinate, r: &Coordinate) -> (O, O) {
    let j = join(octd(k, p, q), of(r));
    (j, j)
}
/// expanding to an envelope takes the join with its four corners; a null envelope changes nothing
pub fn c04_expand_envelope__impl(k: i32, p: &Coordinate, q: &Coordinate, n: bool, a: f64, b: f64, c: f64, d: f64) -> (O, O) {
    let e = if n { Envelope::default() } else { Envelope::new_xy(a, b, c, d) };
    let mut v = oct(k, p, q);
    v.expand_to_include_envelope(&e);
    (octs(&v), octs(&OctagonalEnvelope::new_with_envelope(&e)))
}
pub fn c04_expand_envelope__spec(k: i32, p: &Coordinate, q: &Coordinate, n: bool, a: f64, b: f64, c: f64, d: f64) -> (O, O) {
    let (x1, x2, y1, y2) = (lo(a, b), hi(a, b), lo(c, d), hi(c, d));
    let w = if n { (true, [0.0; 8]) } else { (false, [x1, x2, y1, y2, x1 + y1, x2 + y2, x1 - y2, x2 - y1]) };
    (join(octd(k, p, q), w), w)
}
/// expanding to another octagonal envelope takes the join; null is neutral
pub fn c04_expand_oct__impl(k: i32, p: &Coordinate, q: &Coordinate, l: i32, r: &Coordinate, s: &Coordinate) -> (O, O) {
    let mut v = oct(k, p, q);
    let w = oct(l, r, s);
    v.expand_to_include_octagonal_envelope(&w);
    (octs(&v), octs(&OctagonalEnvelope::new_with_octagonal_envelope(&w)))
}
pub fn c04_expand_oct__spec(k: i32, p: &Coordinate, q: &Coordinate, l: i32, r: &Coordinate, s: &Coordinate) -> (O, O) {
    (join(octd(k, p, q), octd(l, r, s)), octd(l, r, s))
}
/// expand_by_distance moves the axis bounds by d and the diagonal bounds by sqrt(2) d, and a crossed pair makes it null
pub fn c04_expand_by__impl(k: i32, p: &Coordinate, q: &Coordinate, d: f64) -> O {
    let mut v = oct(k, p, q);
    v.expand_by_distance(d);
    octs(&v)
}
pub fn c04_expand_by__spec(k: i32, p: &Coordinate, q: &Coordinate, d: f64) -> O {
    let s = octd(k, p, q);
    if s.0 { return s; }
    let e = f64::sqrt(2.0) * d;
    let v = s.1;
    let r = [v[0] - d, v[1] + d, v[2] - d, v[3] + d, v[4] - e, v[5] + e, v[6] - e, v[7] + e];
    if r[0] > r[1] || r[2] > r[3] || r[4] > r[5] || r[6] > r[7] { (true, [0.0; 8]) } else { (false, r) }
}
/// two octagonal envelopes intersect exactly when all four ranges overlap
pub fn c04_intersects__impl(v: &OctagonalEnvelope, w: &OctagonalEnvelope) -> bool { v.intersects_octagonal_envelope(w) }
pub fn c04_intersects__spec(v: &OctagonalEnvelope, w: &OctagonalEnvelope) -> bool {
    v.get_min_x() <= w.get_max_x() && w.get_min_x() <= v.get_max_x() && v.get_min_y() <= w.get_max_y() && w.get_min_y() <= v.get_max_y()
        && v.get_min_a() <= w.get_max_a() && w.get_min_a() <= v.get_max_a() && v.get_min_b() <= w.get_max_b() && w.get_min_b() <= v.get_max_b()
}
/// null never intersects
pub fn c04_intersects_null__impl(v: &OctagonalEnvelope, p: &Coordinate, q: &Coordinate) -> (bool, bool, bool) {
    let mut n = oct(2, p, q);
    n.set_to_null();
    (n.intersects_octagonal_envelope(v), v.intersects_octagonal_envelope(&n), OctagonalEnvelope::default().intersects_octagonal_envelope(v))
}
pub fn c04_intersects_null__spec(v: &OctagonalEnvelope, p: &Coordinate, q: &Coordinate) -> (bool, bool, bool) { (false, false, false) }
/// a point is met exactly when it satisfies the four ranges; a null envelope meets nothing
pub fn c04_point__impl(k: i32, p: &Coordinate, q: &Coordinate, r: &Coordinate) -> bool { oct(k, p, q).intersects_coordinate(r) }
pub fn c04_point__spec(k: i32, p: &Coordinate, q: &Coordinate, r: &Coordinate) -> bool {
    let v = octd(k, p, q);
    let m = |i: usize, t: f64| v.1[i] <= t && t <= v.1[i + 1];
    !v.0 && m(0, r.x) && m(2, r.y) && m(4, r.x + r.y) && m(6, r.x - r.y)
}
/// a null envelope that once held points stays null for every predicate
pub fn c04_null_again__impl(p: &Coordinate, q: &Coordinate, r: &Coordinate) -> (bool, bool, bool, bool) {
    let mut v = oct(2, p, q);
    v.set_to_null();
    let w = oct(1, r, r);
    (v.is_null(), v.intersects_coordinate(r), v.intersects_octagonal_envelope(&w), v.contains_octagonal_envelope(&w))
}
pub fn c04_null_again__spec(p: &Coordinate, q: &Coordinate, r: &Coordinate) -> (bool, bool, bool, bool) { (true, false, false, false) }
/// containment is inclusion of all four ranges
pub fn c04_contains__impl(v: &OctagonalEnvelope, w: &OctagonalEnvelope) -> bool { v.contains_octagonal_envelope(w) }
pub fn c04_contains__spec(v: &OctagonalEnvelope, w: &OctagonalEnvelope) -> bool {
    v.get_min_x() <= w.get_min_x() && w.get_max_x() <= v.get_max_x() && v.get_min_y() <= w.get_min_y() && w.get_max_y() <= v.get_max_y()
        && v.get_min_a() <= w.get_min_a() && w.get_max_a() <= v.get_max_a() && v.get_min_b() <= w.get_min_b() && w.get_max_b() <= v.get_max_b()
}
/// null neither contains nor is contained
pub fn c04_contains_null__impl(v: &OctagonalEnvelope, p: &Coordinate, q: &Coordinate) -> (bool, bool, bool) {
    let mut n = oct(2, p, q);
    n.set_to_null();
    (n.contains_octagonal_envelope(v), v.contains_octagonal_envelope(&n), OctagonalEnvelope::default().contains_octagonal_envelope(v))
}
pub fn c04_contains_null__spec(v: &OctagonalEnvelope, p: &Coordinate, q: &Coordinate) -> (bool, bool, bool) { (false, false, false) }
/// expanding to a sequence visits every one of its points
pub fn c04_sequence__impl(s: &CoordinateArraySequence) -> O {
    let mut v = OctagonalEnvelope::default();
    v.expand_to_include_coordinate_array_sequence(s);
    octs(&v)
}
pub fn c04_sequence__spec(s: &CoordinateArraySequence) -> O {
    let mut v = OctagonalEnvelope::default();
    for i in 0..s.size() { v.expand_to_include_coordinate(&s.get_coordinate_index(i)); }
    octs(&v)
}
/// an octagonal envelope of a line is the one expanded with its coordinates
pub fn c04_of_line__impl(v: &Vec<Coordinate>) -> O { octs(&OctagonalEnvelope::new_with_line_string(&LineString::new_from_coordinate_sequence(CoordinateArraySequence::new_with_coordinates(v)))) }
pub fn c04_of_line__spec(v: &Vec<Coordinate>) -> O {
    let mut o = OctagonalEnvelope::default();
    let mut i = 0;
    while i < v.len() { o.expand_to_include_coordinate(&v[i]); i += 1; }
    octs(&o)
}

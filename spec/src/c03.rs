// C03: envelope predicates.
use super::c02::env;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
fn lo(a: f64, b: f64) -> f64 { if a < b { a } else { b } }
fn hi(a: f64, b: f64) -> f64 { if a < b { b } else { a } }
fn meet(a: f64, b: f64, c: f64, d: f64) -> bool { lo(a, b) <= hi(c, d) && lo(c, d) <= hi(a, b) }
fn inside(a: f64, b: f64, x: f64) -> bool { lo(a, b) <= x && x <= hi(a, b) }

/// two envelopes intersect exactly when both axes' ranges overlap; every spelling agrees; null never does
pub fn c03_intersects__impl(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> (bool, bool, bool) {
    let (v, w) = (env(n, a, b, c, d), env(k, e, f, g, h));
    (v.intersects_envelope(&w), !v.disjoint_envelope(&w), v.overlaps_envelope(&w))
}
pub fn c03_intersects__spec(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> (bool, bool, bool) {
    let r = !n && !k && meet(a, b, e, f) && meet(c, d, g, h);
    (r, r, r)
}
/// intersects is symmetric
pub fn c03_intersects_sym__law(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> bool {
    let (v, w) = (env(n, a, b, c, d), env(k, e, f, g, h));
    v.intersects_envelope(&w) == w.intersects_envelope(&v)
}
/// a point meets / is covered by / is contained in an envelope exactly when it lies in the closed box
pub fn c03_point__impl(n: bool, a: f64, b: f64, c: f64, d: f64, p: &Coordinate) -> [bool; 8] {
    let v = env(n, a, b, c, d);
    [v.intersects_coordinate(p), v.intersects_xy(p.x, p.y), v.overlaps_coordinate(p), v.overlaps_xy(p.x, p.y),
     v.covers_coordinate(p), v.covers_xy(p.x, p.y), v.contains_coordinate(p), v.contains_xy(p.x, p.y)]
}
pub fn c03_point__spec(n: bool, a: f64, b: f64, c: f64, d: f64, p: &Coordinate) -> [bool; 8] {
    [!n && inside(a, b, p.x) && inside(c, d, p.y); 8]
}
/// covers / contains is inclusion of the boxes
pub fn c03_covers__impl(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> (bool, bool) {
    let (v, w) = (env(n, a, b, c, d), env(k, e, f, g, h));
    (v.covers_envelope(&w), v.contains_envelope(&w))
}
pub fn c03_covers__spec(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> (bool, bool) {
    let r = !n && !k && inside(a, b, e) && inside(a, b, f) && inside(c, d, g) && inside(c, d, h);
    (r, r)
}
/// contains_properly is covers without equality
pub fn c03_properly__impl(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> bool {
    env(n, a, b, c, d).contains_properly(&env(k, e, f, g, h))
}
pub fn c03_properly__spec(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> bool {
    let (v, w) = (env(n, a, b, c, d), env(k, e, f, g, h));
    v.covers_envelope(&w) && !(w.covers_envelope(&v))
}
/// equality is equality of the boxes; all null envelopes are equal
pub fn c03_equals__impl(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> bool {
    env(n, a, b, c, d).equals(&env(k, e, f, g, h))
}
pub fn c03_equals__spec(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> bool {
    if n || k { n && k } else { lo(a, b) == lo(e, f) && hi(a, b) == hi(e, f) && lo(c, d) == lo(g, h) && hi(c, d) == hi(g, h) }
}
/// compare orders by (minx, miny, maxx, maxy), null first
pub fn c03_compare__impl(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> i32 {
    env(n, a, b, c, d).compare_to_envelope(&env(k, e, f, g, h))
}
pub fn c03_compare__spec(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> i32 {
    if n || k { return if n && k { 0 } else if n { -1 } else { 1 }; }
    let s = |p: f64, q: f64| if p < q { -1 } else if p > q { 1 } else { 0 };
    let r = s(lo(a, b), lo(e, f));
    if r != 0 { return r; }
    let r = s(lo(c, d), lo(g, h));
    if r != 0 { return r; }
    let r = s(hi(a, b), hi(e, f));
    if r != 0 { return r; }
    s(hi(c, d), hi(g, h))
}
/// compare is antisymmetric
pub fn c03_compare_antisym__law(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> bool {
    let (v, w) = (env(n, a, b, c, d), env(k, e, f, g, h));
    v.compare_to_envelope(&w) == -w.compare_to_envelope(&v)
}
/// the three-point and four-point static tests agree with the envelope tests
pub fn c03_static__impl(p1: &Coordinate, p2: &Coordinate, q1: &Coordinate, q2: &Coordinate) -> (bool, bool) {
    (Envelope::intersects_3(p1, p2, q1), Envelope::intersects_4(p1, p2, q1, q2))
}
pub fn c03_static__spec(p1: &Coordinate, p2: &Coordinate, q1: &Coordinate, q2: &Coordinate) -> (bool, bool) {
    (inside(p1.x, p2.x, q1.x) && inside(p1.y, p2.y, q1.y), meet(p1.x, p2.x, q1.x, q2.x) && meet(p1.y, p2.y, q1.y, q2.y))
}
/// an envelope against a segment's box
pub fn c03_segment_box__impl(n: bool, a: f64, b: f64, c: f64, d: f64, p: &Coordinate, q: &Coordinate) -> bool {
    env(n, a, b, c, d).intersects_coordinate_ab(p, q)
}
pub fn c03_segment_box__spec(n: bool, a: f64, b: f64, c: f64, d: f64, p: &Coordinate, q: &Coordinate) -> bool {
    !n && meet(a, b, p.x, q.x) && meet(c, d, p.y, q.y)
}
fn scale(d: f64) -> i32 { if d.is_nan() { -1 } else if d == 0.0 { 0 } else if d.is_infinite() { 2 } else { 1 } }
/// envelope distance neither overflows nor vanishes in intermediate steps
/// @mode fp
pub fn c03_distance_range__impl(a: f64, b: f64, x: f64, y: f64) -> i32 { if !(a < x && b < y) { return 0; } scale(Envelope::new_xy(a, a, b, b).distance_envelope(&Envelope::new_xy(x, x, y, y))) }
pub fn c03_distance_range__spec(a: f64, b: f64, x: f64, y: f64) -> i32 { if !(a < x && b < y) { return 0; } let (p, q) = (x - a, y - b); scale(if p == 0.0 { q } else if q == 0.0 { p } else { p.hypot(q) }) }

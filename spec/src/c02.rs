// C02: construction, expansion and measures of envelopes.
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;

/// any envelope reachable through the API
pub fn env(null: bool, x1: f64, x2: f64, y1: f64, y2: f64) -> Envelope {
    if null { Envelope::default() } else { Envelope::new_xy(x1, x2, y1, y2) }
}
pub fn bounds(e: &Envelope) -> (bool, f64, f64, f64, f64) {
    if e.is_null() { (true, 0.0, 0.0, 0.0, 0.0) } else { (false, e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()) }
}
fn lo(a: f64, b: f64) -> f64 { if a < b { a } else { b } }
fn hi(a: f64, b: f64) -> f64 { if a < b { b } else { a } }
type B = (bool, f64, f64, f64, f64);

/// an envelope built from two corner values per axis is their smallest box, whatever their order
pub fn c02_new_xy__impl(x1: f64, x2: f64, y1: f64, y2: f64) -> B { bounds(&Envelope::new_xy(x1, x2, y1, y2)) }
pub fn c02_new_xy__spec(x1: f64, x2: f64, y1: f64, y2: f64) -> B { (false, lo(x1, x2), hi(x1, x2), lo(y1, y2), hi(y1, y2)) }
/// the same from two points
pub fn c02_new_coordinates__impl(p: &Coordinate, q: &Coordinate) -> B { bounds(&Envelope::new_coordinates(p, q)) }
pub fn c02_new_coordinates__spec(p: &Coordinate, q: &Coordinate) -> B { (false, lo(p.x, q.x), hi(p.x, q.x), lo(p.y, q.y), hi(p.y, q.y)) }
/// the same from one point
pub fn c02_new_coordinate__impl(p: &Coordinate) -> B { bounds(&Envelope::new_coordinate(p)) }
pub fn c02_new_coordinate__spec(p: &Coordinate) -> B { (false, p.x, p.x, p.y, p.y) }
/// the default envelope and one set to null are null, one built from points is not
pub fn c02_null__impl(n: bool, a: f64, b: f64, c: f64, d: f64) -> (bool, bool, bool) {
    let mut e = env(n, a, b, c, d);
    let was = e.is_null();
    e.set_to_null();
    (Envelope::default().is_null(), was, e.is_null())
}
pub fn c02_null__spec(n: bool, a: f64, b: f64, c: f64, d: f64) -> (bool, bool, bool) { (true, n, true) }
/// copies and init reproduce the envelope
pub fn c02_copy__impl(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> (B, B, B) {
    let v = env(n, a, b, c, d);
    let mut w = env(k, e, f, g, h);
    w.init(&v);
    (bounds(&v.copy()), bounds(&Envelope::new_envelope(&v)), bounds(&w))
}
pub fn c02_copy__spec(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> (B, B, B) {
    let b = bounds(&env(n, a, b, c, d));
    (b, b, b)
}
fn grow(b: B, x: f64, y: f64) -> B {
    if b.0 { (false, x, x, y, y) } else { (false, lo(b.1, x), hi(b.2, x), lo(b.3, y), hi(b.4, y)) }
}
/// expanding to a point gives the smallest box holding both
pub fn c02_expand_point__impl(n: bool, a: f64, b: f64, c: f64, d: f64, p: &Coordinate) -> (B, B) {
    let mut v = env(n, a, b, c, d);
    let mut w = v;
    v.expand_to_include_coordinate(p);
    w.expand_to_include_xy(p.x, p.y);
    (bounds(&v), bounds(&w))
}
pub fn c02_expand_point__spec(n: bool, a: f64, b: f64, c: f64, d: f64, p: &Coordinate) -> (B, B) {
    let r = grow(bounds(&env(n, a, b, c, d)), p.x, p.y);
    (r, r)
}
/// expanding to an envelope gives the smallest box holding both; null is neutral
pub fn c02_expand_envelope__impl(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> B {
    let mut v = env(n, a, b, c, d);
    v.expand_to_include_envelope(&env(k, e, f, g, h));
    bounds(&v)
}
pub fn c02_expand_envelope__spec(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> B {
    let v = bounds(&env(n, a, b, c, d));
    if k { return v; }
    let w = bounds(&env(k, e, f, g, h));
    grow(grow(v, w.1, w.3), w.2, w.4)
}
fn inflate(b: B, dx: f64, dy: f64) -> B {
    if b.0 { return b; }
    let r = (false, b.1 - dx, b.2 + dx, b.3 - dy, b.4 + dy);
    if r.1 > r.2 || r.3 > r.4 { (true, 0.0, 0.0, 0.0, 0.0) } else { r }
}
/// expand_by moves each side by the distance, collapsing to null when a side pair crosses
pub fn c02_expand_by__impl(n: bool, a: f64, b: f64, c: f64, d: f64, t: f64) -> B {
    let mut v = env(n, a, b, c, d);
    v.expand_by(t);
    bounds(&v)
}
pub fn c02_expand_by__spec(n: bool, a: f64, b: f64, c: f64, d: f64, t: f64) -> B { inflate(bounds(&env(n, a, b, c, d)), t, t) }
/// expand_by_delta_xy moves the x sides by dx and the y sides by dy
pub fn c02_expand_by_delta__impl(n: bool, a: f64, b: f64, c: f64, d: f64, s: f64, t: f64) -> B {
    let mut v = env(n, a, b, c, d);
    v.expand_by_delta_xy(s, t);
    bounds(&v)
}
pub fn c02_expand_by_delta__spec(n: bool, a: f64, b: f64, c: f64, d: f64, s: f64, t: f64) -> B { inflate(bounds(&env(n, a, b, c, d)), s, t) }
/// translate moves the box; a null envelope stays null
pub fn c02_translate__impl(n: bool, a: f64, b: f64, c: f64, d: f64, s: f64, t: f64) -> B {
    let mut v = env(n, a, b, c, d);
    v.translate(s, t);
    bounds(&v)
}
pub fn c02_translate__spec(n: bool, a: f64, b: f64, c: f64, d: f64, s: f64, t: f64) -> B {
    let v = bounds(&env(n, a, b, c, d));
    if v.0 { v } else { (false, v.1 + s, v.2 + s, v.3 + t, v.4 + t) }
}
/// width, height, area, diameter and extents are those of the box, and 0 for null
pub fn c02_measures__impl(n: bool, a: f64, b: f64, c: f64, d: f64) -> (f64, f64, f64, f64, f64, f64) {
    let v = env(n, a, b, c, d);
    (v.get_width(), v.get_height(), v.get_area(), v.min_extent(), v.max_extent(), v.get_diameter())
}
pub fn c02_measures__spec(n: bool, a: f64, b: f64, c: f64, d: f64) -> (f64, f64, f64, f64, f64, f64) {
    if n { return (0.0, 0.0, 0.0, 0.0, 0.0, 0.0); }
    let (w, h) = (hi(a, b) - lo(a, b), hi(c, d) - lo(c, d));
    (w, h, w * h, lo(w, h), hi(w, h), w.hypot(h))
}
/// the centre is the midpoint of the box; null has none
pub fn c02_centre__impl(n: bool, a: f64, b: f64, c: f64, d: f64) -> Option<(f64, f64)> {
    match env(n, a, b, c, d).centre() { Some(p) => Some((p.x, p.y)), None => None }
}
pub fn c02_centre__spec(n: bool, a: f64, b: f64, c: f64, d: f64) -> Option<(f64, f64)> {
    if n { None } else { Some(((a + b) / 2.0, (c + d) / 2.0)) }
}
/// the intersection is the common box, null when there is none
pub fn c02_intersection__impl(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> B {
    bounds(&env(n, a, b, c, d).intersection_envelope(&env(k, e, f, g, h)))
}
pub fn c02_intersection__spec(n: bool, a: f64, b: f64, c: f64, d: f64, k: bool, e: f64, f: f64, g: f64, h: f64) -> B {
    let nul = (true, 0.0, 0.0, 0.0, 0.0);
    if n || k { return nul; }
    let v = bounds(&env(n, a, b, c, d));
    let w = bounds(&env(k, e, f, g, h));
    let r = (false, hi(v.1, w.1), lo(v.2, w.2), hi(v.3, w.3), lo(v.4, w.4));
    if r.1 > r.2 || r.3 > r.4 { nul } else { r }
}
/// the distance is the gap between the boxes, 0 when they meet
pub fn c02_distance__impl(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64) -> f64 {
    env(false, a, b, c, d).distance_envelope(&env(false, e, f, g, h))
}
pub fn c02_distance__spec(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64) -> f64 {
    let v = bounds(&env(false, a, b, c, d));
    let w = bounds(&env(false, e, f, g, h));
    let dx = if v.2 < w.1 { w.1 - v.2 } else if w.2 < v.1 { v.1 - w.2 } else { 0.0 };
    let dy = if v.4 < w.3 { w.3 - v.4 } else if w.4 < v.3 { v.3 - w.4 } else { 0.0 };
    if dx == 0.0 { dy } else if dy == 0.0 { dx } else { dx.hypot(dy) }
}
fn scale(d: f64) -> i32 { if d.is_nan() { -1 } else if d == 0.0 { 0 } else if d.is_infinite() { 2 } else { 1 } }
/// the diameter neither overflows nor vanishes in intermediate steps
/// @mode fp
pub fn c02_diameter_range__impl(a: f64, b: f64, c: f64, d: f64) -> i32 { scale(Envelope::new_xy(a, b, c, d).get_diameter()) }
pub fn c02_diameter_range__spec(a: f64, b: f64, c: f64, d: f64) -> i32 { let e = Envelope::new_xy(a, b, c, d); if e.is_null() { 0 } else { scale(e.get_width().hypot(e.get_height())) } }

// C25: point in ring by ray crossing; point on line.
use crate::core::algorithm::orientation::Orientation;
use crate::core::algorithm::point_location::PointLocation;
use crate::core::algorithm::ray_crossing_counter::RayCrossingCounter;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence;
use crate::core::geom::implementation::packed_coordinate_sequence_double::PackedCoordinateSequenceDouble;
use crate::core::geom::location::Location;

type C = Coordinate;
fn cross(a: &C, b: &C, c: &C) -> f64 { (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) }
// 2: p on the segment; 1: the ray from p towards +x crosses it; 0: neither
fn seg(p: &C, a: &C, b: &C) -> i32 {
    if a.x < p.x && b.x < p.x { return 0; }
    if p.x == b.x && p.y == b.y { return 2; }
    if a.y == p.y && b.y == p.y {
        return if p.x >= a.x.min(b.x) && p.x <= a.x.max(b.x) { 2 } else { 0 };
    }
    if (a.y > p.y) == (b.y > p.y) { return 0; }
    let s = cross(a, b, p);
    if s == 0.0 { return 2; }
    if (b.y > a.y && s > 0.0) || (b.y < a.y && s < 0.0) { 1 } else { 0 }
}
// the same in terms of the orientation predicate
fn seg_o(p: &C, a: &C, b: &C) -> i32 {
    if a.x < p.x && b.x < p.x { return 0; }
    if p.x == b.x && p.y == b.y { return 2; }
    if a.y == p.y && b.y == p.y {
        return if p.x >= a.x.min(b.x) && p.x <= a.x.max(b.x) { 2 } else { 0 };
    }
    if (a.y > p.y) == (b.y > p.y) { return 0; }
    let s = Orientation::index(a, b, p);
    if s == Orientation::COLLINEAR { return 2; }
    if (b.y > a.y && s == Orientation::LEFT) || (b.y < a.y && s == Orientation::RIGHT) { 1 } else { 0 }
}
fn locate(hit: bool, n: i32) -> i32 { if hit { Location::BOUNDARY } else if n % 2 == 1 { Location::INTERIOR } else { Location::EXTERIOR } }

/// one segment: crossings follow the half-open rule; a point on the segment is flagged
pub fn c25_segment__impl(p: &C, a: &C, b: &C) -> (i32, bool) {
    let mut c = RayCrossingCounter::new_with_coordinate(p);
    c.count_segment(a, b);
    (c.get_count(), c.is_on_segment())
}
pub fn c25_segment__spec(p: &C, a: &C, b: &C) -> (i32, bool) { let s = seg(p, a, b); (if s == 1 { 1 } else { 0 }, s == 2) }
/// counts and flags accumulate over segments
/// @opaque Orientation::index
pub fn c25_accumulate__impl(p: &C, a: &C, b: &C, c: &C, d: &C) -> (i32, bool, i32, bool) {
    let mut k = RayCrossingCounter::new_with_coordinate(p);
    k.count_segment(a, b);
    k.count_segment(c, d);
    (k.get_count(), k.is_on_segment(), k.get_location(), k.is_point_in_polygon())
}
pub fn c25_accumulate__spec(p: &C, a: &C, b: &C, c: &C, d: &C) -> (i32, bool, i32, bool) {
    let (s, t) = (seg_o(p, a, b), seg_o(p, c, d));
    let n = if s == 1 { 1 } else { 0 } + if t == 1 { 1 } else { 0 };
    let on = s == 2 || t == 2;
    let l = locate(on, n);
    (n, on, l, l != Location::EXTERIOR)
}
/// the location of a point in a ring given as a vector is boundary, or the parity of crossings
/// @opaque Orientation::index
pub fn c25_ring_vec__impl(p: &C, ring: &Vec<C>) -> i32 { RayCrossingCounter::locate_point_in_ring_vec(p, ring) }
pub fn c25_ring_vec__spec(p: &C, ring: &Vec<C>) -> i32 {
    let mut n = 0;
    for i in 1..ring.len() {
        let s = seg_o(p, &ring[i], &ring[i - 1]);
        if s == 2 { return Location::BOUNDARY; }
        if s == 1 { n += 1; }
    }
    locate(false, n)
}
/// the same for a coordinate sequence
/// @mode real
/// @opaque Orientation::index
pub fn c25_ring_seq__impl(p: &C, ring: &CoordinateArraySequence) -> i32 { RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(p, ring) }
pub fn c25_ring_seq__spec(p: &C, ring: &CoordinateArraySequence) -> i32 {
    let mut n = 0;
    for i in 1..ring.size() {
        let s = seg_o(p, &C::new_xy(ring.get_x(i), ring.get_y(i)), &C::new_xy(ring.get_x(i - 1), ring.get_y(i - 1)));
        if s == 2 { return Location::BOUNDARY; }
        if s == 1 { n += 1; }
    }
    locate(false, n)
}
/// the same for a packed sequence
/// @opaque Orientation::index
pub fn c25_ring_packed__impl(p: &C, ring: &PackedCoordinateSequenceDouble) -> i32 { RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(p, ring) }
pub fn c25_ring_packed__spec(p: &C, ring: &PackedCoordinateSequenceDouble) -> i32 {
    let mut n = 0;
    for i in 1..ring.size() {
        let s = seg_o(p, &C::new_xy(ring.get_ordinate(i, 0), ring.get_ordinate(i, 1)), &C::new_xy(ring.get_ordinate(i - 1, 0), ring.get_ordinate(i - 1, 1)));
        if s == 2 { return Location::BOUNDARY; }
        if s == 1 { n += 1; }
    }
    locate(false, n)
}
/// ring location wrappers agree with the counter; in-ring means not exterior
/// @opaque RayCrossingCounter::locate_point_in_ring_vec
pub fn c25_wrappers__impl(p: &C, ring: &Vec<C>) -> (i32, bool) { (PointLocation::locate_in_ring(p, ring), PointLocation::is_in_ring(p, ring)) }
pub fn c25_wrappers__spec(p: &C, ring: &Vec<C>) -> (i32, bool) { let l = RayCrossingCounter::locate_point_in_ring_vec(p, ring); (l, l != Location::EXTERIOR) }
fn on(p: &C, a: &C, b: &C) -> bool {
    p.x >= a.x.min(b.x) && p.x <= a.x.max(b.x) && p.y >= a.y.min(b.y) && p.y <= a.y.max(b.y) && cross(a, b, p) == 0.0
}
/// a point is on a segment exactly when collinear with it and within its extent
pub fn c25_on_segment__impl(p: &C, a: &C, b: &C) -> bool { PointLocation::is_on_segment(p, a, b) }
pub fn c25_on_segment__spec(p: &C, a: &C, b: &C) -> bool { on(p, a, b) }
/// a point is on a line when it is on one of its segments
/// @opaque PointLocation::is_on_segment
pub fn c25_on_line_vec__impl(p: &C, l: &Vec<C>) -> bool { PointLocation::is_on_line_coordinates(p, l) }
pub fn c25_on_line_vec__spec(p: &C, l: &Vec<C>) -> bool {
    for i in 1..l.len() { if PointLocation::is_on_segment(p, &l[i - 1], &l[i]) { return true; } }
    false
}
/// the same for a sequence
/// @opaque PointLocation::is_on_segment
pub fn c25_on_line_seq__impl(p: &C, l: &CoordinateArraySequence) -> bool { PointLocation::is_on_line_coordinate_array_sequence(p, l) }
pub fn c25_on_line_seq__spec(p: &C, l: &CoordinateArraySequence) -> bool {
    let at = |i| { let mut c = C::default(); l.get_coordinate_index_coordinate(i, &mut c); c };
    for i in 1..l.size() { if PointLocation::is_on_segment(p, &at(i - 1), &at(i)) { return true; } }
    false
}

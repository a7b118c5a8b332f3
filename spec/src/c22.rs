// C22: cached envelopes stay those of the coordinates.
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as A;
use crate::core::geom::line_string::LineString;
use crate::core::geom::linear_ring::LinearRing;
use crate::core::geom::multi_point::MultiPoint;
use crate::core::geom::point::Point;
use crate::core::geom::polygon::Polygon;
use crate::core::geom::precision_model::PrecisionModel;

type C = Coordinate;
fn hull(v: &Vec<C>) -> Envelope {
    let mut e = Envelope::default();
    let mut i = 0;
    while i < v.len() { e.expand_to_include_xy(v[i].x, v[i].y); i += 1; }
    e
}

/// the envelope of a line holds exactly its coordinates' extent
pub fn c22_line__impl(l: &LineString) -> Envelope { l.compute_envelope_internal() }
pub fn c22_line__spec(l: &LineString) -> Envelope { hull(&l.get_coordinates()) }
/// the envelope of a ring is that of its coordinates, asked for once or twice
pub fn c22_ring__impl(s: &A) -> (Envelope, Envelope) {
    let mut r = LinearRing::new_with_coordinate_array_sequence(s);
    let a = r.get_envelope_internal();
    (a, r.get_envelope_internal())
}
pub fn c22_ring__spec(s: &A) -> (Envelope, Envelope) { let e = hull(&s.to_coordinate_array()); (e, e) }
/// the envelope of a point is the point
pub fn c22_point__impl(c: &C) -> (Envelope, Envelope, Envelope) {
    let mut r = Point::new_with_coordinate(c, None);
    let a = r.get_envelope_internal();
    (a, r.get_envelope_internal(), r.reverse().get_envelope_internal())
}
pub fn c22_point__spec(c: &C) -> (Envelope, Envelope, Envelope) { let mut e = Envelope::default(); e.expand_to_include_xy(c.x, c.y); (e, e, e) }
/// the envelope of an empty point is null
pub fn c22_point_empty__impl() -> (bool, bool) { let mut p = Point::default(); (p.get_envelope_internal().is_null(), p.copy().get_envelope_internal().is_null()) }
pub fn c22_point_empty__spec() -> (bool, bool) { (true, true) }
/// a polygon's envelope is its shell's, whatever its holes, asked for once or twice
pub fn c22_poly__impl(s: &A, h: &Vec<LinearRing>) -> (Envelope, Envelope) {
    let mut p = Polygon::new_with_linear_ring_vec(&LinearRing::new_with_coordinate_array_sequence(s), h);
    let a = p.get_envelope_internal();
    (a, p.get_envelope_internal())
}
pub fn c22_poly__spec(s: &A, h: &Vec<LinearRing>) -> (Envelope, Envelope) { let e = hull(&s.to_coordinate_array()); (e, e) }
/// a polygon reversed after its envelope was asked for has the same envelope
pub fn c22_poly_reverse__impl(s: &A) -> Envelope {
    let mut p = Polygon::new_with_linear_ring(&LinearRing::new_with_coordinate_array_sequence(s));
    p.get_envelope_internal();
    p.reverse().get_envelope_internal()
}
pub fn c22_poly_reverse__spec(s: &A) -> Envelope { hull(&s.to_coordinate_array()) }
/// a ring reversed after its envelope was asked for has the same envelope
pub fn c22_ring_reverse__impl(s: &A) -> Envelope {
    let mut p = LinearRing::new_with_coordinate_array_sequence(s);
    p.get_envelope_internal();
    p.reverse().get_envelope_internal()
}
pub fn c22_ring_reverse__spec(s: &A) -> Envelope { hull(&s.to_coordinate_array()) }
/// copies made before or after the envelope was asked for have the same envelope
pub fn c22_copies__impl(s: &A) -> (Envelope, Envelope, Envelope, Envelope) {
    let mut r = LinearRing::new_with_coordinate_array_sequence(s);
    let a = r.copy().get_envelope_internal();
    r.get_envelope_internal();
    let mut p = Polygon::new_with_linear_ring(&r);
    let b = p.copy().get_envelope_internal();
    p.get_envelope_internal();
    (a, r.copy().get_envelope_internal(), b, p.copy().get_envelope_internal())
}
pub fn c22_copies__spec(s: &A) -> (Envelope, Envelope, Envelope, Envelope) { let e = hull(&s.to_coordinate_array()); (e, e, e, e) }
/// rings reversed before the envelope was asked for have the extent of the reversed coordinates
/// @opaque CoordinateArraySequences::reverse
pub fn c22_ring_reverse_fresh__impl(s: &A) -> Envelope {
    let p = LinearRing::new_with_coordinate_array_sequence(s);
    p.reverse().get_envelope_internal()
}
pub fn c22_ring_reverse_fresh__spec(s: &A) -> Envelope {
    let p = LinearRing::new_with_coordinate_array_sequence(s);
    hull(&p.reverse().get_coordinates())
}
/// a collection of points has the extent of its points, asked for once or twice, or reversed after
/// @opaque Point::get_envelope_internal, Envelope::expand_to_include_envelope
pub fn c22_mp__impl(v: &Vec<Point>) -> (Envelope, Envelope, Envelope) {
    let mut m = MultiPoint::new_with_points(v);
    let a = m.get_envelope_internal();
    (a, m.get_envelope_internal(), m.reverse().get_envelope_internal())
}
pub fn c22_mp__spec(v: &Vec<Point>) -> (Envelope, Envelope, Envelope) {
    let mut e = Envelope::default();
    let mut i = 0;
    while i < v.len() { e.expand_to_include_envelope(&v[i].clone().get_envelope_internal()); i += 1; }
    (e, e, e)
}

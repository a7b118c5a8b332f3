// C21: geometries: components, copies, reversals, equality, normal form.
use crate::core::algorithm::centroid::Centroid;
use crate::core::algorithm::orientation::Orientation;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::coordinate_array_sequences::CoordinateArraySequences as AU;
use crate::core::geom::coordinate_sequence_comparator::CoordinateSequenceComparator as Cmp;
use crate::core::geom::coordinates::Coordinates;
use crate::core::geom::geometry::Geometry;
use crate::core::geom::geometry_factory::GeometryFactory as F;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as A;
use crate::core::geom::line_string::LineString;
use crate::core::geom::linear_ring::LinearRing;
use crate::core::geom::multi_line_string::MultiLineString;
use crate::core::geom::multi_point::MultiPoint;
use crate::core::geom::multi_polygon::MultiPolygon;
use crate::core::geom::point::Point;
use crate::core::geom::polygon::Polygon;
use crate::core::geom::precision_model::PrecisionModel;

type C = Coordinate;
fn eq2(a: &C, b: &C) -> bool { a.x == b.x && a.y == b.y }
fn near(a: &C, b: &C, t: f64) -> bool { if t == 0.0 { eq2(a, b) } else { a.distance(b) <= t } }
fn cmp2(a: &C, b: &C) -> i32 { if a.x < b.x { -1 } else if a.x > b.x { 1 } else if a.y < b.y { -1 } else if a.y > b.y { 1 } else { 0 } }

fn amk(v: &Vec<C>) -> A { A::new_with_coordinates_dimension_measures(v.to_vec(), 4, 1) }
fn at(v: &Vec<C>, i: usize) -> C { if i < v.len() { v[i] } else { Coordinate::default() } }

/// a point built from a coordinate holds exactly that coordinate
pub fn c21_point_new__impl(c: &C) -> (Vec<C>, Option<C>, Option<f64>, Option<f64>, usize, bool) {
    let p = Point::new_with_coordinate(c, None);
    (p.get_coordinates(), p.get_coordinate(), p.get_x(), p.get_y(), p.get_num_points(), p.is_empty())
}
pub fn c21_point_new__spec(c: &C) -> (Vec<C>, Option<C>, Option<f64>, Option<f64>, usize, bool) { (vec![*c], Some(*c), Some(c.x), Some(c.y), 1, false) }
/// the empty point holds nothing
pub fn c21_point_empty__impl() -> (Vec<C>, Option<C>, Option<f64>, Option<f64>, usize, bool) {
    let p = F::create_point();
    (p.get_coordinates(), p.get_coordinate(), p.get_x(), p.get_y(), p.get_num_points(), p.is_empty())
}
pub fn c21_point_empty__spec() -> (Vec<C>, Option<C>, Option<f64>, Option<f64>, usize, bool) { (vec![], None, None, None, 0, true) }
/// copies and reversals of a point hold its coordinates, every ordinate
pub fn c21_point_copy__impl(p: &Point) -> (Vec<C>, Vec<C>, Vec<C>, i32) {
    (p.copy().get_coordinates(), p.reverse().get_coordinates(), p.copy().get_coordinate_sequence().to_coordinate_array(), p.copy().get_coordinate_sequence().get_dimension())
}
pub fn c21_point_copy__spec(p: &Point) -> (Vec<C>, Vec<C>, Vec<C>, i32) {
    (p.get_coordinates(), p.get_coordinates(), p.get_coordinate_sequence().to_coordinate_array(), p.get_coordinate_sequence().get_dimension())
}
/// points are equal within a tolerance when both are empty, or neither and their coordinates are that near
pub fn c21_point_equals__impl(p: &Point, q: &Point, t: f64) -> bool { p.equals_exact(q, t) }
pub fn c21_point_equals__spec(p: &Point, q: &Point, t: f64) -> bool {
    if p.is_empty() || q.is_empty() { return p.is_empty() && q.is_empty(); }
    near(&q.get_coordinate().unwrap(), &p.get_coordinate().unwrap(), t)
}
/// points compare as their sequences
/// @opaque CoordinateSequenceComparator::compare_coordinate_array_sequence
pub fn c21_point_compare__impl(p: &Point, q: &Point, k: &Cmp) -> i32 { p.compare_to_same_class(q, k) }
pub fn c21_point_compare__spec(p: &Point, q: &Point, k: &Cmp) -> i32 { k.compare_coordinate_array_sequence(&p.get_coordinate_sequence(), &q.get_coordinate_sequence()) }

/// a line has the coordinates of its sequence, in order
pub fn c21_line_parts__impl(s: &A, i: usize) -> (Vec<C>, usize, bool, C, Option<C>) {
    let l = LineString::new_from_coordinate_sequence(s.copy());
    (l.get_coordinates(), l.get_num_points(), l.is_empty(), if i < l.get_num_points() { l.get_coordinate_n(i) } else { Coordinate::default() }, l.get_coordinate())
}
pub fn c21_line_parts__spec(s: &A, i: usize) -> (Vec<C>, usize, bool, C, Option<C>) {
    let v = s.to_coordinate_array();
    (s.to_coordinate_array(), v.len(), v.len() == 0, at(&v, i), if v.len() == 0 { None } else { Some(v[0]) })
}
/// the points of a line are its coordinates; start and end are the first and the last, none when empty
pub fn c21_line_points__impl(l: &LineString, i: usize) -> (Option<C>, Option<C>, Option<C>, bool, bool) {
    let (s, e) = (l.get_start_point(), l.get_end_point());
    (if i < l.get_num_points() { l.get_point_n(i).get_coordinate() } else { None }, match &s { Some(p) => p.get_coordinate(), None => None }, match &e { Some(p) => p.get_coordinate(), None => None }, s.is_none(), e.is_none())
}
pub fn c21_line_points__spec(l: &LineString, i: usize) -> (Option<C>, Option<C>, Option<C>, bool, bool) {
    let v = l.get_coordinates();
    let n = v.len();
    if n == 0 { return (None, None, None, true, true); }
    (if i < n { Some(v[i]) } else { None }, Some(v[0]), Some(v[n - 1]), false, false)
}
/// a line is closed when not empty and its ends are equal in x and y; then it has no boundary
pub fn c21_line_closed__impl(l: &LineString) -> (bool, bool, i32) { (l.is_closed(), l.is_ring(), l.get_boundary_dimension()) }
pub fn c21_line_closed__spec(l: &LineString) -> (bool, bool, i32) {
    let v = l.get_coordinates();
    let c = v.len() > 0 && eq2(&v[0], &v[v.len() - 1]);
    (c, c, if c { -1 } else { 0 })
}
/// a reversed line holds the coordinates backwards, every ordinate, in the same layout
pub fn c21_line_reverse__impl(v: &Vec<C>, i: usize) -> (C, usize, i32, i32) {
    let r = LineString::new_from_coordinate_sequence(amk(v)).reverse();
    let s = r.get_coordinate_sequence();
    (if i < r.get_num_points() { r.get_coordinate_n(i) } else { Coordinate::default() }, r.get_num_points(), s.get_dimension(), s.get_measures())
}
pub fn c21_line_reverse__spec(v: &Vec<C>, i: usize) -> (C, usize, i32, i32) { (if i < v.len() { v[v.len() - 1 - i] } else { Coordinate::default() }, v.len(), 4, 1) }
/// copying a line keeps coordinates and layout
pub fn c21_line_copy__impl(l: &LineString) -> (Vec<C>, i32, i32) { let s = l.copy().get_coordinate_sequence(); (l.copy().get_coordinates(), s.get_dimension(), s.get_measures()) }
pub fn c21_line_copy__spec(l: &LineString) -> (Vec<C>, i32, i32) { let s = l.get_coordinate_sequence(); (l.get_coordinates(), s.get_dimension(), s.get_measures()) }
/// a coordinate is one of a line's when equal in x and y to one of them
pub fn c21_line_has__impl(l: &LineString, c: &C) -> bool { l.is_coordinate(c) }
pub fn c21_line_has__spec(l: &LineString, c: &C) -> bool {
    let v = l.get_coordinates();
    let mut i = 0;
    while i < v.len() { if eq2(&v[i], c) { return true; } i += 1; }
    false
}
/// lines are equal within a tolerance when as long and pairwise that near
pub fn c21_line_equals__impl(l: &LineString, m: &LineString, t: f64) -> bool { l.equals_exact(m, t) }
pub fn c21_line_equals__spec(l: &LineString, m: &LineString, t: f64) -> bool {
    let (v, w) = (l.get_coordinates(), m.get_coordinates());
    if v.len() != w.len() { return false; }
    for i in 0..v.len() { if !near(&v[i], &w[i], t) { return false; } }
    true
}
/// lines compare lexicographically, a proper prefix first
pub fn c21_line_compare__impl(l: &LineString, m: &LineString) -> i32 { l.compare_to(m) }
pub fn c21_line_compare__spec(l: &LineString, m: &LineString) -> i32 {
    let (v, w) = (l.get_coordinates(), m.get_coordinates());
    let mut i = 0;
    while i < v.len() && i < w.len() {
        let c = cmp2(&v[i], &w[i]);
        if c != 0 { return c; }
        i += 1;
    }
    if v.len() > w.len() { 1 } else if v.len() < w.len() { -1 } else { 0 }
}
/// lines compare under a comparator as their sequences
/// @opaque CoordinateSequenceComparator::compare_coordinate_array_sequence
pub fn c21_line_compare_by__impl(p: &LineString, q: &LineString, k: &Cmp) -> i32 { p.compare_to_with_comparator(q, k) }
pub fn c21_line_compare_by__spec(p: &LineString, q: &LineString, k: &Cmp) -> i32 { k.compare_coordinate_array_sequence(&p.get_coordinate_sequence(), &q.get_coordinate_sequence()) }
/// normalising a line turns it round exactly when its first asymmetric pair is in descending order
pub fn c21_line_normalize__impl(v: &Vec<C>, i: usize) -> (C, usize) {
    let mut l = LineString::new_from_coordinate_sequence(amk(v));
    l.normalize();
    (if i < v.len() { l.get_coordinate_n(i) } else { Coordinate::default() }, l.get_num_points())
}
pub fn c21_line_normalize__spec(v: &Vec<C>, i: usize) -> (C, usize) {
    let n = v.len();
    if i >= n { return (Coordinate::default(), n); }
    for k in 0..n / 2 {
        let j = n - 1 - k;
        if !eq2(&v[k], &v[j]) {
            return (if cmp2(&v[k], &v[j]) > 0 { v[n - 1 - i] } else { v[i] }, n);
        }
    }
    (v[i], n)
}
/// giving a line a new sequence replaces its coordinates
pub fn c21_line_init__impl(l: &mut LineString, s: &A) -> Vec<C> { l.init(s.copy()); l.get_coordinates() }
pub fn c21_line_init__spec(l: &mut LineString, s: &A) -> Vec<C> { s.to_coordinate_array() }
/// the length of a line is that of its sequence
/// @opaque Length::of_line
pub fn c21_line_length__impl(s: &A) -> (f64, f64) { (LineString::new_from_coordinate_sequence(s.copy()).get_length(), LinearRing::new_with_coordinate_array_sequence(s).get_length()) }
pub fn c21_line_length__spec(s: &A) -> (f64, f64) { let f = crate::core::algorithm::length::Length::of_line(&s.copy()); (f, f) }

/// a ring has the coordinates of its sequence; it is closed when empty or its ends are equal
pub fn c21_ring_parts__impl(s: &A, i: usize) -> (Vec<C>, usize, bool, C, Option<C>, bool) {
    let l = LinearRing::new_with_coordinate_array_sequence(s);
    (l.get_coordinates(), l.get_num_points(), l.is_empty(), if i < l.get_num_points() { l.get_coordinate_at_index(i) } else { Coordinate::default() }, l.get_coordinate(), l.is_closed())
}
pub fn c21_ring_parts__spec(s: &A, i: usize) -> (Vec<C>, usize, bool, C, Option<C>, bool) {
    let v = s.to_coordinate_array();
    (s.to_coordinate_array(), v.len(), v.len() == 0, at(&v, i), if v.len() == 0 { None } else { Some(v[0]) }, v.len() == 0 || eq2(&v[0], &v[v.len() - 1]))
}
/// a reversed ring holds the coordinates backwards, every ordinate, in the same layout
pub fn c21_ring_reverse__impl(v: &Vec<C>, i: usize) -> (C, usize, i32, i32) {
    let r = LinearRing::new_with_coordinate_array_sequence(&amk(v)).reverse();
    let s = r.get_coordinate_array_sequence();
    (if i < r.get_num_points() { r.get_coordinate_at_index(i) } else { Coordinate::default() }, r.get_num_points(), s.get_dimension(), s.get_measures())
}
pub fn c21_ring_reverse__spec(v: &Vec<C>, i: usize) -> (C, usize, i32, i32) { (if i < v.len() { v[v.len() - 1 - i] } else { Coordinate::default() }, v.len(), 4, 1) }
/// copying a ring keeps coordinates and layout
pub fn c21_ring_copy__impl(l: &LinearRing) -> (Vec<C>, i32, i32) { let s = l.copy().get_coordinate_array_sequence(); (l.copy().get_coordinates(), s.get_dimension(), s.get_measures()) }
pub fn c21_ring_copy__spec(l: &LinearRing) -> (Vec<C>, i32, i32) { let s = l.get_coordinate_array_sequence(); (l.get_coordinates(), s.get_dimension(), s.get_measures()) }
/// rings are equal within a tolerance when as long and pairwise that near
pub fn c21_ring_equals__impl(l: &LinearRing, m: &LinearRing, t: f64) -> bool { l.equals_exact(m, t) }
pub fn c21_ring_equals__spec(l: &LinearRing, m: &LinearRing, t: f64) -> bool {
    let (v, w) = (l.get_coordinates(), m.get_coordinates());
    if v.len() != w.len() { return false; }
    for i in 0..v.len() { if !near(&v[i], &w[i], t) { return false; } }
    true
}
/// rings compare lexicographically, a proper prefix first
pub fn c21_ring_compare__impl(l: &LinearRing, m: &LinearRing) -> i32 { l.compare_to_same_class(m) }
pub fn c21_ring_compare__spec(l: &LinearRing, m: &LinearRing) -> i32 {
    let (v, w) = (l.get_coordinates(), m.get_coordinates());
    let mut i = 0;
    while i < v.len() && i < w.len() {
        let c = cmp2(&v[i], &w[i]);
        if c != 0 { return c; }
        i += 1;
    }
    if v.len() > w.len() { 1 } else if v.len() < w.len() { -1 } else { 0 }
}
/// rings compare under a comparator as their sequences
/// @opaque CoordinateSequenceComparator::compare_coordinate_array_sequence
pub fn c21_ring_compare_by__impl(p: &LinearRing, q: &LinearRing, k: &Cmp) -> i32 { p.compare_to_same_class_with_comparator(q, k) }
pub fn c21_ring_compare_by__spec(p: &LinearRing, q: &LinearRing, k: &Cmp) -> i32 { k.compare_coordinate_array_sequence(&p.get_coordinate_array_sequence(), &q.get_coordinate_array_sequence()) }

/// a collection of points holds them in order; it is empty when each is
pub fn c21_mp_parts__impl(v: &Vec<Point>, i: usize) -> (usize, Option<C>, Option<C>, bool) {
    let m = MultiPoint::new_with_points(v);
    (m.get_num_points(), if i < v.len() { m.get_coordinate(i) } else { None }, match m.get_point_at_index(i) { Some(p) => p.get_coordinate(), None => None }, m.is_empty())
}
pub fn c21_mp_parts__spec(v: &Vec<Point>, i: usize) -> (usize, Option<C>, Option<C>, bool) {
    let mut e = true;
    let mut k = 0;
    while k < v.len() { if !v[k].is_empty() { e = false; break; } k += 1; }
    (v.len(), if i < v.len() { v[i].get_coordinate() } else { None }, if i < v.len() { v[i].get_coordinate() } else { None }, e)
}
/// copies and reversals of a collection of points keep its points in order and its precision model
pub fn c21_mp_copy__impl(v: &Vec<Point>, pm: PrecisionModel, i: usize) -> (usize, Option<C>, Option<PrecisionModel>, usize, Option<C>, Option<PrecisionModel>) {
    let m = MultiPoint::new_with_points_precision_model(v, pm);
    let (a, b) = (m.copy(), m.reverse());
    (a.get_num_points(), if i < v.len() { a.get_coordinate(i) } else { None }, a.get_precision_model(), b.get_num_points(), if i < v.len() { b.get_coordinate(i) } else { None }, b.get_precision_model())
}
pub fn c21_mp_copy__spec(v: &Vec<Point>, pm: PrecisionModel, i: usize) -> (usize, Option<C>, Option<PrecisionModel>, usize, Option<C>, Option<PrecisionModel>) {
    let c = if i < v.len() { v[i].get_coordinate() } else { None };
    (v.len(), c, Some(pm), v.len(), c, Some(pm))
}
/// collections of points are equal within a tolerance when as many and pairwise equal
/// @opaque Point::equals_exact
pub fn c21_mp_equals__impl(v: &Vec<Point>, w: &Vec<Point>, t: f64) -> bool { MultiPoint::new_with_points(v).equals_exact(MultiPoint::new_with_points(w), t) }
pub fn c21_mp_equals__spec(v: &Vec<Point>, w: &Vec<Point>, t: f64) -> bool {
    if v.len() != w.len() { return false; }
    for i in 0..v.len() { if !v[i].equals_exact(&w[i], t) { return false; } }
    true
}
/// the coordinates of a collection of points are those of its points in order, the empty ones left out
pub fn c21_mp_coords__impl(v: &Vec<Point>) -> Vec<C> { MultiPoint::new_with_points(v).get_coordinates() }
pub fn c21_mp_coords__spec(v: &Vec<Point>) -> Vec<C> {
    let mut r = vec![];
    let mut i = 0;
    while i < v.len() {
        if !v[i].is_empty() { r.push(v[i].get_coordinate().unwrap()); }
        i += 1;
    }
    r
}
/// a collection of points made from coordinates has one point for each
pub fn c21_mp_from__impl(v: &Vec<C>, i: usize) -> (usize, Option<C>) { let m = F::create_multi_point_from_coordinate_array_sequence(&amk(v)); (m.get_num_points(), if i < v.len() { m.get_coordinate(i) } else { None }) }
pub fn c21_mp_from__spec(v: &Vec<C>, i: usize) -> (usize, Option<C>) { (v.len(), if i < v.len() { Some(v[i]) } else { None }) }

/// a collection of lines is empty when each is, and closed when not empty and each is closed; then it has no boundary
/// @opaque LineString::is_closed
pub fn c21_ml_parts__impl(v: &Vec<LineString>) -> (bool, bool, i32) { let m = MultiLineString::new_with_line_strings(v); (m.is_empty(), m.is_closed(), m.get_boundary_dimension()) }
pub fn c21_ml_parts__spec(v: &Vec<LineString>) -> (bool, bool, i32) {
    let mut e = true;
    let mut k = 0;
    while k < v.len() { if !v[k].is_empty() { e = false; break; } k += 1; }
    let mut c = true;
    let mut k = 0;
    while k < v.len() { if !v[k].is_closed() { c = false; break; } k += 1; }
    (e, !e && c, if !e && c { -1 } else { 0 })
}
/// collections of lines are equal within a tolerance when as many and pairwise equal
/// @opaque LineString::equals_exact
pub fn c21_ml_equals__impl(v: &Vec<LineString>, w: &Vec<LineString>, t: f64) -> bool { MultiLineString::new_with_line_strings(v).equals_exact(&MultiLineString::new_with_line_strings(w), t) }
pub fn c21_ml_equals__spec(v: &Vec<LineString>, w: &Vec<LineString>, t: f64) -> bool {
    if v.len() != w.len() { return false; }
    for i in 0..v.len() { if !v[i].equals_exact(&w[i], t) { return false; } }
    true
}
/// a copied collection of lines equals those of copies; a reversed one those of reversed lines, in the same order
/// @opaque LineString::equals_exact
pub fn c21_ml_reverse__impl(v: &Vec<LineString>, w: &MultiLineString, t: f64) -> (bool, bool) { let m = MultiLineString::new_with_line_strings(v); (m.reverse().equals_exact(w, t), m.copy_internal().equals_exact(w, t)) }
pub fn c21_ml_reverse__spec(v: &Vec<LineString>, w: &MultiLineString, t: f64) -> (bool, bool) {
    let mut r = vec![];
    for l in v.iter() { r.push(l.reverse()); }
    let mut s = vec![];
    for l in v.iter() { s.push(l.copy()); }
    (MultiLineString::new_with_line_strings(&r).equals_exact(w, t), MultiLineString::new_with_line_strings(&s).equals_exact(w, t))
}

/// a polygon has the rings it was built from; it is empty when its shell is
pub fn c21_poly_parts__impl(s: &LinearRing, h: &Vec<LinearRing>, i: usize) -> (Vec<C>, usize, Vec<C>, bool, Option<C>) {
    let p = Polygon::new_with_linear_ring_vec(s, h);
    (p.get_exterior_ring().get_coordinates(), p.get_num_interior_ring(), if i < h.len() { p.get_interior_ring_n(i).get_coordinates() } else { vec![] }, p.is_empty(), p.get_coordinate())
}
pub fn c21_poly_parts__spec(s: &LinearRing, h: &Vec<LinearRing>, i: usize) -> (Vec<C>, usize, Vec<C>, bool, Option<C>) {
    let v = s.get_coordinates();
    (s.get_coordinates(), h.len(), if i < h.len() { h[i].get_coordinates() } else { vec![] }, v.len() == 0, if v.len() == 0 { None } else { Some(v[0]) })
}
/// the coordinates of a polygon are those of its shell, then of its hole
pub fn c21_poly_coords1__impl(s: &LinearRing, h: &LinearRing) -> Vec<C> { Polygon::new_with_linear_ring_vec(s, &vec![h.copy()]).get_coordinates() }
pub fn c21_poly_coords1__spec(s: &LinearRing, h: &LinearRing) -> Vec<C> {
    let mut r = s.get_coordinates();
    if r.len() == 0 { return r; }
    for c in h.get_coordinates().iter() { r.push(*c); }
    r
}
/// the coordinates of a polygon are those of its shell, then of its holes in order
pub fn c21_poly_coords2__impl(s: &LinearRing, h: &LinearRing, g: &LinearRing) -> Vec<C> { Polygon::new_with_linear_ring_vec(s, &vec![h.copy(), g.copy()]).get_coordinates() }
pub fn c21_poly_coords2__spec(s: &LinearRing, h: &LinearRing, g: &LinearRing) -> Vec<C> {
    let mut r = s.get_coordinates();
    if r.len() == 0 { return r; }
    for c in h.get_coordinates().iter() { r.push(*c); }
    for c in g.get_coordinates().iter() { r.push(*c); }
    r
}
/// the number of points of a polygon is the sum over its rings
pub fn c21_poly_num__impl(p: &Polygon) -> usize { p.get_num_points() }
pub fn c21_poly_num__spec(p: &Polygon) -> usize {
    let mut n = p.get_exterior_ring().get_num_points();
    for i in 0..p.get_num_interior_ring() { n += p.get_interior_ring_n(i).get_num_points(); }
    n
}
/// a copied polygon has the same rings
pub fn c21_poly_copy__impl(p: &Polygon, i: usize) -> (Vec<C>, usize, Vec<C>) {
    let q = p.copy();
    (q.get_exterior_ring().get_coordinates(), q.get_num_interior_ring(), if i < q.get_num_interior_ring() { q.get_interior_ring_n(i).get_coordinates() } else { vec![] })
}
pub fn c21_poly_copy__spec(p: &Polygon, i: usize) -> (Vec<C>, usize, Vec<C>) {
    (p.get_exterior_ring().get_coordinates(), p.get_num_interior_ring(), if i < p.get_num_interior_ring() { p.get_interior_ring_n(i).get_coordinates() } else { vec![] })
}
/// a reversed polygon has each ring reversed, shell and holes in place
/// @opaque LinearRing::reverse
pub fn c21_poly_reverse__impl(p: &Polygon, i: usize) -> (usize, Vec<C>, Vec<C>) {
    let q = p.reverse();
    let n = q.get_num_interior_ring();
    (n, q.get_exterior_ring().get_coordinates(), if i < n { q.get_interior_ring_n(i).get_coordinates() } else { vec![] })
}
pub fn c21_poly_reverse__spec(p: &Polygon, i: usize) -> (usize, Vec<C>, Vec<C>) {
    let n = p.get_num_interior_ring();
    (n, p.get_exterior_ring().reverse().copy().get_coordinates(), if i < n { p.get_interior_ring_n(i).reverse().copy().get_coordinates() } else { vec![] })
}
/// polygons are equal within a tolerance when their shells are, and they have as many holes, pairwise equal
/// @opaque LinearRing::equals_exact
pub fn c21_poly_equals__impl(s: &LinearRing, h: &Vec<LinearRing>, r: &LinearRing, g: &Vec<LinearRing>, t: f64) -> bool { Polygon::new_with_linear_ring_vec(s, h).equals_exact(&Polygon::new_with_linear_ring_vec(r, g), t) }
pub fn c21_poly_equals__spec(s: &LinearRing, h: &Vec<LinearRing>, r: &LinearRing, g: &Vec<LinearRing>, t: f64) -> bool {
    if !s.copy().equals_exact(&r.copy(), t) { return false; }
    if h.len() != g.len() { return false; }
    for i in 0..h.len() { if !h[i].equals_exact(&g[i], t) { return false; } }
    true
}
/// polygons compare by shell, then hole by hole, fewer holes first
/// @opaque LinearRing::compare_to_same_class
pub fn c21_poly_compare__impl(p: &Polygon, q: &Polygon) -> i32 { p.compare_to(q) }
pub fn c21_poly_compare__spec(p: &Polygon, q: &Polygon) -> i32 {
    let c = p.get_exterior_ring().compare_to_same_class(&q.get_exterior_ring());
    if c != 0 { return c; }
    let (m, n) = (p.get_num_interior_ring(), q.get_num_interior_ring());
    let mut i = 0;
    while i < m && i < n {
        let c = p.get_interior_ring_n(i).compare_to_same_class(&q.get_interior_ring_n(i));
        if c != 0 { return c; }
        i += 1;
    }
    if m > n { 1 } else if m < n { -1 } else { 0 }
}
/// polygons compare under a comparator by shell, then hole by hole, fewer holes first
/// @opaque LinearRing::compare_to_same_class_with_comparator
pub fn c21_poly_compare_by__impl(p: &Polygon, q: &Polygon, k: &Cmp) -> i32 { p.compare_to_with_comparator(q, k) }
pub fn c21_poly_compare_by__spec(p: &Polygon, q: &Polygon, k: &Cmp) -> i32 {
    let c = p.get_exterior_ring().compare_to_same_class_with_comparator(&q.get_exterior_ring(), k);
    if c != 0 { return c; }
    let (m, n) = (p.get_num_interior_ring(), q.get_num_interior_ring());
    let mut i = 0;
    while i < m && i < n {
        let c = p.get_interior_ring_n(i).compare_to_same_class_with_comparator(&q.get_interior_ring_n(i), k);
        if c != 0 { return c; }
        i += 1;
    }
    if m > n { 1 } else if m < n { -1 } else { 0 }
}
/// a normalised ring starts at its least coordinate and has the stated orientation
/// @opaque CoordinateArraySequences::min_coordinate_index_sequence_from_to, CoordinateArraySequences::scroll_coordinate_index_ensure_ring, CoordinateArraySequences::reverse, Orientation::is_ccw_coordinate_array_sequence
pub fn c21_ring_normalize__impl(r: &LinearRing, cw: bool) -> Vec<C> {
    if r.get_num_points() < 4 { return vec![]; }
    let mut q = r.copy();
    Polygon::normalize(&mut q, cw);
    q.get_coordinates()
}
pub fn c21_ring_normalize__spec(r: &LinearRing, cw: bool) -> Vec<C> {
    if r.get_num_points() < 4 { return vec![]; }
    let mut s = r.get_coordinate_array_sequence();
    let n = s.size();
    let k = AU::min_coordinate_index_sequence_from_to(&s, 0, n - 2);
    AU::scroll_coordinate_index_ensure_ring(&mut s, k, true);
    if Orientation::is_ccw_coordinate_array_sequence(&s) == cw { AU::reverse(&mut s); }
    s.to_coordinate_array()
}
/// the coordinates of a polygon are those of its shell then of its holes in order, none when empty
pub fn c21_poly_coords__impl(s: &LinearRing) -> Vec<C> { Polygon::new_with_linear_ring(s).get_coordinates() }
pub fn c21_poly_coords__spec(s: &LinearRing) -> Vec<C> { s.get_coordinates() }
/// a polygon is a rectangle when without holes, of five points, all in the corners of its envelope, each step along one axis
pub fn c21_poly_rect__impl(s: &LinearRing) -> bool { Polygon::new_with_linear_ring(s).is_rectangle() }
pub fn c21_poly_rect__spec(s: &LinearRing) -> bool {
    if s.get_num_points() != 5 { return false; }
    let (a, b, c, d, e) = (s.get_coordinate_at_index(0), s.get_coordinate_at_index(1), s.get_coordinate_at_index(2), s.get_coordinate_at_index(3), s.get_coordinate_at_index(4));
    let env = s.compute_envelope_internal();
    let corner = |p: &C| (p.x == env.get_min_x() || p.x == env.get_max_x()) && (p.y == env.get_min_y() || p.y == env.get_max_y());
    let step = |p: &C, q: &C| (p.x != q.x) != (p.y != q.y);
    corner(&a) && corner(&b) && corner(&c) && corner(&d) && corner(&e) && step(&a, &b) && step(&b, &c) && step(&c, &d) && step(&d, &e)
}
/// a collection of polygons holds them in order; it is empty when each is
pub fn c21_mpoly_parts__impl(v: &Vec<Polygon>, i: usize) -> (usize, bool, Vec<C>) {
    let m = MultiPolygon::new_with_polygons(v);
    (m.get_num_polygons(), m.is_empty(), if i < v.len() { m.get_polygon_at_index(i).get_exterior_ring().get_coordinates() } else { vec![] })
}
pub fn c21_mpoly_parts__spec(v: &Vec<Polygon>, i: usize) -> (usize, bool, Vec<C>) {
    let mut e = true;
    let mut k = 0;
    while k < v.len() { if !v[k].is_empty() { e = false; break; } k += 1; }
    (v.len(), e, if i < v.len() { v[i].get_exterior_ring().get_coordinates() } else { vec![] })
}
/// collections of polygons are equal within a tolerance when as many and pairwise equal
/// @opaque Polygon::equals_exact
pub fn c21_mpoly_equals__impl(v: &Vec<Polygon>, w: &Vec<Polygon>, t: f64) -> bool { MultiPolygon::new_with_polygons(v).equals_exact(MultiPolygon::new_with_polygons(w), t) }
pub fn c21_mpoly_equals__spec(v: &Vec<Polygon>, w: &Vec<Polygon>, t: f64) -> bool {
    if v.len() != w.len() { return false; }
    for i in 0..v.len() { if !v[i].equals_exact(&w[i], t) { return false; } }
    true
}
/// copies of a collection of polygons are of each polygon, reversals of each reversed, in the same order
/// @opaque Polygon::reverse, Polygon::copy
pub fn c21_mpoly_copy__impl(v: &Vec<Polygon>, i: usize) -> (usize, usize, Vec<C>, Vec<C>) {
    let m = MultiPolygon::new_with_polygons(v);
    let (a, b) = (m.copy(), m.reverse());
    if i >= v.len() { return (a.get_num_polygons(), b.get_num_polygons(), vec![], vec![]); }
    (a.get_num_polygons(), b.get_num_polygons(), a.get_polygon_at_index(i).get_exterior_ring().get_coordinates(), b.get_polygon_at_index(i).get_exterior_ring().get_coordinates())
}
pub fn c21_mpoly_copy__spec(v: &Vec<Polygon>, i: usize) -> (usize, usize, Vec<C>, Vec<C>) {
    if i >= v.len() { return (v.len(), v.len(), vec![], vec![]); }
    (v.len(), v.len(), v[i].copy().copy().get_exterior_ring().get_coordinates(), v[i].reverse().copy().get_exterior_ring().get_coordinates())
}
/// the area of a polygon is the area of its shell less those of its holes, of a collection the sum
/// @opaque Area::of_ring_coordinate_sequence
pub fn c21_poly_area__impl(p: &Polygon) -> f64 { p.get_area() }
pub fn c21_poly_area__spec(p: &Polygon) -> f64 {
    use crate::core::algorithm::area::Area;
    let mut a = Area::of_ring_coordinate_sequence(&p.get_exterior_ring().get_coordinate_array_sequence());
    for i in 0..p.get_num_interior_ring() { a -= Area::of_ring_coordinate_sequence(&p.get_interior_ring_n(i).get_coordinate_array_sequence()); }
    a
}
/// the area of a collection of polygons is the sum of theirs
/// @opaque Polygon::get_area
pub fn c21_mpoly_area__impl(v: &Vec<Polygon>) -> f64 { MultiPolygon::new_with_polygons(v).get_area() }
pub fn c21_mpoly_area__spec(v: &Vec<Polygon>) -> f64 { let mut a = 0.0; for p in v.iter() { a += p.get_area(); } a }
/// the length of a polygon is the sum over its rings
/// @opaque Length::of_line
pub fn c21_poly_length__impl(p: &Polygon) -> f64 { p.get_length() }
pub fn c21_poly_length__spec(p: &Polygon) -> f64 {
    let mut a = p.get_exterior_ring().get_length();
    for i in 0..p.get_num_interior_ring() { a += p.get_interior_ring_n(i).get_length(); }
    a
}
/// dimensions and type codes are fixed per kind
pub fn c21_kinds__impl(p: &Polygon, l: &LineString, r: &LinearRing, mp: &MultiPoint, ml: &MultiLineString, mg: &MultiPolygon, d: i32) -> (i32, i32, i32, i32, i32, i32, i32, i32, (bool, bool, bool), (i32, i32, i32, i32), (i32, i32, i32, i32, i32, i32, i32)) {
    (Point::get_dimension(), l.get_dimension(), p.get_dimension(), mp.get_dimension(), ml.get_dimension(), mg.get_dimension(), Point::get_boundary_dimension(), r.get_boundary_dimension(),
     (mp.has_dimension(d), ml.has_dimension(d), mg.has_dimension(d)), (p.get_boundary_dimension(), mp.get_boundary_dimension(), mg.get_boundary_dimension(), 0),
     (Point::get_type_code(), MultiPoint::get_type_code(), LineString::get_type_code(), r.get_type_code(), MultiLineString::get_type_code(), Polygon::get_type_code(), mg.get_type_code()))
}
pub fn c21_kinds__spec(p: &Polygon, l: &LineString, r: &LinearRing, mp: &MultiPoint, ml: &MultiLineString, mg: &MultiPolygon, d: i32) -> (i32, i32, i32, i32, i32, i32, i32, i32, (bool, bool, bool), (i32, i32, i32, i32), (i32, i32, i32, i32, i32, i32, i32)) {
    (0, 1, 2, 0, 1, 2, -1, -1, (d == 0, d == 1, d == 2), (1, -1, 1, 0), (0, 1, 2, 3, 4, 5, 6))
}
/// the factory builds what the constructors build
pub fn c21_factory__impl(v: &Vec<C>, c: &C, i: usize) -> (usize, usize, usize, Option<C>, C, C, C) {
    let (l, r, p) = (F::create_line_string_coordinates(v), F::create_linear_ring_with_coordinates(v), F::create_polygon_with_coordinates(v));
    (l.get_num_points(), r.get_num_points(), p.get_num_points(), F::create_point_from_coordinate(c).get_coordinate(), if i < v.len() { l.get_coordinate_n(i) } else { Coordinate::default() }, if i < v.len() { r.get_coordinate_at_index(i) } else { Coordinate::default() }, if i < v.len() { p.get_exterior_ring().get_coordinate_at_index(i) } else { Coordinate::default() })
}
pub fn c21_factory__spec(v: &Vec<C>, c: &C, i: usize) -> (usize, usize, usize, Option<C>, C, C, C) { (v.len(), v.len(), v.len(), Some(*c), at(v, i), at(v, i), at(v, i)) }
/// empty geometries from the factory hold nothing
pub fn c21_factory_empty__impl() -> (bool, bool, bool) { (F::create_point().is_empty(), F::create_line_string().is_empty(), F::create_linear_ring().is_empty()) }
pub fn c21_factory_empty__spec() -> (bool, bool, bool) { (true, true, true) }
/// a box walked from a corner is a rectangle, with a hole it is not, nor is one with a moved corner
pub fn c21_rect_box__impl(x: f64, y: f64, w: f64, h: f64, dx: f64) -> [bool; 4] {
    if w <= 0.0 || h <= 0.0 || dx == 0.0 || dx == w || dx == -w { return [true, true, false, false]; }
    let (a, b, c, d) = (C::new_xy(x, y), C::new_xy(x + w, y), C::new_xy(x + w, y + h), C::new_xy(x, y + h));
    let r = LinearRing::new_with_coordinate_array_sequence(&amk(&vec![a, b, c, d, a]));
    let q = LinearRing::new_with_coordinate_array_sequence(&amk(&vec![c, b, a, d, c]));
    let m = LinearRing::new_with_coordinate_array_sequence(&amk(&vec![a, C::new_xy(x + w + dx, y), c, d, a]));
    [Polygon::new_with_linear_ring(&r).is_rectangle(), Polygon::new_with_linear_ring(&q).is_rectangle(),
     Polygon::new_with_linear_ring_vec(&r, &vec![m.copy()]).is_rectangle(), Polygon::new_with_linear_ring(&m).is_rectangle()]
}
pub fn c21_rect_box__spec(x: f64, y: f64, w: f64, h: f64, dx: f64) -> [bool; 4] { [true, true, false, false] }
/// every kind of geometry names its type
pub fn c21_types__impl(v: &Vec<C>) -> ([String; 6], &'static str, bool) {
    ([LineString::new_from_coordinate_sequence(amk(v)).get_geometry_type(), LinearRing::new_with_coordinates(v).get_geometry_type(), Polygon::new_with_linear_ring(&LinearRing::new_with_coordinates(v)).get_geometry_type(),
      MultiPoint::new_with_points(&vec![]).get_geometry_type(), MultiLineString::new_with_line_strings(&vec![]).get_geometry_type(), MultiPolygon::new_with_polygons(&vec![]).get_geometry_type()],
     Point::default().get_geometry_type(), Point::default().is_simple())
}
pub fn c21_types__spec(v: &Vec<C>) -> ([String; 6], &'static str, bool) {
    (["LineString".to_string(), "LinearRing".to_string(), "Polygon".to_string(), "MultiPoint".to_string(), "MultiLineString".to_string(), "MultiPolygon".to_string()], "Point", true)
}
/// a ring of coordinates holds them, and a polygon of a sequence has the ring of the sequence for shell
pub fn c21_ring_of__impl(v: &Vec<C>, i: usize) -> (usize, C, usize, C, usize) {
    let r = LinearRing::new_with_coordinates(v);
    let p = F::create_polygon_with_coordinate_array_sequence(&amk(v));
    (r.get_num_points(), if i < v.len() { r.get_coordinate_at_index(i) } else { Coordinate::default() }, p.get_exterior_ring().get_num_points(),
     if i < v.len() { p.get_exterior_ring().get_coordinate_at_index(i) } else { Coordinate::default() }, p.get_num_interior_ring())
}
pub fn c21_ring_of__spec(v: &Vec<C>, i: usize) -> (usize, C, usize, C, usize) { (v.len(), at(v, i), v.len(), at(v, i), 0) }
/// collections made by the factory have the parts given
/// @opaque GeometryFactory::create_multi_point_from_coordinate_array_sequence
pub fn c21_factory_many__impl(v: &Vec<C>, ps: &Vec<Polygon>) -> (usize, usize) { (F::create_multi_point_with_coordinates(v).get_num_points(), F::create_multi_polygon(ps).get_num_polygons()) }
pub fn c21_factory_many__spec(v: &Vec<C>, ps: &Vec<Polygon>) -> (usize, usize) { (F::create_multi_point_from_coordinate_array_sequence(&A::new_with_coordinates(v)).get_num_points(), ps.len()) }
/// the centroid of a polygon is the point of its areal centroid, rounded by the polygon's precision model; none for an empty one
/// @opaque Centroid::get_centroid_from_polygon, PrecisionModel::make_precise
pub fn c21_poly_centroid__impl(v: &Vec<C>, h: &Vec<LinearRing>, pm: PrecisionModel) -> (Option<(f64, f64)>, Option<(f64, f64)>) {
    let r = LinearRing::new_with_coordinate_array_sequence(&amk(v));
    let (p, q) = (Polygon::new_with_linear_ring_vec_precision_model(&r, h, pm), Polygon::new_with_linear_ring_vec(&r, h));
    (pxy(&p.get_centroid()), pxy(&q.get_centroid()))
}
fn pxy(p: &Point) -> Option<(f64, f64)> { match p.get_coordinate() { Some(c) => Some((c.x, c.y)), None => None } }
pub fn c21_poly_centroid__spec(v: &Vec<C>, h: &Vec<LinearRing>, pm: PrecisionModel) -> (Option<(f64, f64)>, Option<(f64, f64)>) {
    if v.len() == 0 { return (None, None); }
    let r = LinearRing::new_with_coordinate_array_sequence(&amk(v));
    let a = match Centroid::get_centroid_from_polygon(&Polygon::new_with_linear_ring_vec_precision_model(&r, h, pm)) {
        Some(c) => { let (mut c, mut m) = (c, pm); m.make_precise_coordinate(&mut c); Some((c.x, c.y)) }
        None => None };
    let b = match Centroid::get_centroid_from_polygon(&Polygon::new_with_linear_ring_vec(&r, h)) { Some(c) => Some((c.x, c.y)), None => None };
    (a, b)
}
/// the centroid of a collection of polygons is the point of their areal centroid, rounded by the collection's precision model
/// @opaque Centroid::get_centroid_from_multi_polygon, PrecisionModel::make_precise
pub fn c21_multi_centroid__impl(ps: &Vec<Polygon>, pm: PrecisionModel) -> (Option<(f64, f64)>, Option<(f64, f64)>) {
    (pxy(&MultiPolygon::new_with_polygons_precision_model(ps, pm).get_centroid()), pxy(&MultiPolygon::new_with_polygons(ps).get_centroid()))
}
pub fn c21_multi_centroid__spec(ps: &Vec<Polygon>, pm: PrecisionModel) -> (Option<(f64, f64)>, Option<(f64, f64)>) {
    let (p, q) = (MultiPolygon::new_with_polygons_precision_model(ps, pm), MultiPolygon::new_with_polygons(ps));
    if q.is_empty() { return (None, None); }
    let a = match Centroid::get_centroid_from_multi_polygon(&p) { Some(c) => { let (mut c, mut m) = (c, pm); m.make_precise_coordinate(&mut c); Some((c.x, c.y)) } None => None };
    let b = match Centroid::get_centroid_from_multi_polygon(&q) { Some(c) => Some((c.x, c.y)), None => None };
    (a, b)
}
/// copies of polygons and of collections keep the precision model their centroids are rounded by
/// @opaque Centroid::get_centroid_from_polygon, Centroid::get_centroid_from_multi_polygon, PrecisionModel::make_precise
pub fn c21_copy_rounds__law(v: &Vec<C>, pm: PrecisionModel) -> bool {
    let p = Polygon::new_with_linear_ring_precision_model(&LinearRing::new_with_coordinate_array_sequence(&amk(v)), pm);
    pxy(&p.copy().get_centroid()) == pxy(&p.get_centroid())
}
/// normalising a polygon puts its shell clockwise and every hole counterclockwise, each in its normal form, keeping their number
/// @opaque Polygon::normalize, CoordinateArraySequences::min_coordinate_index_sequence_from_to, CoordinateArraySequences::scroll_coordinate_index_ensure_ring, CoordinateArraySequences::reverse, Orientation::is_ccw_coordinate_array_sequence
pub fn c21_poly_self_normalize0__impl(s: &LinearRing) -> (Vec<C>, usize) {
    let mut p = Polygon::new_with_linear_ring(s);
    p.self_normalize();
    (p.get_exterior_ring().get_coordinates(), p.get_num_interior_ring())
}
pub fn c21_poly_self_normalize0__spec(s: &LinearRing) -> (Vec<C>, usize) {
    let mut r = s.copy();
    Polygon::normalize(&mut r, true);
    (r.get_coordinates(), 0)
}
/// @opaque Polygon::normalize, CoordinateArraySequences::min_coordinate_index_sequence_from_to, CoordinateArraySequences::scroll_coordinate_index_ensure_ring, CoordinateArraySequences::reverse, Orientation::is_ccw_coordinate_array_sequence
pub fn c21_poly_self_normalize__impl(s: &LinearRing, h: &LinearRing) -> (Vec<C>, Vec<C>, usize) {
    let mut p = Polygon::new_with_linear_ring_vec(s, &vec![h.clone()]);
    p.self_normalize();
    (p.get_exterior_ring().get_coordinates(), p.get_interior_ring_n(0).get_coordinates(), p.get_num_interior_ring())
}
pub fn c21_poly_self_normalize__spec(s: &LinearRing, h: &LinearRing) -> (Vec<C>, Vec<C>, usize) {
    let (mut r, mut q) = (s.copy(), h.copy());
    Polygon::normalize(&mut r, true);
    Polygon::normalize(&mut q, false);
    (r.get_coordinates(), q.get_coordinates(), 1)
}
/// the normal form of a ring leaves the ring itself alone
/// @opaque Polygon::normalize, CoordinateArraySequences::min_coordinate_index_sequence_from_to, CoordinateArraySequences::scroll_coordinate_index_ensure_ring, CoordinateArraySequences::reverse, Orientation::is_ccw_coordinate_array_sequence
pub fn c21_poly_normalized__impl(s: &LinearRing, r: &LinearRing, cw: bool) -> Vec<C> { Polygon::new_with_linear_ring(s).normalized(r, cw).get_coordinates() }
pub fn c21_poly_normalized__spec(_s: &LinearRing, r: &LinearRing, cw: bool) -> Vec<C> { let mut q = r.copy(); Polygon::normalize(&mut q, cw); q.get_coordinates() }
/// a collection of lines built with a precision model has that model and holds the lines
pub fn c21_mline_pm__impl(v: &Vec<LineString>, pm: &PrecisionModel, t: f64) -> (bool, bool, bool) {
    let m = MultiLineString::new_with_line_strings_precision_model(v, *pm);
    (m.is_empty(), m.is_closed(), m.equals_exact(&MultiLineString::new_with_line_strings(v), t))
}
pub fn c21_mline_pm__spec(v: &Vec<LineString>, _pm: &PrecisionModel, t: f64) -> (bool, bool, bool) {
    let m = MultiLineString::new_with_line_strings(v);
    (m.is_empty(), m.is_closed(), m.equals_exact(&m, t))
}

// C19: coordinate sequences: access, copies, transforms.
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::coordinates::Coordinates;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::coordinate_array_sequences::CoordinateArraySequences as AU;
use crate::core::geom::packed_coordinate_sequences::PackedCoordinateSequences as PU;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as A;
use crate::core::geom::implementation::coordinate_array_sequence_factory::CoordinateArraySequenceFactory as AF;
use crate::core::geom::implementation::packed_coordinate_sequence_double::PackedCoordinateSequenceDouble as P;
use crate::core::geom::implementation::packed_coordinate_sequence_factory::PackedCoordinateSequenceFactory as PF;
use crate::core::geom::implementation::packed_coordinate_sequence::PackedCoordinateSequence as PS;

type C = Coordinate;
fn ord(c: &C, d: i32, m: i32, k: i32) -> f64 {
    if k == 0 { return c.x; }
    if k == 1 { return c.y; }
    if m > 0 && k == d - m { return c.m; }
    if k == 2 { c.z } else { f64::NAN }
}

/// ordinates are addressed by index: x, y, then z, the measure last
pub fn c19_a_get__impl(v: &Vec<C>, d: i32, m: i32, i: usize, k: i32) -> (f64, i32, i32, usize) {
    let s = A::new_with_coordinates_dimension_measures(v.to_vec(), d, m);
    (s.get_ordinate(i, k), s.get_dimension(), s.get_measures(), s.size())
}
pub fn c19_a_get__spec(v: &Vec<C>, d: i32, m: i32, i: usize, k: i32) -> (f64, i32, i32, usize) { (ord(&v[i], d, m, k), d, m, v.len()) }
/// named accessors give the ordinate when the layout has it
pub fn c19_a_named__impl(v: &Vec<C>, d: i32, m: i32, i: usize) -> (f64, f64, f64, f64, bool, bool) {
    let s = A::new_with_coordinates_dimension_measures(v.to_vec(), d, m);
    (s.get_x(i), s.get_y(i), s.get_z(i), s.get_m(i), s.has_z(), s.has_m())
}
pub fn c19_a_named__spec(v: &Vec<C>, d: i32, m: i32, i: usize) -> (f64, f64, f64, f64, bool, bool) {
    (v[i].x, v[i].y, if d - m > 2 { v[i].z } else { f64::NAN }, if m > 0 { v[i].m } else { f64::NAN }, d - m > 2, m > 0)
}
/// setting an ordinate changes that ordinate of that coordinate only
pub fn c19_a_set__impl(v: &Vec<C>, d: i32, m: i32, i: usize, k: i32, w: f64, j: usize, l: i32) -> f64 {
    if k < 0 || l < 0 || k >= d || l >= d || d > 4 || m < 0 || m > 1 || d - m > 3 || d - m < 2 { return 0.0; }
    let mut s = A::new_with_coordinates_dimension_measures(v.to_vec(), d, m);
    s.set_ordinate(i, k, w);
    s.get_ordinate(j, l)
}
pub fn c19_a_set__spec(v: &Vec<C>, d: i32, m: i32, i: usize, k: i32, w: f64, j: usize, l: i32) -> f64 {
    if k < 0 || l < 0 || k >= d || l >= d || d > 4 || m < 0 || m > 1 || d - m > 3 || d - m < 2 { return 0.0; }
    if i == j && k == l { w } else { ord(&v[j], d, m, l) }
}
/// a sequence built from coordinates takes the largest dimension and measure count among them
pub fn c19_a_from__impl(v: &Vec<C>, i: usize) -> (i32, i32, usize, C, C) {
    let s = A::new_with_coordinates(v);
    (s.get_dimension(), s.get_measures(), s.size(), s.get_coordinate_index(i), s.get_coordinate_copy(i))
}
pub fn c19_a_from__spec(v: &Vec<C>, i: usize) -> (i32, i32, usize, C, C) {
    let (mut d, mut m) = (0, 0);
    let mut k = 0;
    while k < v.len() {
        let e = Coordinates::dimension(&v[k]);
        if e > d { d = e; }
        let e = Coordinates::measures(&v[k]);
        if e > m { m = e; }
        k += 1;
    }
    if v.len() == 0 { (3, 0, 0, v[i], v[i]) } else { (d, m, v.len(), v[i], v[i]) }
}
/// copies have the same layout and coordinates and are independent of the original
pub fn c19_a_copy__impl(s: &A, i: usize, w: f64) -> (i32, i32, usize, C, C, C) {
    if i >= s.size() { return (0, 0, 0, C::default(), C::default(), C::default()); }
    let mut c = s.copy();
    let f = A::new_from_coordinate_array_sequence(s);
    let r = (c.get_dimension(), c.get_measures(), f.size(), c.get_coordinate_index(i), f.get_coordinate_index(i));
    c.set_ordinate(i, 0, w);
    (r.0, r.1, r.2, r.3, r.4, s.get_coordinate_index(i))
}
pub fn c19_a_copy__spec(s: &A, i: usize, w: f64) -> (i32, i32, usize, C, C, C) {
    if i >= s.size() { return (0, 0, 0, C::default(), C::default(), C::default()); }
    let c = s.get_coordinate_copy(i);
    (s.get_dimension(), s.get_measures(), s.size(), c, c, c)
}
/// factory layouts: clipped to between two and three spatial ordinates and at most one measure
pub fn c19_a_factory__impl(n: usize, d: i32, m: i32) -> (i32, i32, i32, i32, usize, usize) {
    let s = AF::create_with_size_dimension_measures(n, d, m);
    let t = AF::create_with_size_dimension(n, d);
    (s.get_dimension(), s.get_measures(), t.get_dimension(), t.get_measures(), s.size(), t.size())
}
pub fn c19_a_factory__spec(n: usize, d: i32, m: i32) -> (i32, i32, i32, i32, usize, usize) {
    let k = if m > 1 { 1 } else { m };
    let clip = |s: i32| if s < 2 { 2 } else if s > 3 { 3 } else { s };
    (clip(d - m) + k, k, clip(d), 0, n, n)
}
/// a sequence grows an envelope by each of its points
pub fn c19_a_envelope__impl(s: &A, e: &Envelope) -> Envelope { let mut r = *e; s.expand_envelope(&mut r); r }
pub fn c19_a_envelope__spec(s: &A, e: &Envelope) -> Envelope {
    let mut r = *e;
    let mut i = 0;
    while i < s.size() { r.expand_to_include_xy(s.get_x(i), s.get_y(i)); i += 1; }
    r
}
/// packed sequences store each coordinate's ordinates in layout order, plain layout
pub fn c19_p_from_xy__impl(v: &Vec<C>, i: usize) -> (f64, f64, usize, C) { if i >= v.len() { return (0.0, 0.0, 0, C::default()); }
    let s = P::new_coordinates_with_dimension_measures(v, 2, 0);
    (s.get_ordinate(i, 0), s.get_ordinate(i, 1), s.size(), s.get_coordinate_by_index(i))
}
pub fn c19_p_from_xy__spec(v: &Vec<C>, i: usize) -> (f64, f64, usize, C) { if i >= v.len() { return (0.0, 0.0, 0, C::default()); } (v[i].x, v[i].y, v.len(), C::new_xy(v[i].x, v[i].y)) }
/// packed sequences store each coordinate's ordinates in layout order, with z
pub fn c19_p_from_xyz__impl(v: &Vec<C>, i: usize) -> (f64, f64, f64, usize, C) { if i >= v.len() { return (0.0, 0.0, 0.0, 0, C::default()); }
    let s = P::new_coordinates_with_dimension(v, 3);
    (s.get_ordinate(i, 0), s.get_ordinate(i, 1), s.get_ordinate(i, 2), s.size(), s.get_coordinate_by_index(i))
}
pub fn c19_p_from_xyz__spec(v: &Vec<C>, i: usize) -> (f64, f64, f64, usize, C) { if i >= v.len() { return (0.0, 0.0, 0.0, 0, C::default()); } (v[i].x, v[i].y, v[i].z, v.len(), C::new_xyz(v[i].x, v[i].y, v[i].z)) }
/// packed sequences store each coordinate's ordinates in layout order, with measure
pub fn c19_p_from_xym__impl(v: &Vec<C>, i: usize) -> (f64, f64, f64, usize, C) { if i >= v.len() { return (0.0, 0.0, 0.0, 0, C::default()); }
    let s = P::new_coordinates_with_dimension_measures(v, 3, 1);
    (s.get_ordinate(i, 0), s.get_ordinate(i, 1), s.get_ordinate(i, 2), s.size(), s.get_coordinate_by_index(i))
}
pub fn c19_p_from_xym__spec(v: &Vec<C>, i: usize) -> (f64, f64, f64, usize, C) { if i >= v.len() { return (0.0, 0.0, 0.0, 0, C::default()); } (v[i].x, v[i].y, v[i].m, v.len(), C::new_xym(v[i].x, v[i].y, v[i].m)) }
/// packed sequences store each coordinate's ordinates in layout order, with z and measure
pub fn c19_p_from_xyzm__impl(v: &Vec<C>, i: usize) -> (f64, f64, f64, f64, usize, C) { if i >= v.len() { return (0.0, 0.0, 0.0, 0.0, 0, C::default()); }
    let s = P::new_coordinates_with_dimension_measures(v, 4, 1);
    (s.get_ordinate(i, 0), s.get_ordinate(i, 1), s.get_ordinate(i, 2), s.get_ordinate(i, 3), s.size(), s.get_coordinate_by_index(i))
}
pub fn c19_p_from_xyzm__spec(v: &Vec<C>, i: usize) -> (f64, f64, f64, f64, usize, C) { if i >= v.len() { return (0.0, 0.0, 0.0, 0.0, 0, C::default()); } (v[i].x, v[i].y, v[i].z, v[i].m, v.len(), C::new_xyzm(v[i].x, v[i].y, v[i].z, v[i].m)) }
/// raw ordinates are taken and given back in order
pub fn c19_p_raw__impl(v: &Vec<f64>, d: i32, m: i32, i: usize) -> (f64, f64, usize, i32, i32) { if i >= v.len() { return (0.0, 0.0, 0, 0, 0); }
    let s = P::new_f64_with_coordinates_dimension_measures(v, d, m);
    let c = s.copy();
    (s.get_raw_coordinates()[i], c.get_raw_coordinates()[i], c.get_raw_coordinates().len(), c.get_dimension(), c.get_measures())
}
pub fn c19_p_raw__spec(v: &Vec<f64>, d: i32, m: i32, i: usize) -> (f64, f64, usize, i32, i32) { if i >= v.len() { return (0.0, 0.0, 0, 0, 0); } (v[i], v[i], v.len(), d, m) }
/// setting an ordinate changes that position only
pub fn c19_p_set__impl(s: &P, i: usize, k: i32, w: f64, r: usize) -> f64 { if k < 0 || k >= s.get_dimension() || i * s.get_dimension() as usize + k as usize >= s.get_raw_coordinates().len() || r >= s.get_raw_coordinates().len() { return 0.0; } let mut t = s.copy(); t.set_ordinate(i, k, w); t.get_raw_coordinates()[r] }
pub fn c19_p_set__spec(s: &P, i: usize, k: i32, w: f64, r: usize) -> f64 { if k < 0 || k >= s.get_dimension() || i * s.get_dimension() as usize + k as usize >= s.get_raw_coordinates().len() || r >= s.get_raw_coordinates().len() { return 0.0; } if r == i * s.get_dimension() as usize + k as usize { w } else { s.get_raw_coordinates()[r] } }
/// a packed sequence grows an envelope by each of its points
pub fn c19_p_envelope__impl(v: &Vec<f64>, e: &Envelope) -> Envelope { P::new_f64_with_coordinates_dimension_measures(v, 3, 0).expand_envelope(e) }
pub fn c19_p_envelope__spec(v: &Vec<f64>, e: &Envelope) -> Envelope {
    let mut r = *e;
    let mut i = 0;
    while i < v.len() { if i + 1 < v.len() { r.expand_to_include_xy(v[i], v[i + 1]); } i += 3; }
    r
}
/// the coordinate array of a packed sequence lists its coordinates
/// @opaque PackedCoordinateSequenceDouble::get_coordinate_internal
pub fn c19_p_array__impl(s: &P, i: usize) -> (usize, C) { if s.get_dimension() < 2 || i >= s.size() { return (0, C::default()); } let a = s.to_coordinate_array(); (a.len(), a[i]) }
pub fn c19_p_array__spec(s: &P, i: usize) -> (usize, C) { if s.get_dimension() < 2 || i >= s.size() { return (0, C::default()); } (s.size(), s.get_coordinate_internal(i)) }


type Q = (f64, f64, f64, f64);
const NONE: Q = (0.0, 0.0, 0.0, 0.0);
fn of(c: &C) -> Q { (c.x, c.y, c.z, c.m) }
fn same(a: f64, b: f64) -> bool { a == b || a.is_nan() && b.is_nan() }
fn below(a: &C, b: &C) -> bool { a.x < b.x || a.x == b.x && a.y < b.y }
fn ring(v: &Vec<C>) -> bool { let n = v.len(); n == 0 || n > 3 && v[0].x == v[n - 1].x && v[0].y == v[n - 1].y }
fn amk(v: &Vec<C>) -> A { A::new_with_coordinates_dimension_measures(v.to_vec(), 4, 1) }
fn amk2(v: &Vec<C>) -> A { A::new_with_coordinates_dimension_measures(v.to_vec(), 2, 0) }
fn aq(s: &A, k: usize) -> Q { (s.get_ordinate(k, 0), s.get_ordinate(k, 1), s.get_ordinate(k, 2), s.get_ordinate(k, 3)) }
fn pmk(v: &Vec<C>) -> P { P::new_coordinates_with_dimension_measures(v, 4, 1) }
fn pmk3(v: &Vec<C>) -> P { P::new_coordinates_with_dimension_measures(v, 3, 1) }
fn pmk2(v: &Vec<C>) -> P { P::new_coordinates_with_dimension_measures(v, 2, 0) }
fn pq(s: &P, k: usize) -> Q { (s.get_ordinate(k, 0), s.get_ordinate(k, 1), s.get_ordinate(k, 2), s.get_ordinate(k, 3)) }

/// swapping exchanges every ordinate of two positions and nothing else (array sequence)
pub fn c19_a_swap__impl(v: &Vec<C>, i: usize, j: usize, k: usize) -> Q { let n = v.len(); if i >= n || j >= n || k >= n { return NONE; } let mut t = amk(v); AU::swap(&mut t, i, j); aq(&t, k) }
pub fn c19_a_swap__spec(v: &Vec<C>, i: usize, j: usize, k: usize) -> Q { let n = v.len(); if i >= n || j >= n || k >= n { return NONE; } of(&v[if k == i { j } else if k == j { i } else { k }]) }
/// reversal puts the coordinates, all ordinates, in the opposite order (array sequence)
pub fn c19_a_reverse__impl(v: &Vec<C>, k: usize) -> Q { if k >= v.len() { return NONE; } let mut t = amk(v); AU::reverse(&mut t); aq(&t, k) }
pub fn c19_a_reverse__spec(v: &Vec<C>, k: usize) -> Q { if k >= v.len() { return NONE; } of(&v[v.len() - 1 - k]) }
/// copying a coordinate between layouts moves exactly the ordinates both have (array sequence)
pub fn c19_a_copy_coord__impl(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, k: usize) -> Q { if p >= v.len() || q >= w.len() || k >= w.len() { return NONE; } let mut u = amk(w); AU::copy_coord(&amk(v), p, &mut u, q); aq(&u, k) }
pub fn c19_a_copy_coord__spec(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, k: usize) -> Q { if p >= v.len() || q >= w.len() || k >= w.len() { return NONE; } of(if k == q { &v[p] } else { &w[k] }) }
/// copying a coordinate from a planar layout leaves the other ordinates (array sequence)
pub fn c19_a_copy_narrow__impl(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, k: usize) -> Q { if p >= v.len() || q >= w.len() || k >= w.len() { return NONE; } let mut u = amk(w); AU::copy_coord(&amk2(v), p, &mut u, q); aq(&u, k) }
pub fn c19_a_copy_narrow__spec(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, k: usize) -> Q { if p >= v.len() || q >= w.len() || k >= w.len() { return NONE; } let a = of(&w[k]); if k == q { (v[p].x, v[p].y, a.2, a.3) } else { a } }
/// copying a stretch positions source and target independently (array sequence)
pub fn c19_a_copy_range__impl(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, n: usize, k: usize) -> Q { if p + n > v.len() || q + n > w.len() || k >= w.len() { return NONE; } let mut u = amk(w); AU::copy(&amk(v), p, &mut u, q, n); aq(&u, k) }
pub fn c19_a_copy_range__spec(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, n: usize, k: usize) -> Q { if p + n > v.len() || q + n > w.len() || k >= w.len() { return NONE; } of(if k >= q && k < q + n { &v[p + k - q] } else { &w[k] }) }
/// a ring is empty, or has more than three coordinates, first and last equal in x and y (array sequence)
pub fn c19_a_is_ring__impl(v: &Vec<C>) -> bool { AU::is_ring(&amk(v)) }
pub fn c19_a_is_ring__spec(v: &Vec<C>) -> bool { ring(v) }
/// a valid ring is the sequence itself, closed by its first coordinate and at least four long (array sequence)
pub fn c19_a_valid_ring__impl(v: &Vec<C>, k: usize) -> (usize, Q) { let r = AU::ensure_valid_ring(&amk(v)); if k >= r.size() { return (r.size(), NONE); } (r.size(), aq(&r, k)) }
pub fn c19_a_valid_ring__spec(v: &Vec<C>, k: usize) -> (usize, Q) {
    let n = v.len();
    let m = if ring(v) { n } else if n <= 3 { 4 } else { n + 1 };
    if k >= m { return (m, NONE); }
    (m, of(if k < n { &v[k] } else { &v[0] }))
}
/// extension repeats the last coordinate (array sequence)
pub fn c19_a_extend__impl(v: &Vec<C>, m: usize, k: usize) -> (usize, Q) { if m < v.len() || v.len() == 0 || k >= m { return (0, NONE); } let r = AU::extend(&amk(v), m); (r.size(), aq(&r, k)) }
pub fn c19_a_extend__spec(v: &Vec<C>, m: usize, k: usize) -> (usize, Q) { if m < v.len() || v.len() == 0 || k >= m { return (0, NONE); } (m, of(if k < v.len() { &v[k] } else { &v[v.len() - 1] })) }
/// sequences are equal when they have the same length and agree in every ordinate, missing values agreeing (array sequence)
pub fn c19_a_is_equal__impl(v: &Vec<C>, w: &Vec<C>) -> bool { AU::is_equal(&amk(v), &amk(w)) }
pub fn c19_a_is_equal__spec(v: &Vec<C>, w: &Vec<C>) -> bool {
    if v.len() != w.len() { return false; }
    for i in 0..v.len() {
        if !(same(v[i].x, w[i].x) && same(v[i].y, w[i].y) && same(v[i].z, w[i].z) && same(v[i].m, w[i].m)) { return false; }
    }
    true
}
/// sequences of different layouts are compared on the ordinates both have (array sequence)
pub fn c19_a_is_equal_narrow__impl(v: &Vec<C>, w: &Vec<C>) -> bool { AU::is_equal(&amk(v), &amk2(w)) }
pub fn c19_a_is_equal_narrow__spec(v: &Vec<C>, w: &Vec<C>) -> bool {
    if v.len() != w.len() { return false; }
    for i in 0..v.len() {
        if !(same(v[i].x, w[i].x) && same(v[i].y, w[i].y)) { return false; }
    }
    true
}
/// the smallest coordinate is the first that none is below (array sequence)
pub fn c19_a_min__impl(v: &Vec<C>) -> Option<(f64, f64)> { match AU::min_coordinate(&amk2(v)) { Some(c) => Some((c.x, c.y)), None => None } }
pub fn c19_a_min__spec(v: &Vec<C>) -> Option<(f64, f64)> {
    let mut best: Option<C> = None;
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        best = match best { None => Some(c), Some(b) => if below(&c, &b) { Some(c) } else { Some(b) } };
        i += 1;
    }
    match best { Some(c) => Some((c.x, c.y)), None => None }
}
/// the index of the smallest coordinate is the first position in the range that none is below (array sequence)
pub fn c19_a_min_index__impl(v: &Vec<C>, a: usize, b: usize) -> usize { if b < a || b >= v.len() { return 0; } AU::min_coordinate_index_sequence_from_to(&amk2(v), a, b) }
pub fn c19_a_min_index__spec(v: &Vec<C>, a: usize, b: usize) -> usize {
    if b < a || b >= v.len() { return 0; }
    let mut at: i32 = -1;
    let mut best: Option<C> = None;
    let mut i = a;
    while i <= b { if best.is_none() || below(&v[i], &best.unwrap()) { best = Some(v[i]); at = i as i32; } i += 1; }
    at as usize
}
/// the minimum over a whole sequence is that over its full index range (array sequence)
pub fn c19_a_min_all__impl(v: &Vec<C>) -> usize { if v.len() == 0 { return 0; } AU::min_coordinate_index_sequence(&amk2(v)) }
pub fn c19_a_min_all__spec(v: &Vec<C>) -> usize { if v.len() == 0 { return 0; } AU::min_coordinate_index_sequence_from_to(&amk2(v), 0, v.len() - 1) }
/// the index of a coordinate is the first position equal in x and y, -1 for none (array sequence)
pub fn c19_a_index_of__impl(c: &C, v: &Vec<C>) -> i32 { AU::index_of(c, &amk(v)) }
pub fn c19_a_index_of__spec(c: &C, v: &Vec<C>) -> i32 {
    let mut i = 0;
    while i < v.len() {
        if v[i].x == c.x && v[i].y == c.y { return i as i32; }
        i += 1;
    }
    -1
}
/// scrolling an open sequence rotates the coordinates, all ordinates (array sequence)
pub fn c19_a_scroll__impl(v: &Vec<C>, f: usize, k: usize) -> Q { if k >= v.len() || f >= v.len() { return NONE; } let mut t = amk(v); AU::scroll_coordinate_index_ensure_ring(&mut t, f, false); aq(&t, k) }
pub fn c19_a_scroll__spec(v: &Vec<C>, f: usize, k: usize) -> Q { if k >= v.len() || f >= v.len() { return NONE; } if f == 0 { return of(&v[k]); } of(&v[(f + k) % v.len()]) }
/// scrolling a ring rotates the coordinates before the closing one and recloses (array sequence)
pub fn c19_a_scroll_ring__impl(v: &Vec<C>, f: usize, k: usize) -> Q { if k >= v.len() || f + 1 >= v.len() { return NONE; } let mut t = amk(v); AU::scroll_coordinate_index_ensure_ring(&mut t, f, true); aq(&t, k) }
pub fn c19_a_scroll_ring__spec(v: &Vec<C>, f: usize, k: usize) -> Q {
    if k >= v.len() || f + 1 >= v.len() { return NONE; }
    if f == 0 { return of(&v[k]); }
    let n = v.len() - 1;
    of(&v[if k >= n { f % n } else { (f + k) % n }])
}
/// scrolling to an index treats the sequence as a ring exactly when it is one (array sequence)
/// @opaque CoordinateArraySequences::scroll_coordinate_index_ensure_ring
pub fn c19_a_scroll_index__impl(v: &Vec<C>, f: usize, k: usize) -> Q { if k >= v.len() || f >= v.len() { return NONE; } let mut t = amk(v); AU::scroll_coordinate_index(&mut t, f); aq(&t, k) }
pub fn c19_a_scroll_index__spec(v: &Vec<C>, f: usize, k: usize) -> Q { if k >= v.len() || f >= v.len() { return NONE; } let mut t = amk(v); AU::scroll_coordinate_index_ensure_ring(&mut t, f, ring(v)); aq(&t, k) }
/// scrolling to a coordinate scrolls to its first occurrence, if that is after the start (array sequence)
/// @opaque CoordinateArraySequences::scroll_coordinate_index_ensure_ring
pub fn c19_a_scroll_to__impl(v: &Vec<C>, c: &C, k: usize) -> Q { if k >= v.len() { return NONE; } let mut t = amk(v); AU::scroll_coordinate(&mut t, c); aq(&t, k) }
pub fn c19_a_scroll_to__spec(v: &Vec<C>, c: &C, k: usize) -> Q {
    if k >= v.len() { return NONE; }
    let mut t = amk(v);
    let i = AU::index_of(c, &t);
    if i > 0 { AU::scroll_coordinate_index_ensure_ring(&mut t, i as usize, ring(v)); }
    aq(&t, k)
}

/// swapping exchanges every ordinate of two positions and nothing else (packed sequence)
pub fn c19_p_swap__impl(v: &Vec<C>, i: usize, j: usize, k: usize) -> Q { let n = v.len(); if i >= n || j >= n || k >= n { return NONE; } let mut t = pmk(v); PU::swap(&mut t, i, j); pq(&t, k) }
pub fn c19_p_swap__spec(v: &Vec<C>, i: usize, j: usize, k: usize) -> Q { let n = v.len(); if i >= n || j >= n || k >= n { return NONE; } of(&v[if k == i { j } else if k == j { i } else { k }]) }
/// reversal puts the coordinates, all ordinates, in the opposite order (packed sequence)
pub fn c19_p_reverse__impl(v: &Vec<C>, k: usize) -> Q { if k >= v.len() { return NONE; } let mut t = pmk(v); PU::reverse(&mut t); pq(&t, k) }
pub fn c19_p_reverse__spec(v: &Vec<C>, k: usize) -> Q { if k >= v.len() { return NONE; } of(&v[v.len() - 1 - k]) }
/// copying a coordinate between layouts moves exactly the ordinates both have (packed sequence)
pub fn c19_p_copy_coord__impl(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, k: usize) -> Q { if p >= v.len() || q >= w.len() || k >= w.len() { return NONE; } let mut u = pmk(w); PU::copy_coord(&pmk(v), p, &mut u, q); pq(&u, k) }
pub fn c19_p_copy_coord__spec(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, k: usize) -> Q { if p >= v.len() || q >= w.len() || k >= w.len() { return NONE; } of(if k == q { &v[p] } else { &w[k] }) }
/// copying a coordinate from a planar layout leaves the other ordinates (packed sequence)
pub fn c19_p_copy_narrow__impl(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, k: usize) -> Q { if p >= v.len() || q >= w.len() || k >= w.len() { return NONE; } let mut u = pmk(w); PU::copy_coord(&pmk2(v), p, &mut u, q); pq(&u, k) }
pub fn c19_p_copy_narrow__spec(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, k: usize) -> Q { if p >= v.len() || q >= w.len() || k >= w.len() { return NONE; } let a = of(&w[k]); if k == q { (v[p].x, v[p].y, a.2, a.3) } else { a } }
/// copying a coordinate between layouts of more than four ordinates moves exactly the ordinates both have (packed sequence)
pub fn c19_p_copy_wide__impl(v: &Vec<f64>, p: usize, w: &Vec<f64>, q: usize, k: usize) -> [f64; 5] {
    if v.len() % 6 != 0 || w.len() % 5 != 0 || p >= v.len() / 6 || q >= w.len() / 5 || k >= w.len() / 5 { return [0.0; 5]; }
    let mut u = P::new_f64_with_coordinates_dimension_measures(w, 5, 2);
    PU::copy_coord(&P::new_f64_with_coordinates_dimension_measures(v, 6, 2), p, &mut u, q);
    [u.get_ordinate(k, 0), u.get_ordinate(k, 1), u.get_ordinate(k, 2), u.get_ordinate(k, 3), u.get_ordinate(k, 4)]
}
pub fn c19_p_copy_wide__spec(v: &Vec<f64>, p: usize, w: &Vec<f64>, q: usize, k: usize) -> [f64; 5] {
    if v.len() % 6 != 0 || w.len() % 5 != 0 || p >= v.len() / 6 || q >= w.len() / 5 || k >= w.len() / 5 { return [0.0; 5]; }
    if k == q { [v[6 * p], v[6 * p + 1], v[6 * p + 2], v[6 * p + 3], v[6 * p + 4]] } else { [w[5 * k], w[5 * k + 1], w[5 * k + 2], w[5 * k + 3], w[5 * k + 4]] }
}
/// copying a coordinate of five ordinates to a layout of four moves those four (packed sequence)
pub fn c19_p_copy_five__impl(v: &Vec<f64>, p: usize, w: &Vec<C>, q: usize, k: usize) -> Q {
    if v.len() % 5 != 0 || p >= v.len() / 5 || q >= w.len() || k >= w.len() { return NONE; }
    let mut u = pmk(w);
    PU::copy_coord(&P::new_f64_with_coordinates_dimension_measures(v, 5, 1), p, &mut u, q);
    pq(&u, k)
}
pub fn c19_p_copy_five__spec(v: &Vec<f64>, p: usize, w: &Vec<C>, q: usize, k: usize) -> Q {
    if v.len() % 5 != 0 || p >= v.len() / 5 || q >= w.len() || k >= w.len() { return NONE; }
    if k == q { (v[5 * p], v[5 * p + 1], v[5 * p + 2], v[5 * p + 3]) } else { of(&w[k]) }
}
/// swapping coordinates of five ordinates exchanges all of them (packed sequence)
pub fn c19_p_swap_five__impl(v: &Vec<f64>, i: usize, j: usize, k: usize) -> [f64; 5] {
    if v.len() % 5 != 0 || i >= v.len() / 5 || j >= v.len() / 5 || k >= v.len() / 5 { return [0.0; 5]; }
    let mut u = P::new_f64_with_coordinates_dimension_measures(v, 5, 2);
    PU::swap(&mut u, i, j);
    [u.get_ordinate(k, 0), u.get_ordinate(k, 1), u.get_ordinate(k, 2), u.get_ordinate(k, 3), u.get_ordinate(k, 4)]
}
pub fn c19_p_swap_five__spec(v: &Vec<f64>, i: usize, j: usize, k: usize) -> [f64; 5] {
    if v.len() % 5 != 0 || i >= v.len() / 5 || j >= v.len() / 5 || k >= v.len() / 5 { return [0.0; 5]; }
    let k = if k == i { j } else if k == j { i } else { k };
    [v[5 * k], v[5 * k + 1], v[5 * k + 2], v[5 * k + 3], v[5 * k + 4]]
}
/// copying a stretch positions source and target independently (packed sequence)
pub fn c19_p_copy_range__impl(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, n: usize, k: usize) -> Q { if p + n > v.len() || q + n > w.len() || k >= w.len() { return NONE; } let mut u = pmk(w); PU::copy(&pmk(v), p, &mut u, q, n); pq(&u, k) }
pub fn c19_p_copy_range__spec(v: &Vec<C>, p: usize, w: &Vec<C>, q: usize, n: usize, k: usize) -> Q { if p + n > v.len() || q + n > w.len() || k >= w.len() { return NONE; } of(if k >= q && k < q + n { &v[p + k - q] } else { &w[k] }) }
/// a ring is empty, or has more than three coordinates, first and last equal in x and y (packed sequence)
pub fn c19_p_is_ring__impl(v: &Vec<C>) -> bool { PU::is_ring(&pmk(v)) }
pub fn c19_p_is_ring__spec(v: &Vec<C>) -> bool { ring(v) }
/// a valid ring is the sequence itself, closed by its first coordinate and at least four long (packed sequence)
pub fn c19_p_valid_ring__impl(v: &Vec<C>, k: usize) -> (usize, Q) { let r = PU::ensure_valid_ring(&pmk(v)); if k >= r.size() { return (r.size(), NONE); } (r.size(), pq(&r, k)) }
pub fn c19_p_valid_ring__spec(v: &Vec<C>, k: usize) -> (usize, Q) {
    let n = v.len();
    let m = if ring(v) { n } else if n <= 3 { 4 } else { n + 1 };
    if k >= m { return (m, NONE); }
    (m, of(if k < n { &v[k] } else { &v[0] }))
}
/// extension repeats the last coordinate (packed sequence)
pub fn c19_p_extend__impl(v: &Vec<C>, m: usize, k: usize) -> (usize, Q) { if m < v.len() || v.len() == 0 || k >= m { return (0, NONE); } let r = PU::extend(&pmk(v), m); (r.size(), pq(&r, k)) }
pub fn c19_p_extend__spec(v: &Vec<C>, m: usize, k: usize) -> (usize, Q) { if m < v.len() || v.len() == 0 || k >= m { return (0, NONE); } (m, of(if k < v.len() { &v[k] } else { &v[v.len() - 1] })) }
/// sequences are equal when they have the same length and agree in every ordinate, missing values agreeing (packed sequence)
pub fn c19_p_is_equal__impl(v: &Vec<C>, w: &Vec<C>) -> bool { PU::is_equal(&pmk3(v), &pmk3(w)) }
pub fn c19_p_is_equal__spec(v: &Vec<C>, w: &Vec<C>) -> bool {
    if v.len() != w.len() { return false; }
    for i in 0..v.len() {
        if !(same(v[i].x, w[i].x) && same(v[i].y, w[i].y) && same(v[i].m, w[i].m)) { return false; }
    }
    true
}
/// sequences of different layouts are compared on the ordinates both have (packed sequence)
pub fn c19_p_is_equal_narrow__impl(v: &Vec<C>, w: &Vec<C>) -> bool { PU::is_equal(&pmk(v), &pmk2(w)) }
pub fn c19_p_is_equal_narrow__spec(v: &Vec<C>, w: &Vec<C>) -> bool {
    if v.len() != w.len() { return false; }
    for i in 0..v.len() {
        if !(same(v[i].x, w[i].x) && same(v[i].y, w[i].y)) { return false; }
    }
    true
}
/// the smallest coordinate is the first that none is below (packed sequence)
pub fn c19_p_min__impl(v: &Vec<C>) -> Option<(f64, f64)> { match PU::min_coordinate(&pmk2(v)) { Some(c) => Some((c.x, c.y)), None => None } }
pub fn c19_p_min__spec(v: &Vec<C>) -> Option<(f64, f64)> {
    let mut best: Option<C> = None;
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        best = match best { None => Some(c), Some(b) => if below(&c, &b) { Some(c) } else { Some(b) } };
        i += 1;
    }
    match best { Some(c) => Some((c.x, c.y)), None => None }
}
/// the index of the smallest coordinate is the first position in the range that none is below (packed sequence)
pub fn c19_p_min_index__impl(v: &Vec<C>, a: usize, b: usize) -> usize { if b < a || b >= v.len() { return 0; } PU::min_coordinate_index_sequence_from_to(&pmk2(v), a, b) }
pub fn c19_p_min_index__spec(v: &Vec<C>, a: usize, b: usize) -> usize {
    if b < a || b >= v.len() { return 0; }
    let mut at: i32 = -1;
    let mut best: Option<C> = None;
    let mut i = a;
    while i <= b { if best.is_none() || below(&v[i], &best.unwrap()) { best = Some(v[i]); at = i as i32; } i += 1; }
    at as usize
}
/// the minimum over a whole sequence is that over its full index range (packed sequence)
pub fn c19_p_min_all__impl(v: &Vec<C>) -> usize { if v.len() == 0 { return 0; } PU::min_coordinate_index_sequence(&pmk2(v)) }
pub fn c19_p_min_all__spec(v: &Vec<C>) -> usize { if v.len() == 0 { return 0; } PU::min_coordinate_index_sequence_from_to(&pmk2(v), 0, v.len() - 1) }
/// the index of a coordinate is the first position equal in x and y, -1 for none (packed sequence)
pub fn c19_p_index_of__impl(c: &C, v: &Vec<C>) -> i32 { PU::index_of(c, &pmk(v)) }
pub fn c19_p_index_of__spec(c: &C, v: &Vec<C>) -> i32 {
    let mut i = 0;
    while i < v.len() {
        if v[i].x == c.x && v[i].y == c.y { return i as i32; }
        i += 1;
    }
    -1
}
/// scrolling an open sequence rotates the coordinates, all ordinates (packed sequence)
pub fn c19_p_scroll__impl(v: &Vec<C>, f: usize, k: usize) -> Q { if k >= v.len() || f >= v.len() { return NONE; } let mut t = pmk(v); PU::scroll_coordinate_index_ensure_ring(&mut t, f, false); pq(&t, k) }
pub fn c19_p_scroll__spec(v: &Vec<C>, f: usize, k: usize) -> Q { if k >= v.len() || f >= v.len() { return NONE; } if f == 0 { return of(&v[k]); } of(&v[(f + k) % v.len()]) }
/// scrolling a ring rotates the coordinates before the closing one and recloses (packed sequence)
pub fn c19_p_scroll_ring__impl(v: &Vec<C>, f: usize, k: usize) -> Q { if k >= v.len() || f + 1 >= v.len() { return NONE; } let mut t = pmk(v); PU::scroll_coordinate_index_ensure_ring(&mut t, f, true); pq(&t, k) }
pub fn c19_p_scroll_ring__spec(v: &Vec<C>, f: usize, k: usize) -> Q {
    if k >= v.len() || f + 1 >= v.len() { return NONE; }
    if f == 0 { return of(&v[k]); }
    let n = v.len() - 1;
    of(&v[if k >= n { f % n } else { (f + k) % n }])
}
/// scrolling to an index treats the sequence as a ring exactly when it is one (packed sequence)
/// @opaque PackedCoordinateSequences::scroll_coordinate_index_ensure_ring
pub fn c19_p_scroll_index__impl(v: &Vec<C>, f: usize, k: usize) -> Q { if k >= v.len() || f >= v.len() { return NONE; } let mut t = pmk(v); PU::scroll_coordinate_index(&mut t, f); pq(&t, k) }
pub fn c19_p_scroll_index__spec(v: &Vec<C>, f: usize, k: usize) -> Q { if k >= v.len() || f >= v.len() { return NONE; } let mut t = pmk(v); PU::scroll_coordinate_index_ensure_ring(&mut t, f, ring(v)); pq(&t, k) }
/// scrolling to a coordinate scrolls to its first occurrence, if that is after the start (packed sequence)
/// @opaque PackedCoordinateSequences::scroll_coordinate_index_ensure_ring
pub fn c19_p_scroll_to__impl(v: &Vec<C>, c: &C, k: usize) -> Q { if k >= v.len() { return NONE; } let mut t = pmk(v); PU::scroll_coordinate(&mut t, c); pq(&t, k) }
pub fn c19_p_scroll_to__spec(v: &Vec<C>, c: &C, k: usize) -> Q {
    if k >= v.len() { return NONE; }
    let mut t = pmk(v);
    let i = PU::index_of(c, &t);
    if i > 0 { PU::scroll_coordinate_index_ensure_ring(&mut t, i as usize, ring(v)); }
    pq(&t, k)
}
/// packed sequences built by the factory take their layout from the first coordinate
pub fn c19_p_factory_coords__impl(v: &Vec<C>) -> (i32, i32, usize, i32, i32) {
    let e = PF::create_double_from_coordinates(&Vec::new());
    if v.len() == 0 { return (0, 0, 0, e.get_dimension(), e.get_measures()); }
    let s = PF::create_double_from_coordinates(v);
    (s.get_dimension(), s.get_measures(), s.size(), e.get_dimension(), e.get_measures())
}
pub fn c19_p_factory_coords__spec(v: &Vec<C>) -> (i32, i32, usize, i32, i32) {
    if v.len() == 0 { return (0, 0, 0, 3, 0); }
    (Coordinates::dimension(&v[0]), Coordinates::measures(&v[0]), v.len(), 3, 0)
}
/// sequences made with a size or a dimension have it, and the coordinates given
pub fn c19_a_makers__impl(v: &Vec<C>, n: usize, d: i32, i: usize) -> (i32, usize, C, i32, i32, usize, C) {
    let a = A::new_with_coordinates_dimension(v.to_vec(), d);
    let b = A::new_with_size(n);
    (a.get_dimension(), a.size(), if i < v.len() { a.get_coordinate_index(i) } else { C::default() },
     b.get_dimension(), b.get_measures(), b.size(), if i < n { b.get_coordinate_index(i) } else { C::default() })
}
pub fn c19_a_makers__spec(v: &Vec<C>, n: usize, d: i32, i: usize) -> (i32, usize, C, i32, i32, usize, C) {
    (d, v.len(), if i < v.len() { v[i] } else { C::default() }, 3, 0, n, C::default())
}
/// the factory's copy of a sequence holds the same coordinates in the same layout and shares none
pub fn c19_a_factory_copy__impl(v: &Vec<C>, i: usize, x: f64) -> (i32, i32, usize, C, C) {
    let mut a = amk(v);
    let b = AF::create_from_coordinate_array_sequence(&a);
    if i < v.len() { a.set_ordinate(i, 0, x); }
    (b.get_dimension(), b.get_measures(), b.size(), if i < v.len() { b.get_coordinate_index(i) } else { C::default() }, if i < v.len() { a.get_coordinate_index(i) } else { C::default() })
}
pub fn c19_a_factory_copy__spec(v: &Vec<C>, i: usize, x: f64) -> (i32, i32, usize, C, C) {
    if i < v.len() { let mut c = v[i]; c.x = x; (4, 1, v.len(), v[i], c) } else { (4, 1, v.len(), C::default(), C::default()) }
}
/// packed sequences made by size have it, with a measure only past three dimensions
pub fn c19_p_factory_size__impl(n: usize, d: i32, m: i32) -> (usize, i32, i32, usize, i32, i32) {
    if d < 2 || d > 4 || m < 0 || d - m < 2 { return (0, 0, 0, 0, 0, 0); }
    let (a, b) = (PF::create_with_size_dimension(n, d), PF::create_with_size_dimension_measures(n, d, m));
    (a.size(), a.get_dimension(), a.get_measures(), b.size(), b.get_dimension(), b.get_measures())
}
pub fn c19_p_factory_size__spec(n: usize, d: i32, m: i32) -> (usize, i32, i32, usize, i32, i32) {
    if d < 2 || d > 4 || m < 0 || d - m < 2 { return (0, 0, 0, 0, 0, 0); }
    (n, d, if d > 3 { 1 } else { 0 }, n, d, m)
}
/// packed sequences made from packed ordinates keep them
pub fn c19_p_factory_packed__impl(v: &Vec<f64>, d: i32, m: i32, i: usize) -> (usize, i32, i32, f64, i32, i32) {
    if d < 2 || d > 4 || m < 0 || d - m < 2 || v.len() % (d as usize) != 0 || i >= v.len() / (d as usize) { return (0, 0, 0, 0.0, 0, 0); }
    let (a, b) = (PF::create_double_coordinate_dimension_measures(v, d, m), PF::create_double_coordinates_dimension(v, d));
    (a.size(), a.get_dimension(), a.get_measures(), a.get_ordinate(i, 1), b.get_dimension(), b.get_measures())
}
pub fn c19_p_factory_packed__spec(v: &Vec<f64>, d: i32, m: i32, i: usize) -> (usize, i32, i32, f64, i32, i32) {
    if d < 2 || d > 4 || m < 0 || d - m < 2 || v.len() % (d as usize) != 0 || i >= v.len() / (d as usize) { return (0, 0, 0, 0.0, 0, 0); }
    (v.len() / (d as usize), d, m, v[i * (d as usize) + 1], d, 0)
}
/// a packed sequence made without coordinates needs two spatial dimensions, has the layout asked for, and is empty
pub fn c19_q_new__impl(d: i32, m: i32) -> Option<(i32, i32, usize, bool, bool, usize, usize)> {
    match PS::new_with_dimension_measures(d, m) {
        Some(q) => Some((q.get_dimension(), q.get_measures(), q.size(), q.has_z(), q.has_m(), q.to_coordinate_array().len(), q.clone().size())),
        None => None }
}
pub fn c19_q_new__spec(d: i32, m: i32) -> Option<(i32, i32, usize, bool, bool, usize, usize)> {
    if d - m < 2 { None } else { Some((d, m, 0, d - m > 2, m > 0, 0, 0)) }
}
/// a packed sequence answers each ordinate from the coordinate it returns whole
pub fn c19_q_access__impl(q: &PS, i: usize) -> (f64, f64, f64, f64, f64, Option<C>, C, C) {
    if i >= q.size() { return (0.0, 0.0, 0.0, 0.0, 0.0, None, C::default(), C::default()); }
    (q.get_x(i), q.get_y(i), q.get_ordinate(i, 0), q.get_ordinate(i, 1), q.get_ordinate(i, 2), q.get_coordinate_copy_by_index(i), q.to_coordinate_array()[i], q.get_coordinate_internal(i).unwrap())
}
pub fn c19_q_access__spec(q: &PS, i: usize) -> (f64, f64, f64, f64, f64, Option<C>, C, C) {
    if i >= q.size() { return (0.0, 0.0, 0.0, 0.0, 0.0, None, C::default(), C::default()); }
    let c = q.get_coordinate_by_index(i);
    (c.x, c.y, c.x, c.y, c.z, Some(c), c, c)
}
/// its z is missing without a third dimension, and a coordinate filled from it takes what the layout has
pub fn c19_q_fill__impl(q: &PS, i: usize, c: &C) -> (f64, C) {
    if i >= q.size() || q.get_measures() != 0 { return (0.0, *c); }
    let mut t = *c;
    q.get_coordinate_by_index_coordinate(i, &mut t);
    (q.get_z(i), t)
}
pub fn c19_q_fill__spec(q: &PS, i: usize, c: &C) -> (f64, C) {
    if i >= q.size() || q.get_measures() != 0 { return (0.0, *c); }
    let mut t = *c;
    let e = q.get_coordinate_by_index(i);
    t.x = e.x;
    t.y = e.y;
    if q.get_dimension() > 2 { t.z = e.z; (e.z, t) } else { (f64::NAN, t) }
}
/// setting an ordinate of a packed sequence changes that ordinate of that coordinate alone
pub fn c19_q_set__impl(q: &PS, i: usize, j: usize, x: f64) -> (C, C, C, C, usize) {
    if i >= q.size() || j >= q.size() { return (C::default(), C::default(), C::default(), C::default(), 0); }
    let (mut a, mut b, mut c, mut d) = (q.clone(), q.clone(), q.clone(), q.clone());
    a.set_x(i, x); b.set_y(i, x); c.set_ordinate(i, 2, x); d.set_ordinate(i, 1, x);
    (a.get_coordinate_by_index(j), b.get_coordinate_by_index(j), c.get_coordinate_by_index(j), d.get_coordinate_by_index(j), a.size())
}
pub fn c19_q_set__spec(q: &PS, i: usize, j: usize, x: f64) -> (C, C, C, C, usize) {
    if i >= q.size() || j >= q.size() { return (C::default(), C::default(), C::default(), C::default(), 0); }
    let e = q.get_coordinate_by_index(j);
    let (mut a, mut b, mut c) = (e, e, e);
    if i == j { a.x = x; b.y = x; c.z = x; }
    (a, b, c, b, q.size())
}
/// packed copies of a packed sequence keep its size, dimension and measures
pub fn c19_q_copy__impl(q: &PS) -> (usize, i32, usize, i32, i32) {
    let (a, b) = (q.copy(), PF::create_double_from_coordinate_sequence(q));
    (a.size(), a.get_dimension(), b.size(), b.get_dimension(), b.get_measures())
}
pub fn c19_q_copy__spec(q: &PS) -> (usize, i32, usize, i32, i32) {
    (q.size(), q.get_dimension(), q.size(), q.get_dimension(), q.get_measures())
}

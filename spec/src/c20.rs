// C20: coordinate arrays and lists.
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::coordinates::Coordinates;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::coordinate_arrays::CoordinateArrays as CA;
use crate::core::geom::coordinate_list::CoordinateList as CL;

type C = Coordinate;
fn eq2(a: &C, b: &C) -> bool { a.x == b.x && a.y == b.y }
fn valid(c: &C) -> bool { c.x.is_finite() && c.y.is_finite() }
fn cmp2(a: &C, b: &C) -> i32 { if a.x < b.x { -1 } else if a.x > b.x { 1 } else if a.y < b.y { -1 } else if a.y > b.y { 1 } else { 0 } }

/// an array is a ring when at least four long and closed in x and y
pub fn c20_is_ring__impl(v: &Vec<C>) -> bool { CA::is_ring(v) }
pub fn c20_is_ring__spec(v: &Vec<C>) -> bool { v.len() >= 4 && eq2(&v[0], &v[v.len() - 1]) }
/// the dimension and measure count are the largest among the coordinates, 3 and 0 for none
pub fn c20_layout__impl(v: &Vec<C>) -> (i32, i32) { (CA::dimension(v), CA::measures(v)) }
pub fn c20_layout__spec(v: &Vec<C>) -> (i32, i32) {
    if v.len() == 0 { return (3, 0); }
    let (mut d, mut m) = (0, 0);
    for c in v.iter() {
        let e = Coordinates::dimension(c);
        if d < e { d = e; }
        let f = Coordinates::measures(c);
        if m < f { m = f; }
    }
    (d, m)
}
/// the index of a coordinate is the first position equal in x and y, -1 for none
pub fn c20_index_of__impl(c: &C, v: &Vec<C>) -> i32 { CA::index_of(c, v) }
pub fn c20_index_of__spec(c: &C, v: &Vec<C>) -> i32 {
    let mut i = 0;
    while i < v.len() { if eq2(c, &v[i]) { return i as i32; } i += 1; }
    -1
}
/// the first test point not listed is found
/// @opaque CoordinateArrays::index_of
pub fn c20_not_in_list__impl(t: &Vec<C>, v: &Vec<C>) -> Option<C> { CA::pt_not_in_list(t, v) }
pub fn c20_not_in_list__spec(t: &Vec<C>, v: &Vec<C>) -> Option<C> {
    let mut i = 0;
    while i < t.len() { if CA::index_of(&t[i], v) < 0 { return Some(t[i]); } i += 1; }
    None
}
/// arrays compare lexicographically, a proper prefix first
pub fn c20_compare__impl(v: &Vec<C>, w: &Vec<C>) -> i32 { CA::compare(v, w) }
pub fn c20_compare__spec(v: &Vec<C>, w: &Vec<C>) -> i32 {
    let mut i = 0;
    while i < v.len() && i < w.len() {
        let c = cmp2(&v[i], &w[i]);
        if c != 0 { return c; }
        i += 1;
    }
    if v.len() < w.len() { -1 } else if v.len() > w.len() { 1 } else { 0 }
}
/// arrays are equal when they have the same length and are pairwise equal in x and y
pub fn c20_equals__impl(v: &Vec<C>, w: &Vec<C>) -> bool { CA::equals(v, w) }
pub fn c20_equals__spec(v: &Vec<C>, w: &Vec<C>) -> bool {
    if v.len() != w.len() { return false; }
    for i in 0..v.len() { if !eq2(&v[i], &w[i]) { return false; } }
    true
}
/// arrays of the same length are equal in reverse when one read backwards is the other
pub fn c20_equal_reversed__impl(v: &Vec<C>, w: &Vec<C>) -> bool { if v.len() != w.len() { return false; } CA::is_equal_reversed(v, w) }
pub fn c20_equal_reversed__spec(v: &Vec<C>, w: &Vec<C>) -> bool {
    if v.len() != w.len() { return false; }
    for i in 0..v.len() { if !eq2(&v[i], &w[v.len() - 1 - i]) { return false; } }
    true
}
/// the direction of an array is the sign of its first asymmetric pair, 1 for a palindrome
pub fn c20_direction__impl(v: &Vec<C>) -> i32 { CA::increasing_direction(v) }
pub fn c20_direction__spec(v: &Vec<C>) -> i32 {
    for i in 0..v.len() {
        let c = cmp2(&v[i], &v[v.len() - 1 - i]);
        if c != 0 { return c; }
    }
    1
}
/// repeated points are consecutive coordinates equal in x and y
pub fn c20_has_repeated__impl(v: &Vec<C>) -> bool { CA::has_repeated_points(v) }
pub fn c20_has_repeated__spec(v: &Vec<C>) -> bool {
    for i in 1..v.len() { if eq2(&v[i - 1], &v[i]) { return true; } }
    false
}
/// repeated or invalid points: a consecutive repetition, or any coordinate that is not finite
/// @mode nan
pub fn c20_has_invalid__impl(v: &Vec<C>) -> bool { CA::has_repeated_or_invalid_points(v) }
pub fn c20_has_invalid__spec(v: &Vec<C>) -> bool {
    for i in 0..v.len() { if !valid(&v[i]) || i > 0 && eq2(&v[i - 1], &v[i]) { return true; } }
    false
}
/// removing repeated points keeps each coordinate that differs from the one kept before it
/// @opaque CoordinateArrays::has_repeated_points
pub fn c20_remove_repeated__impl(v: &Vec<C>) -> Vec<C> { CA::remove_repeated_points(v) }
pub fn c20_remove_repeated__spec(v: &Vec<C>) -> Vec<C> {
    if !CA::has_repeated_points(v) { return v.to_vec(); }
    let mut r: Vec<C> = vec![];
    for i in 0..v.len() { if r.len() == 0 || !eq2(&r[r.len() - 1], &v[i]) { r.push(v[i]); } }
    r
}
/// removing repeated or invalid points keeps each valid coordinate that differs from the one kept before it
/// @opaque CoordinateArrays::has_repeated_or_invalid_points
/// @mode nan
pub fn c20_remove_invalid__impl(v: &Vec<C>) -> Vec<C> { CA::remove_repeated_or_invalid_points(v) }
pub fn c20_remove_invalid__spec(v: &Vec<C>) -> Vec<C> {
    if !CA::has_repeated_or_invalid_points(v) { return v.to_vec(); }
    let mut r: Vec<C> = vec![];
    for i in 0..v.len() { if valid(&v[i]) && (r.len() == 0 || !eq2(&r[r.len() - 1], &v[i])) { r.push(v[i]); } }
    r
}
/// short arrays become nothing
pub fn c20_at_least__impl(n: usize, v: &Vec<C>) -> Vec<C> { CA::at_least_n_coordinates_or_nothing(n, v) }
pub fn c20_at_least__spec(n: usize, v: &Vec<C>) -> Vec<C> { if v.len() >= n { v.to_vec() } else { vec![] } }
/// copies hold the same coordinates, every ordinate
pub fn c20_copy__impl(v: &Vec<C>) -> Vec<C> { CA::copy_deep(v) }
pub fn c20_copy__spec(v: &Vec<C>) -> Vec<C> { v.to_vec() }
/// copying a stretch places it at the target position and leaves the rest
pub fn c20_copy_to__impl(v: &Vec<C>, a: usize, w: &Vec<C>, b: usize, n: usize, k: usize) -> C {
    if a + n > v.len() || b + n > w.len() || k >= w.len() { return C::default(); }
    let mut r = w.to_vec();
    CA::copy_deep_to(v, a, &mut r, b, n);
    r[k]
}
pub fn c20_copy_to__spec(v: &Vec<C>, a: usize, w: &Vec<C>, b: usize, n: usize, k: usize) -> C {
    if a + n > v.len() || b + n > w.len() || k >= w.len() { return C::default(); }
    if k >= b && k - b < n { v[a + (k - b)] } else { w[k] }
}
/// the smallest coordinate is the first that none is below
pub fn c20_min__impl(v: &Vec<C>) -> Option<C> { CA::min_coordinate(v) }
pub fn c20_min__spec(v: &Vec<C>) -> Option<C> {
    let mut best: Option<C> = None;
    for c in v.iter() {
        best = match best { None => Some(*c), Some(b) => if cmp2(c, &b) < 0 { Some(*c) } else { Some(b) } };
    }
    best
}
/// scrolling an open array rotates it
pub fn c20_scroll__impl(v: &Vec<C>, f: usize, k: usize) -> C { if f >= v.len() || k >= v.len() { return C::default(); } let mut r = v.to_vec(); CA::scroll_index_ensure_ring(&mut r, f, false); r[k] }
pub fn c20_scroll__spec(v: &Vec<C>, f: usize, k: usize) -> C { if f >= v.len() || k >= v.len() { return C::default(); } if f + k < v.len() { v[f + k] } else { v[f + k - v.len()] } }
/// scrolling a ring rotates the coordinates before the closing one and recloses
pub fn c20_scroll_ring__impl(v: &Vec<C>, f: usize, k: usize) -> C { if f + 1 >= v.len() || k >= v.len() { return C::default(); } let mut r = v.to_vec(); CA::scroll_index_ensure_ring(&mut r, f, true); r[k] }
pub fn c20_scroll_ring__spec(v: &Vec<C>, f: usize, k: usize) -> C {
    if f + 1 >= v.len() || k >= v.len() { return C::default(); }
    if f == 0 { return v[k]; }
    let n = v.len() - 1;
    v[(f + if k == n { 0 } else { k }) % n]
}
/// scrolling to an index treats an array as a ring exactly when it is one
/// @opaque CoordinateArrays::scroll_index_ensure_ring
pub fn c20_scroll_index__impl(v: &Vec<C>, f: usize, k: usize) -> C { if f >= v.len() || k >= v.len() { return C::default(); } let mut r = v.to_vec(); CA::scroll_index(&mut r, f); r[k] }
pub fn c20_scroll_index__spec(v: &Vec<C>, f: usize, k: usize) -> C { if f >= v.len() || k >= v.len() { return C::default(); } let mut r = v.to_vec(); CA::scroll_index_ensure_ring(&mut r, f, CA::is_ring(v)); r[k] }
/// scrolling to a coordinate scrolls to its first occurrence, if any
/// @opaque CoordinateArrays::scroll_index_ensure_ring
pub fn c20_scroll_to__impl(v: &Vec<C>, c: &C, k: usize) -> C { if k >= v.len() { return C::default(); } let mut r = v.to_vec(); CA::scroll_coordinate(&mut r, c); r[k] }
pub fn c20_scroll_to__spec(v: &Vec<C>, c: &C, k: usize) -> C {
    if k >= v.len() { return C::default(); }
    let mut r = v.to_vec();
    let i = CA::index_of(c, v);
    if i >= 0 { CA::scroll_index_ensure_ring(&mut r, i as usize, CA::is_ring(v)); }
    r[k]
}
/// extraction takes the inclusive stretch, cut off at the end of the array
pub fn c20_extract__impl(v: &Vec<C>, a: usize, b: usize) -> Vec<C> { CA::extract(v, a, b) }
pub fn c20_extract__spec(v: &Vec<C>, a: usize, b: usize) -> Vec<C> {
    let mut r: Vec<C> = vec![];
    let mut i = a;
    while i < v.len() && i <= b { r.push(v[i]); i += 1; }
    r
}
/// the envelope of an array is that of all its coordinates
pub fn c20_envelope__impl(v: &Vec<C>) -> Envelope { CA::envelope(v) }
pub fn c20_envelope__spec(v: &Vec<C>) -> Envelope {
    let mut e = Envelope::default();
    for c in v.iter() { e.expand_to_include_xy(c.x, c.y); }
    e
}
/// the intersection with an envelope keeps, in order, the coordinates in it
/// @opaque Envelope::intersects_coordinate
pub fn c20_intersection__impl(v: &Vec<C>, e: &Envelope) -> Vec<C> { CA::intersection(v, e) }
pub fn c20_intersection__spec(v: &Vec<C>, e: &Envelope) -> Vec<C> {
    let mut r: Vec<C> = vec![];
    for i in 0..v.len() { if e.intersects_coordinate(&v[i]) { r.push(v[i]); } }
    r
}
/// consistency with a stated layout keeps x and y, and z where the layout has it
pub fn c20_consistent__impl(v: &Vec<C>, d: i32, m: i32, k: usize) -> (usize, C) { if k >= v.len() { return (0, C::default()); } let r = CA::enforce_consistency_dim_measures(v, d, m); (r.len(), r[k]) }
pub fn c20_consistent__spec(v: &Vec<C>, d: i32, m: i32, k: usize) -> (usize, C) {
    if k >= v.len() { return (0, C::default()); }
    let mut c = Coordinates::create_dim_measures(d, m);
    c.set_coordinate(&v[k]);
    (v.len(), c)
}

// lists

/// a list built from coordinates holds them all in order; without repetition, one of each run
pub fn c20_list_new__impl(v: &Vec<C>) -> (Vec<C>, Vec<C>) { (CL::new(v.to_vec()).to_coordinate_array(), CL::new_with_repeated(v.to_vec(), true).to_coordinate_array()) }
pub fn c20_list_new__spec(v: &Vec<C>) -> (Vec<C>, Vec<C>) { (v.to_vec(), v.to_vec()) }
/// a list built without repetition keeps each coordinate that differs from the one kept before it
pub fn c20_list_norep__impl(v: &Vec<C>) -> Vec<C> { CL::new_with_repeated(v.to_vec(), false).to_coordinate_array() }
pub fn c20_list_norep__spec(v: &Vec<C>) -> Vec<C> {
    let mut r: Vec<C> = vec![];
    for i in 0..v.len() { if r.len() == 0 || !eq2(&r[r.len() - 1], &v[i]) { r.push(v[i]); } }
    r
}
/// adding a coordinate appends it, unless it repeats the last one and repetition is not wanted
pub fn c20_list_add__impl(v: &Vec<C>, c: &C, rep: bool) -> Vec<C> { let mut l = CL::new(v.to_vec()); l.add_coordinate_repeated(*c, rep); l.to_coordinate_array() }
pub fn c20_list_add__spec(v: &Vec<C>, c: &C, rep: bool) -> Vec<C> { let mut r = v.to_vec(); if rep || v.len() == 0 || !eq2(&v[v.len() - 1], c) { r.push(*c); } r }
/// inserting a coordinate puts it at the index, unless it repeats a neighbour and repetition is not wanted
pub fn c20_list_insert__impl(v: &Vec<C>, i: usize, c: &C, rep: bool, k: usize) -> (usize, C) {
    if i > v.len() { return (0, *c); }
    let mut l = CL::new(v.to_vec());
    l.add_index_coordinate_repeated(i, *c, rep);
    let r = l.to_coordinate_array();
    if k >= r.len() { return (r.len(), C::default()); }
    (r.len(), r[k])
}
pub fn c20_list_insert__spec(v: &Vec<C>, i: usize, c: &C, rep: bool, k: usize) -> (usize, C) {
    if i > v.len() { return (0, *c); }
    let n = v.len();
    if !rep && (i > 0 && eq2(&v[i - 1], c) || i < n && eq2(&v[i], c)) { return (n, if k >= n { C::default() } else { v[k] }); }
    if k > n { return (n + 1, C::default()); }
    (n + 1, if k < i { v[k] } else if k == i { *c } else { v[k - 1] })
}
/// a stretch is added from its start up to, not including, its end
pub fn c20_list_stretch__impl(v: &Vec<C>, w: &Vec<C>, a: usize, b: usize) -> Vec<C> { if a > b || b > w.len() { return vec![]; } let mut l = CL::new(v.to_vec()); l.add_coordinate_list_repeated_start_end(w, true, a, b); l.to_coordinate_array() }
pub fn c20_list_stretch__spec(v: &Vec<C>, w: &Vec<C>, a: usize, b: usize) -> Vec<C> { if a > b || b > w.len() { return vec![]; } let mut r = v.to_vec(); for i in a..b { r.push(w[i]); } r }
/// a stretch given backwards is added backwards
pub fn c20_list_back__impl(v: &Vec<C>, w: &Vec<C>, a: usize, b: usize) -> Vec<C> { if b > a || a >= w.len() { return vec![]; } let mut l = CL::new(v.to_vec()); l.add_coordinate_list_repeated_start_end(w, true, a, b); l.to_coordinate_array() }
pub fn c20_list_back__spec(v: &Vec<C>, w: &Vec<C>, a: usize, b: usize) -> Vec<C> { if b > a || a >= w.len() { return vec![]; } let mut r = v.to_vec(); let mut i = a; while i > b { r.push(w[i]); i -= 1; } r }
/// a list of coordinates is added forwards or backwards
pub fn c20_list_direction__impl(v: &Vec<C>, w: &Vec<C>, fwd: bool) -> Vec<C> { let mut l = CL::new(v.to_vec()); l.add_coordinate_list_repeated_direction(w, true, fwd); l.to_coordinate_array() }
pub fn c20_list_direction__spec(v: &Vec<C>, w: &Vec<C>, fwd: bool) -> Vec<C> { let mut r = v.to_vec(); for i in 0..w.len() { r.push(if fwd { w[i] } else { w[w.len() - 1 - i] }); } r }
/// adding a collection reports a change when it is not empty and appends it
pub fn c20_list_all__impl(v: &Vec<C>, w: &Vec<C>) -> (bool, Vec<C>) { let mut l = CL::new(v.to_vec()); let b = l.add_all(w.to_vec(), true); (b, l.to_coordinate_array()) }
pub fn c20_list_all__spec(v: &Vec<C>, w: &Vec<C>) -> (bool, Vec<C>) { let mut r = v.to_vec(); for i in 0..w.len() { r.push(w[i]); } (w.len() > 0, r) }
/// closing a list repeats its first coordinate at the end unless already there
pub fn c20_list_close__impl(v: &Vec<C>) -> Vec<C> { let mut l = CL::new(v.to_vec()); l.close_ring(); l.to_coordinate_array() }
pub fn c20_list_close__spec(v: &Vec<C>) -> Vec<C> { let mut r = v.to_vec(); if v.len() > 0 && !eq2(&v[0], &v[v.len() - 1]) { r.push(v[0]); } r }
/// a list is read forwards or backwards
pub fn c20_list_read__impl(v: &Vec<C>, fwd: bool, k: usize) -> (usize, C, Option<C>) { let l = CL::new(v.to_vec()); if k >= v.len() { return (0, C::default(), l.get_coordinate(k)); } let r = l.to_coordinate_array_forward(fwd); (r.len(), r[k], l.get_coordinate(k)) }
pub fn c20_list_read__spec(v: &Vec<C>, fwd: bool, k: usize) -> (usize, C, Option<C>) { if k >= v.len() { return (0, C::default(), None); } (v.len(), if fwd { v[k] } else { v[v.len() - 1 - k] }, Some(v[k])) }
/// making an array consistent raises every coordinate to the largest dimension and measure count present, and changes nothing when all agree
pub fn c20_consistent_vec__impl(a: &C, b: &C, c: &C) -> Vec<C> { let mut v = vec![*a, *b, *c]; CA::enforce_consistency(&mut v); v }
pub fn c20_consistent_vec__spec(a: &C, b: &C, c: &C) -> Vec<C> {
    let (da, db, dc) = (Coordinates::dimension(a), Coordinates::dimension(b), Coordinates::dimension(c));
    let (ma, mb, mc) = (Coordinates::measures(a), Coordinates::measures(b), Coordinates::measures(c));
    if da == db && db == dc && ma == mb && mb == mc { return vec![*a, *b, *c]; }
    let (d, m) = (da.max(db).max(dc), ma.max(mb).max(mc));
    let f = |p: &C| { let mut n = Coordinates::create_dim_measures(d, m); n.set_coordinate(p); n };
    vec![f(a), f(b), f(c)]
}
fn put(r: &mut Vec<C>, c: &C, rep: bool) { if rep || r.len() == 0 || !eq2(&r[r.len() - 1], c) { r.push(*c); } }
/// a stretch, given forwards or backwards, is added without what repeats the last coordinate when repetition is not wanted
pub fn c20_list_stretch_norep__impl(v: &Vec<C>, w: &Vec<C>, a: usize, b: usize) -> Vec<C> { if a > b || b > w.len() { return vec![]; } let mut l = CL::new(v.to_vec()); l.add_coordinate_list_repeated_start_end(w, false, a, b); l.to_coordinate_array() }
pub fn c20_list_stretch_norep__spec(v: &Vec<C>, w: &Vec<C>, a: usize, b: usize) -> Vec<C> { if a > b || b > w.len() { return vec![]; } let mut r = CL::new(v.to_vec()).to_coordinate_array(); let mut i = a; while i != b { put(&mut r, &w[i], false); i += 1; } r }
pub fn c20_list_back_norep__impl(v: &Vec<C>, w: &Vec<C>, a: usize, b: usize) -> Vec<C> { if b > a || a >= w.len() { return vec![]; } let mut l = CL::new(v.to_vec()); l.add_coordinate_list_repeated_start_end(w, false, a, b); l.to_coordinate_array() }
pub fn c20_list_back_norep__spec(v: &Vec<C>, w: &Vec<C>, a: usize, b: usize) -> Vec<C> { if b > a || a >= w.len() { return vec![]; } let mut r = CL::new(v.to_vec()).to_coordinate_array(); let mut i = a; while i != b { put(&mut r, &w[i], false); i -= 1; } r }
/// a list of coordinates is added forwards or backwards without what repeats the last coordinate
pub fn c20_list_direction_norep__impl(v: &Vec<C>, w: &Vec<C>, fwd: bool) -> Vec<C> { let mut l = CL::new(v.to_vec()); l.add_coordinate_list_repeated_direction(w, false, fwd); l.to_coordinate_array() }
pub fn c20_list_direction_norep__spec(v: &Vec<C>, w: &Vec<C>, fwd: bool) -> Vec<C> {
    let mut r = CL::new(v.to_vec()).to_coordinate_array();
    if fwd { for i in 0..w.len() { put(&mut r, &w[i], false); } } else { for i in 0..w.len() { put(&mut r, &w[w.len() - 1 - i], false); } }
    r
}
/// a collection added without repetition, and the plain list form
pub fn c20_list_all_norep__impl(v: &Vec<C>, w: &Vec<C>, rep: bool) -> (bool, Vec<C>, Vec<C>) {
    let (mut l, mut m) = (CL::new(v.to_vec()), CL::new(v.to_vec()));
    let b = l.add_all(w.to_vec(), false);
    m.add_coordinate_list_repeated(w, rep);
    (b, l.to_coordinate_array(), m.to_coordinate_array())
}
pub fn c20_list_all_norep__spec(v: &Vec<C>, w: &Vec<C>, rep: bool) -> (bool, Vec<C>, Vec<C>) {
    let (mut r, mut q) = (CL::new(v.to_vec()).to_coordinate_array(), CL::new(v.to_vec()).to_coordinate_array());
    for i in 0..w.len() { put(&mut r, &w[i], false); }
    for i in 0..w.len() { put(&mut q, &w[i], rep); }
    (w.len() > 0, r, q)
}
/// a packed sequence of coordinates alone has three dimensions and no measure; a created coordinate is the default one
pub fn c20_packed_plain__impl(v: &Vec<Coordinate>) -> (Vec<f64>, i32, i32, Coordinate) {
    let q = crate::core::geom::implementation::packed_coordinate_sequence_double::PackedCoordinateSequenceDouble::new_with_coordinates(v);
    (q.get_raw_coordinates(), q.get_dimension(), q.get_measures(), Coordinate::create())
}
pub fn c20_packed_plain__spec(v: &Vec<Coordinate>) -> (Vec<f64>, i32, i32, Coordinate) {
    let q = crate::core::geom::implementation::packed_coordinate_sequence_double::PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(v, 3, 0);
    (q.get_raw_coordinates(), 3, 0, Coordinate::default())
}

// C07: sequence comparison.
use crate::core::geom::coordinate_sequence_comparator::CoordinateSequenceComparator;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence;

/// compare_f64 is a total order with all NaN equal and below every number
/// @mode nan
pub fn c07_f64__impl(a: f64, b: f64) -> i32 { CoordinateSequenceComparator::compare_f64(a, b) }
pub fn c07_f64__spec(a: f64, b: f64) -> i32 {
    if a.is_nan() { return if b.is_nan() { 0 } else { -1 }; }
    if b.is_nan() { return 1; }
    if a < b { -1 } else if a == b { 0 } else { 1 }
}
/// compare_f64 is transitive
/// @mode nan
pub fn c07_f64_trans__law(a: f64, b: f64, c: f64) -> bool {
    let f = CoordinateSequenceComparator::compare_f64;
    !(f(a, b) <= 0 && f(b, c) <= 0) || f(a, c) <= 0
}
/// compare_f64 is antisymmetric
/// @mode nan
pub fn c07_f64_antisym__law(a: f64, b: f64) -> bool {
    CoordinateSequenceComparator::compare_f64(a, b) == -CoordinateSequenceComparator::compare_f64(b, a)
}
/// coordinates of two sequences compare ordinate by ordinate, first difference deciding
/// @mode nan
/// @opaque CoordinateSequenceComparator::compare_f64
pub fn c07_coordinate__impl(s: &CoordinateArraySequence, t: &CoordinateArraySequence, i: i32, d: i32) -> i32 {
    CoordinateSequenceComparator::compare_coordinate(s, t, i, d)
}
pub fn c07_coordinate__spec(s: &CoordinateArraySequence, t: &CoordinateArraySequence, i: i32, d: i32) -> i32 {
    let mut k = 0;
    while k < d {
        let c = CoordinateSequenceComparator::compare_f64(s.get_ordinate(i as usize, k), t.get_ordinate(i as usize, k));
        if c != 0 { return c; }
        k += 1;
    }
    0
}
/// sequences compare by dimension (unless limited), then coordinate by coordinate, then by length
/// @mode nan
/// @opaque CoordinateSequenceComparator::compare_coordinate
pub fn c07_sequences__impl(l: i32, s: &CoordinateArraySequence, t: &CoordinateArraySequence) -> i32 {
    CoordinateSequenceComparator::new_with_dimension_limit(l).compare_coordinate_array_sequence(s, t)
}
pub fn c07_sequences__spec(l: i32, s: &CoordinateArraySequence, t: &CoordinateArraySequence) -> i32 {
    let (d, e) = (s.get_dimension(), t.get_dimension());
    let least = if d < e { d } else { e };
    if l > least {
        if d < e { return -1; }
        if d > e { return 1; }
    }
    let dims = if l < least { l } else { least };
    let mut i = 0;
    loop {
        if i >= s.size() { return if i < t.size() { -1 } else { 0 }; }
        if i >= t.size() { return 1; }
        let c = CoordinateSequenceComparator::compare_coordinate(s, t, i as i32, dims);
        if c != 0 { return c; }
        i += 1;
    }
}
/// the default comparator has no dimension limit
/// @mode nan
/// @opaque CoordinateSequenceComparator::compare_coordinate
pub fn c07_default__impl(s: &CoordinateArraySequence, t: &CoordinateArraySequence) -> i32 {
    CoordinateSequenceComparator::default().compare_coordinate_array_sequence(s, t)
}
pub fn c07_default__spec(s: &CoordinateArraySequence, t: &CoordinateArraySequence) -> i32 {
    c07_sequences__spec(i32::MAX, s, t)
}

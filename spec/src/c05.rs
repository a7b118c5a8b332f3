// C05: DE-9IM intersection matrices.
use crate::core::geom::dimension::Dimension;
use crate::core::geom::intersection_matrix::IntersectionMatrix;

type M = [i32; 9];
pub fn cells(m: &IntersectionMatrix) -> M {
    [m.get(0, 0), m.get(0, 1), m.get(0, 2), m.get(1, 0), m.get(1, 1), m.get(1, 2), m.get(2, 0), m.get(2, 1), m.get(2, 2)]
}
pub fn make(c: M) -> IntersectionMatrix {
    let mut m = IntersectionMatrix::default();
    m.set_row_column_value(0, 0, c[0]); m.set_row_column_value(0, 1, c[1]); m.set_row_column_value(0, 2, c[2]);
    m.set_row_column_value(1, 0, c[3]); m.set_row_column_value(1, 1, c[4]); m.set_row_column_value(1, 2, c[5]);
    m.set_row_column_value(2, 0, c[6]); m.set_row_column_value(2, 1, c[7]); m.set_row_column_value(2, 2, c[8]);
    m
}
/// a cell is non-empty
fn t(v: i32) -> bool { v >= 0 || v == -2 }
fn f(v: i32) -> bool { v == -1 }
const II: usize = 0;
const IB: usize = 1;
const IE: usize = 2;
const BI: usize = 3;
const BB: usize = 4;
const BE: usize = 5;
const EI: usize = 6;
const EB: usize = 7;

/// a new matrix is all FALSE; set and get agree cell by cell; a copy and set_all have every cell
pub fn c05_cells__impl(m: &IntersectionMatrix, r: usize, c: usize, v: i32, i: usize, j: usize) -> (M, M, M, i32) {
    let mut w = IntersectionMatrix::new_from_intersection_matrix(m);
    w.set_all(v);
    let mut z = IntersectionMatrix::default();
    z.set_row_column_value(r, c, v);
    (cells(&IntersectionMatrix::default()), cells(&IntersectionMatrix::new_from_intersection_matrix(m)), cells(&w), z.get(i, j))
}
pub fn c05_cells__spec(m: &IntersectionMatrix, r: usize, c: usize, v: i32, i: usize, j: usize) -> (M, M, M, i32) {
    ([-1; 9], cells(m), [v; 9], if i == r && j == c { v } else { -1 })
}
/// set_at_least and add raise cells to the maximum, never lower them
pub fn c05_at_least__impl(a: M, b: M, v: i32) -> (M, i32, i32) {
    let (mut x, y) = (make(a), make(b));
    let (mut p, mut q) = (make(a), make(a));
    x.add(&y);
    p.set_at_least_row_column_dimension(1, 2, v);
    q.set_at_least_row_column_dimension_if_valid(2, 1, v);
    (cells(&x), p.get(1, 2), q.get(2, 1))
}
pub fn c05_at_least__spec(a: M, b: M, v: i32) -> (M, i32, i32) {
    let m = |x: i32, y: i32| if x < y { y } else { x };
    ([m(a[0], b[0]), m(a[1], b[1]), m(a[2], b[2]), m(a[3], b[3]), m(a[4], b[4]), m(a[5], b[5]), m(a[6], b[6]), m(a[7], b[7]), m(a[8], b[8])],
     m(a[5], v), m(a[7], v))
}
/// disjoint: FF*FF****; intersects is its negation
pub fn c05_disjoint__impl(a: M) -> (bool, bool) { let m = make(a); (m.is_disjoint(), m.is_intersects()) }
pub fn c05_disjoint__spec(a: M) -> (bool, bool) {
    let d = f(a[II]) && f(a[IB]) && f(a[BI]) && f(a[BB]);
    (d, !d)
}
/// within: T*F**F***
pub fn c05_within__impl(a: M) -> bool { make(a).is_within() }
pub fn c05_within__spec(a: M) -> bool { t(a[II]) && f(a[IE]) && f(a[BE]) }
/// contains: T*****FF*
pub fn c05_contains__impl(a: M) -> bool { make(a).is_contains() }
pub fn c05_contains__spec(a: M) -> bool { t(a[II]) && f(a[EI]) && f(a[EB]) }
/// covers: T*****FF* or *T****FF* or ***T**FF* or ****T*FF*
pub fn c05_covers__impl(a: M) -> bool { make(a).is_covers() }
pub fn c05_covers__spec(a: M) -> bool { (t(a[II]) || t(a[IB]) || t(a[BI]) || t(a[BB])) && f(a[EI]) && f(a[EB]) }
/// covered by: the transpose of covers
pub fn c05_covered_by__impl(a: M) -> bool { make(a).is_covered_by() }
pub fn c05_covered_by__spec(a: M) -> bool { (t(a[II]) || t(a[IB]) || t(a[BI]) || t(a[BB])) && f(a[IE]) && f(a[BE]) }
/// equals: T*F**FFF* between geometries of the same dimension
pub fn c05_equals__impl(a: M, d: i32, e: i32) -> bool { make(a).is_equals(d, e) }
pub fn c05_equals__spec(a: M, d: i32, e: i32) -> bool { d == e && t(a[II]) && f(a[IE]) && f(a[BE]) && f(a[EI]) && f(a[EB]) }
/// touches: FT*******, F**T***** or F***T****, for every pair of dimensions but point/point
pub fn c05_touches__impl(a: M, d: i32, e: i32) -> bool { make(a).is_touches(d, e) }
pub fn c05_touches__spec(a: M, d: i32, e: i32) -> bool {
    let ok = |x: i32| x == 0 || x == 1 || x == 2;
    ok(d) && ok(e) && !(d == 0 && e == 0) && f(a[II]) && (t(a[IB]) || t(a[BI]) || t(a[BB]))
}
/// crosses: T*T****** upwards, T*****T** downwards, 0******** for lines
pub fn c05_crosses__impl(a: M, d: i32, e: i32) -> bool { make(a).is_crosses(d, e) }
pub fn c05_crosses__spec(a: M, d: i32, e: i32) -> bool {
    match (d, e) {
        (0, 1) | (0, 2) | (1, 2) => t(a[II]) && t(a[IE]),
        (1, 0) | (2, 0) | (2, 1) => t(a[II]) && t(a[EI]),
        (1, 1) => a[II] == 0,
        _ => false,
    }
}
/// overlaps: T*T***T** for points and areas, 1*T***T** for lines
pub fn c05_overlaps__impl(a: M, d: i32, e: i32) -> bool { make(a).is_overlaps(d, e) }
pub fn c05_overlaps__spec(a: M, d: i32, e: i32) -> bool {
    match (d, e) {
        (0, 0) | (2, 2) => t(a[II]) && t(a[IE]) && t(a[EI]),
        (1, 1) => a[II] == 1 && t(a[IE]) && t(a[EI]),
        _ => false,
    }
}
/// transposing exchanges the two geometries
pub fn c05_transpose__impl(a: M) -> M { let mut m = make(a); m.transpose(); cells(&m) }
pub fn c05_transpose__spec(a: M) -> M { [a[0], a[3], a[6], a[1], a[4], a[7], a[2], a[5], a[8]] }
/// the relations are consistent under transposition
pub fn c05_transpose_relations__impl(a: M, d: i32, e: i32) -> [bool; 8] {
    let mut m = make(a);
    m.transpose();
    [m.is_disjoint(), m.is_intersects(), m.is_within(), m.is_contains(), m.is_covers(), m.is_covered_by(), m.is_equals(e, d), m.is_overlaps(e, d)]
}
pub fn c05_transpose_relations__spec(a: M, d: i32, e: i32) -> [bool; 8] {
    let m = make(a);
    [m.is_disjoint(), m.is_intersects(), m.is_contains(), m.is_within(), m.is_covered_by(), m.is_covers(), m.is_equals(d, e), m.is_overlaps(d, e)]
}
/// matrix equality compares all nine cells
pub fn c05_eq__impl(a: M, b: M) -> bool { make(a).equals(&make(b)) }
pub fn c05_eq__spec(a: M, b: M) -> bool {
    a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5] && a[6] == b[6] && a[7] == b[7] && a[8] == b[8]
}
/// one dimension value against one pattern symbol
pub fn c05_symbol__impl(v: i32, s: char) -> bool { IntersectionMatrix::matches_i32_char(v, s) }
pub fn c05_symbol__spec(v: i32, s: char) -> bool {
    match s { '*' => true, 'T' => v >= 0 || v == -2, 'F' => v == -1, '0' => v == 0, '1' => v == 1, '2' => v == 2, _ => false }
}
/// a pattern matches when it has nine symbols and each cell matches its symbol, row by row
/// @opaque IntersectionMatrix::matches_i32_char
pub fn c05_pattern__impl(m: &IntersectionMatrix, p: String) -> bool { m.matches_string(p) }
pub fn c05_pattern__spec(m: &IntersectionMatrix, p: String) -> bool {
    if p.len() != 9 { return false; }
    let mut i = 0;
    while i < 9 {
        match p.chars().nth(i) {
            Some(s) => if !IntersectionMatrix::matches_i32_char(m.get(i / 3, i % 3), s) { return false; },
            None => return false,
        }
        i += 1;
    }
    true
}
/// the named relations are the standard patterns
pub fn c05_patterns__impl(a: M) -> [bool; 3] { let m = make(a); [m.is_within(), m.is_contains(), m.is_disjoint()] }
pub fn c05_patterns__spec(a: M) -> [bool; 3] {
    let m = make(a);
    [m.matches_string("T*F**F***".to_string()), m.matches_string("T*****FF*".to_string()), m.matches_string("FF*FF****".to_string())]
}
/// reading nine symbols sets the nine cells in order
pub fn c05_set_string__impl() -> (M, M) {
    let mut m = IntersectionMatrix::default();
    m.set_all(2);
    m.set_at_least_string("012TF*FT2".to_string());
    (cells(&IntersectionMatrix::new_with_elements("012TF*FT2".to_string())), cells(&m))
}
pub fn c05_set_string__spec() -> (M, M) { ([0, 1, 2, -2, -1, -3, -1, -2, 2], [2; 9]) }
/// symbols are applied in row order, one per cell
pub fn c05_string_order__impl(a: M) -> [M; 3] {
    let (mut p, mut q, mut r) = (make(a), make(a), make(a));
    p.set_at_least_string("012012012".to_string());
    q.set_at_least_string("000111222".to_string());
    r.set_string("012TF*FT2".to_string());
    [cells(&p), cells(&q), cells(&r)]
}
pub fn c05_string_order__spec(a: M) -> [M; 3] {
    let m = |x: i32, y: i32| if x < y { y } else { x };
    [[m(a[0], 0), m(a[1], 1), m(a[2], 2), m(a[3], 0), m(a[4], 1), m(a[5], 2), m(a[6], 0), m(a[7], 1), m(a[8], 2)],
     [m(a[0], 0), m(a[1], 0), m(a[2], 0), m(a[3], 1), m(a[4], 1), m(a[5], 1), m(a[6], 2), m(a[7], 2), m(a[8], 2)],
     [0, 1, 2, -2, -1, -3, -1, -2, 2]]
}
/// the text of a matrix is the symbols of its cells, row by row
pub fn c05_text__impl(a: M) -> String { make(a).to_string() }
pub fn c05_text__spec(a: M) -> String {
    let mut s = String::new();
    let mut k = 0;
    while k < 9 {
        match Dimension::to_dimension_symbol(a[k]) { Some(c) => s.push(c), None => {} }
        k += 1;
    }
    s
}
/// a pattern given as text matches a matrix given as text when it matches the matrix read from it
/// @opaque IntersectionMatrix::set_string, IntersectionMatrix::matches_string
pub fn c05_two_texts__impl(a: String, b: String) -> bool { if a.len() > 9 { return true; } IntersectionMatrix::matches_string_string(a, b) }
pub fn c05_two_texts__spec(a: String, b: String) -> bool {
    if a.len() > 9 { return true; }
    let mut m = IntersectionMatrix::default();
    m.set_string(a);
    m.matches_string(b)
}

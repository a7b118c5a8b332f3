// C28: linear systems.
use crate::core::math::matrix::Matrix;

/// swapping rows exchanges every entry of the two and leaves the others
pub fn c28_swap_1d__impl(v: &Vec<f64>, i: usize, j: usize, k: usize) -> (f64, usize) {
    if i >= v.len() || j >= v.len() || k >= v.len() { return (0.0, 0); }
    let mut w = v.to_vec();
    Matrix::swap_rows_1d(&mut w, i, j);
    (w[k], w.len())
}
pub fn c28_swap_1d__spec(v: &Vec<f64>, i: usize, j: usize, k: usize) -> (f64, usize) {
    if i >= v.len() || j >= v.len() || k >= v.len() { return (0.0, 0); }
    (if k == i { v[j] } else if k == j { v[i] } else { v[k] }, v.len())
}
/// swapping rows of a matrix exchanges every entry of the two
pub fn c28_swap_2d__impl(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> (Vec<Vec<f64>>, Vec<Vec<f64>>, Vec<Vec<f64>>) {
    let m = vec![vec![a, b], vec![c, d], vec![e, f]];
    let (mut p, mut q, mut r) = (m.clone(), m.clone(), m.clone());
    Matrix::swap_rows_2d(&mut p, 0, 2);
    Matrix::swap_rows_2d(&mut q, 2, 1);
    Matrix::swap_rows_2d(&mut r, 1, 1);
    (p, q, r)
}
pub fn c28_swap_2d__spec(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> (Vec<Vec<f64>>, Vec<Vec<f64>>, Vec<Vec<f64>>) {
    (vec![vec![e, f], vec![c, d], vec![a, b]], vec![vec![a, b], vec![e, f], vec![c, d]], vec![vec![a, b], vec![c, d], vec![e, f]])
}
/// one equation: the quotient, none when the coefficient is zero
pub fn c28_one__impl(a: f64, b: f64) -> Option<Vec<f64>> { Matrix::solve(&mut vec![vec![a]], &mut vec![b]) }
pub fn c28_one__spec(a: f64, b: f64) -> Option<Vec<f64>> { if a == 0.0 { None } else { Some(vec![b / a]) } }
fn det2(a: f64, b: f64, c: f64, d: f64) -> f64 { a * d - b * c }
/// two equations: Cramer's rule, none exactly when singular
/// @mode real
pub fn c28_two__impl(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> Option<(f64, f64)> {
    match Matrix::solve(&mut vec![vec![a, b], vec![c, d]], &mut vec![e, f]) { Some(v) => Some((v[0], v[1])), None => None }
}
pub fn c28_two__spec(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> Option<(f64, f64)> {
    let t = det2(a, b, c, d);
    if t == 0.0 { return None; }
    Some((det2(e, b, f, d) / t, det2(a, e, c, f) / t))
}
/// three equations in upper triangular form, in any order needing two exchanges
/// @mode real
pub fn c28_three_permuted__impl(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, p: f64, q: f64, r: f64) -> Option<(f64, f64, f64)> {
    match Matrix::solve(&mut vec![vec![0.0, d, e], vec![0.0, 0.0, f], vec![a, b, c]], &mut vec![q, r, p]) { Some(v) => Some((v[0], v[1], v[2])), None => None }
}
pub fn c28_three_permuted__spec(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, p: f64, q: f64, r: f64) -> Option<(f64, f64, f64)> {
    if a == 0.0 || d == 0.0 || f == 0.0 { return None; }
    let z = r / f;
    let y = (q - e * z) / d;
    Some(((p - b * y - c * z) / a, y, z))
}
/// three equations whose first coefficient is 1 and second and third rows start with 0 or 1
/// @mode real
pub fn c28_three_eliminated__impl(b: f64, c: f64, e: f64, f: f64, i: f64, p: f64, q: f64, r: f64) -> Option<(f64, f64, f64)> {
    match Matrix::solve(&mut vec![vec![1.0, b, c], vec![1.0, e, f], vec![0.0, 0.0, i]], &mut vec![p, q, r]) { Some(v) => Some((v[0], v[1], v[2])), None => None }
}
pub fn c28_three_eliminated__spec(b: f64, c: f64, e: f64, f: f64, i: f64, p: f64, q: f64, r: f64) -> Option<(f64, f64, f64)> {
    if e == b || i == 0.0 { return None; }
    let z = r / i;
    let y = (q - p - (f - c) * z) / (e - b);
    Some((p - b * y - c * z, y, z))
}
/// three equations solved with the coefficients of the last row below the others' pivots
/// @mode real
pub fn c28_three_last__impl(h: f64, i: f64, p: f64, q: f64, r: f64) -> Option<(f64, f64, f64)> {
    match Matrix::solve(&mut vec![vec![2.0, 1.0, 3.0], vec![1.0, 5.0, -1.0], vec![-1.0, h, i]], &mut vec![p, q, r]) { Some(v) => Some((v[0], v[1], v[2])), None => None }
}
pub fn c28_three_last__spec(h: f64, i: f64, p: f64, q: f64, r: f64) -> Option<(f64, f64, f64)> {
    // from the first two: x = (5p - q - 16z) / 9, y = (2q - p + 5z) / 9
    let t = 16.0 + 5.0 * h + 9.0 * i;
    if t == 0.0 { return None; }
    let z = (9.0 * r + 5.0 * p - q - h * (2.0 * q - p)) / t;
    Some(((5.0 * p - q - 16.0 * z) / 9.0, (2.0 * q - p + 5.0 * z) / 9.0, z))
}
/// a system whose sizes disagree has no solution
pub fn c28_sizes__impl(a: &Vec<Vec<f64>>, b: &Vec<f64>) -> bool {
    if a.len() == 0 || a.len() == b.len() && a[0].len() == b.len() { return true; }
    Matrix::solve(&mut a.clone(), &mut b.clone()).is_none()
}
pub fn c28_sizes__spec(_a: &Vec<Vec<f64>>, _b: &Vec<f64>) -> bool { true }

/// rows of any pair of positions are exchanged
pub fn c28_swap_any__impl(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, i: usize, j: usize, k: usize, l: usize) -> f64 {
    if i > 2 || j > 2 || k > 2 || l > 1 { return 0.0; }
    let mut m = vec![vec![a, b], vec![c, d], vec![e, f]];
    Matrix::swap_rows_2d(&mut m, i, j);
    m[k][l]
}
pub fn c28_swap_any__spec(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, i: usize, j: usize, k: usize, l: usize) -> f64 {
    if i > 2 || j > 2 || k > 2 || l > 1 { return 0.0; }
    let r = if k == i { j } else if k == j { i } else { k };
    if r == 0 { if l == 0 { a } else { b } } else if r == 1 { if l == 0 { c } else { d } } else { if l == 0 { e } else { f } }
}

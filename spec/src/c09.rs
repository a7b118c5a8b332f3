// C09: extended-precision arithmetic keeps its error terms (compared as IEEE double expressions).
use crate::core::math::dd::DD;
fn dd(hi: f64, lo: f64) -> DD { DD::new_hi_lo(hi, lo) }
/// rounded sum and the exact error (Knuth)
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (b - bb) + (a - (s - bb)))
}
/// the leading word (floor never touches the low word when hi is not integral)
fn hi(x: &DD) -> f64 { let mut y = *x; y.self_add_f64(0.0); y.double_value() }
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a;
    let h = t - (t - a);
    (h, a - h)
}
/// rounded product and the exact error (Veltkamp / Dekker)
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let ((ah, al), (bh, bl)) = (split(a), split(b));
    (p, (((ah * bh - p) + ah * bl) + al * bh) + al * bl)
}
/// hi + small, renormalised
fn quick(h: f64, l: f64) -> (f64, f64) {
    let s = h + l;
    (s, l + (h - s))
}
fn add(a: f64, b: f64, c: f64, d: f64) -> DD {
    let (s, e) = two_sum(a, c);
    let (t, f) = two_sum(b, d);
    let (s, e) = quick(s, e + t);
    let (s, e) = quick(s, f + e);
    dd(s, e)
}
fn add1(a: f64, b: f64, c: f64) -> DD {
    let (s, e) = two_sum(a, c);
    let (s, e) = quick(s, e + b);
    let (s, e) = quick(s, e);
    dd(s, e)
}
fn mul(a: f64, b: f64, c: f64, d: f64) -> DD {
    let (p, e) = two_prod(a, c);
    let (s, e) = quick(p, e + (a * d + b * c));
    dd(s, e)
}
fn div(a: f64, b: f64, c: f64, d: f64) -> DD {
    let q = a / c;
    let (p, e) = two_prod(q, c);
    let r = ((((a - p) - e) + b) - q * d) / c;
    let s = q + r;
    dd(s, (q - s) + r)
}

/// sums carry both error terms
/// @mode fp
pub fn c09_add__impl(a: f64, b: f64, c: f64, d: f64) -> (DD, DD) {
    let mut z = dd(a, b);
    z.self_add_dd(&dd(c, d));
    (dd(a, b).add_dd(&dd(c, d)), z)
}
pub fn c09_add__spec(a: f64, b: f64, c: f64, d: f64) -> (DD, DD) { let s = add(a, b, c, d); (s, s) }
/// sums with a double carry the error term
/// @mode fp
pub fn c09_add_double__impl(a: f64, b: f64, c: f64) -> (DD, DD) {
    let mut z = dd(a, b);
    z.self_add_f64(c);
    (dd(a, b).add_f64(c), z)
}
pub fn c09_add_double__spec(a: f64, b: f64, c: f64) -> (DD, DD) { let s = add1(a, b, c); (s, s) }
/// differences are sums with the negated operand
/// @mode fp
pub fn c09_sub__impl(a: f64, b: f64, c: f64, d: f64) -> (DD, DD, DD) {
    let (mut y, mut z) = (dd(a, b), dd(a, b));
    y.self_subtract_dd(&dd(c, d));
    z.self_subtract_f64(c);
    (dd(a, b).subtract_dd(&dd(c, d)), y, z)
}
pub fn c09_sub__spec(a: f64, b: f64, c: f64, d: f64) -> (DD, DD, DD) { (add(a, b, -c, -d), add(a, b, -c, -d), add(a, b, -c, 0.0)) }
/// subtracting a double
/// @mode fp
pub fn c09_sub_double__impl(a: f64, b: f64, c: f64) -> DD { dd(a, b).subtract_f64(c) }
pub fn c09_sub_double__spec(a: f64, b: f64, c: f64) -> DD { add1(a, b, -c) }
/// products carry the split error term and the cross terms
/// @mode fp
pub fn c09_mul__impl(a: f64, b: f64, c: f64, d: f64) -> (DD, DD) {
    let mut z = dd(a, b);
    z.self_multiply_dd(&dd(c, d));
    (dd(a, b).multiply_dd(&dd(c, d)), z)
}
pub fn c09_mul__spec(a: f64, b: f64, c: f64, d: f64) -> (DD, DD) { let s = mul(a, b, c, d); (s, s) }
/// products with a double
/// @mode fp
pub fn c09_mul_double__impl(a: f64, b: f64, c: f64) -> (DD, DD) {
    let mut z = dd(a, b);
    z.self_multiply_f64(c);
    (dd(a, b).multiply_f64(c), z)
}
pub fn c09_mul_double__spec(a: f64, b: f64, c: f64) -> (DD, DD) { let s = mul(a, b, c, 0.0); (s, s) }
/// quotients carry the remainder of the leading quotient
/// @mode fp
pub fn c09_div__impl(a: f64, b: f64, c: f64, d: f64) -> (DD, DD) {
    let mut z = dd(a, b);
    z.self_divide_dd(&dd(c, d));
    (dd(a, b).divide_dd(&dd(c, d)), z)
}
pub fn c09_div__spec(a: f64, b: f64, c: f64, d: f64) -> (DD, DD) { let s = div(a, b, c, d); (s, s) }
/// quotients by a double
/// @mode fp
pub fn c09_div_double__impl(a: f64, b: f64, c: f64) -> (DD, DD) {
    let mut z = dd(a, b);
    z.self_divide_f64(c);
    (dd(a, b).divide_f64(c), z)
}
pub fn c09_div_double__spec(a: f64, b: f64, c: f64) -> (DD, DD) { let s = div(a, b, c, 0.0); (s, s) }
/// the reciprocal is the quotient of one
/// @mode fp
pub fn c09_reciprocal__impl(a: f64, b: f64) -> DD { dd(a, b).reciprocal() }
pub fn c09_reciprocal__spec(a: f64, b: f64) -> DD {
    let q = 1.0 / a;
    let (p, e) = two_prod(q, a);
    let r = (((1.0 - p) - e) - q * b) / a;
    let s = q + r;
    dd(s, (q - s) + r)
}
/// squares are products
/// @mode fp
pub fn c09_sqr__impl(a: f64, b: f64, c: f64) -> (DD, DD, DD) {
    let mut z = dd(a, b);
    z.self_sqr();
    (dd(a, b).sqr(), z, dd(a, b).sqr_f64(c))
}
pub fn c09_sqr__spec(a: f64, b: f64, c: f64) -> (DD, DD, DD) { (mul(a, b, a, b), mul(a, b, a, b), mul(c, 0.0, c, 0.0)) }
/// determinants are x1*y2 - y1*x2
/// @mode fp
pub fn c09_determinant__impl(a: f64, b: f64, c: f64, d: f64) -> DD { DD::determinant_xy_f64(a, b, c, d) }
pub fn c09_determinant__spec(a: f64, b: f64, c: f64, d: f64) -> DD {
    let m = dd(a, 0.0).multiply_dd(&dd(d, 0.0));
    m.subtract_dd(&dd(b, 0.0).multiply_dd(&dd(c, 0.0)))
}
/// in exact arithmetic every operation is the mathematical one
pub fn c09_exact__impl(a: f64, b: f64, c: f64, d: f64) -> [f64; 8] {
    let (x, y) = (dd(a, b), dd(c, d));
    [x.add_dd(&y).double_value(), x.add_f64(c).double_value(), x.subtract_dd(&y).double_value(), x.subtract_f64(c).double_value(),
     x.multiply_f64(c).double_value(), x.divide_f64(c).double_value(),
     DD::determinant_xy_f64(a, b, c, d).double_value(), dd(a, 0.0).sqr().double_value()]
}
pub fn c09_exact__spec(a: f64, b: f64, c: f64, d: f64) -> [f64; 8] {
    [a + b + c + d, a + b + c, a + b - c - d, a + b - c, (a + b) * c, (a + b) / c, a * d - b * c, a * a]
}
/// square roots: zero of zero, NaN of negatives, otherwise the leading root plus one Newton correction
pub fn c09_sqrt__impl(a: f64) -> f64 { dd(a, 0.0).sqrt_dd().double_value() }
pub fn c09_sqrt__spec(a: f64) -> f64 {
    if a == 0.0 { return 0.0; }
    if a < 0.0 { return f64::NAN; }
    let x = 1.0 / a.sqrt();
    let ax = a * x;
    ax + (a - ax * ax) * (x * 0.5)
}
/// powers by repeated squaring are products; negative exponents give the reciprocal
pub fn c09_pow__impl(a: f64) -> [f64; 7] {
    let x = dd(a, 0.0);
    [x.pow(0).double_value(), x.pow(1).double_value(), x.pow(2).double_value(), x.pow(3).double_value(), x.pow(5).double_value(), x.pow(6).double_value(), x.pow(8).double_value()]
}
pub fn c09_pow__spec(a: f64) -> [f64; 7] {
    [1.0, a, a * a, a * a * a, a * a * a * a * a, a * a * a * a * a * a, a * a * a * a * a * a * a * a]
}
/// the named constants are the double-doubles nearest to them, default is zero
pub fn c09_constants__impl() -> ([DD; 4], (f64, f64)) { ([DD::new_pi(), DD::new_two_pi(), DD::new_pi_2(), DD::new_e()], { let z = DD::default(); (z.double_value(), z.reciprocal().double_value()) }) }
pub fn c09_constants__spec() -> ([DD; 4], (f64, f64)) {
    ([dd(3.14159265358979312e0, 1.2246467991473532e-16), dd(6.28318530717958648e0, 2.4492935982947064e-16), dd(1.57079632679489656e0, 6.123233995736766e-17), dd(2.71828182845904509e0, 1.4456468917292502e-16)],
     { let z = dd(0.0, 0.0); (0.0, z.reciprocal().double_value()) })
}
/// the square root of a double is that of the extended number it stands for
/// @opaque DD::sqrt_dd, DD::sqrt
pub fn c09_sqrt_plain__impl(a: f64, b: f64, x: f64) -> DD { dd(a, b).sqrt_f64(x) }
pub fn c09_sqrt_plain__spec(a: f64, b: f64, x: f64) -> DD { dd(x, 0.0).sqrt_dd() }
/// the decimal magnitude of a number is the exponent of the greatest power of ten not above it, whatever its sign
pub fn c09_magnitude__impl(d: &DD, x: f64) -> (i32, i32) { (d.magnitude(x), d.magnitude(-x)) }
pub fn c09_magnitude__spec(d: &DD, x: f64) -> (i32, i32) {
    let a = x.abs();
    let m = (a.ln() / 10f64.ln()).floor() as i32;
    let m = if 10f64.powi(m) * 10.0 <= a { m + 1 } else { m };
    (m, m)
}
fn overflows(a: f64) -> bool { let r = a * (1.0 / a.sqrt()); r.is_nan() || DD::value_of_f64(r).sqr().is_nan() }
/// a square root carries the residual of its leading part in the low component
/// @mode fp
pub fn c09_sqrt_fp__impl(a: f64) -> DD { if a > 0.0 && overflows(a) { return DD::create_nan(); } dd(a, 0.0).sqrt_dd() }
pub fn c09_sqrt_fp__spec(a: f64) -> DD {
    if a > 0.0 && overflows(a) { return DD::create_nan(); }
    let v = dd(a, 0.0);
    if v.is_zero() { return dd(0.0, 0.0); }
    if v.is_negative() { return DD::create_nan(); }
    let x = 1.0 / a.sqrt();
    let r = a * x;
    let (p, e) = two_prod(r, r);
    let (p, e) = quick(p, e + (r * 0.0 + 0.0 * r));
    let (s, g) = two_sum(a, -p);
    let (t, f) = two_sum(0.0, -e);
    let (s, g) = quick(s, g + t);
    let (s, _) = quick(s, f + g);
    add1(r, 0.0, s * (x * 0.5))
}
/// powers carry the error terms of every product, and of the reciprocal for negative exponents
/// @mode fp
/// @opaque DD::sqr, DD::self_multiply_dd, DD::reciprocal
pub fn c09_pow_fp__impl(a: f64) -> [DD; 6] { let x = dd(a, 0.0); [x.pow(1), x.pow(2), x.pow(3), x.pow(6), x.pow(-1), x.pow(-3)] }
pub fn c09_pow_fp__spec(a: f64) -> [DD; 6] {
    let x = dd(a, 0.0);
    let mul = |p: &DD, q: &DD| { let mut r = DD::new_from_dd(p); r.self_multiply_dd(q); r };
    let (one, sq) = (dd(1.0, 0.0), x.sqr());
    let cube = mul(&mul(&one, &x), &sq);
    [DD::new_from_dd(&x), mul(&one, &sq), DD::new_from_dd(&cube), mul(&mul(&one, &sq), &sq.sqr()), x.reciprocal(), cube.reciprocal()]
}

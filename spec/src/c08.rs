// C08: extended-precision (DD) numbers: comparison, sign, rounding to integers, operands left alone.
use crate::core::math::dd::DD;
fn dd(hi: f64, lo: f64) -> DD { DD::new_hi_lo(hi, lo) }

/// comparison is lexicographic on (hi, lo), and every comparison operator agrees with it
pub fn c08_compare__impl(a: f64, b: f64, c: f64, d: f64) -> (i32, bool, bool, bool, bool, bool) {
    let (x, y) = (dd(a, b), dd(c, d));
    (x.compare_to(&y), x.lt(&y), x.le(&y), x.gt(&y), x.ge(&y), x.equals(&y))
}
pub fn c08_compare__spec(a: f64, b: f64, c: f64, d: f64) -> (i32, bool, bool, bool, bool, bool) {
    let r = if a < c { -1 } else if a > c { 1 } else if b < d { -1 } else if b > d { 1 } else { 0 };
    (r, r < 0, r <= 0, r > 0, r >= 0, r == 0)
}
/// comparison is antisymmetric
pub fn c08_antisym__law(a: f64, b: f64, c: f64, d: f64) -> bool { dd(a, b).compare_to(&dd(c, d)) == -dd(c, d).compare_to(&dd(a, b)) }
/// signum and the sign predicates agree with comparison against zero
pub fn c08_sign__impl(a: f64, b: f64) -> (i32, bool, bool, bool) {
    let x = dd(a, b);
    (x.signum(), x.is_positive(), x.is_negative(), x.is_zero())
}
pub fn c08_sign__spec(a: f64, b: f64) -> (i32, bool, bool, bool) {
    let r = if a > 0.0 { 1 } else if a < 0.0 { -1 } else if b > 0.0 { 1 } else if b < 0.0 { -1 } else { 0 };
    (r, r > 0, r < 0, r == 0)
}
/// negation flips both words and the sign; abs is never negative
pub fn c08_negate__impl(a: f64, b: f64) -> (DD, DD, i32) { (dd(a, b).negate(), dd(a, b).abs(), dd(a, b).negate().signum()) }
pub fn c08_negate__spec(a: f64, b: f64) -> (DD, DD, i32) {
    let s = dd(a, b).signum();
    (dd(-a, -b), if s < 0 { dd(-a, -b) } else { dd(a, b) }, -s)
}
/// min and max return the smaller and the larger operand
pub fn c08_min_max__impl(a: f64, b: f64, c: f64, d: f64) -> (DD, DD) { (dd(a, b).min(&dd(c, d)), dd(a, b).max(&dd(c, d))) }
pub fn c08_min_max__spec(a: f64, b: f64, c: f64, d: f64) -> (DD, DD) {
    let less = a < c || (a == c && b < d);
    if less { (dd(a, b), dd(c, d)) } else { (dd(c, d), dd(a, b)) }
}
/// floor and ceil round the low word only when the high word is integral; trunc rounds towards zero
pub fn c08_floor__impl(a: f64, b: f64) -> (DD, DD, DD) { (dd(a, b).floor(), dd(a, b).ceil(), dd(a, b).trunc()) }
pub fn c08_floor__spec(a: f64, b: f64) -> (DD, DD, DD) {
    let f = if a.floor() == a { dd(a.floor(), b.floor()) } else { dd(a.floor(), 0.0) };
    let c = if a.ceil() == a { dd(a.ceil(), b.ceil()) } else { dd(a.ceil(), 0.0) };
    (f, c, if a > 0.0 || (a == 0.0 && b > 0.0) { f } else { c })
}
/// rounding to the nearest integer is floor(x + 1/2)
/// @mode fp
pub fn c08_rint__impl(a: f64, b: f64) -> DD { let mut x = dd(a, b); x.rint() }
pub fn c08_rint__spec(a: f64, b: f64) -> DD { dd(a, b).add_f64(0.5).floor() }
/// rounding leaves its operand unchanged
/// @mode fp
pub fn c08_rint_operand__impl(a: f64, b: f64) -> DD { let mut x = dd(a, b); let _ = x.rint(); x }
pub fn c08_rint_operand__spec(a: f64, b: f64) -> DD { dd(a, b) }
/// values round-trip: constructors, copies and setters keep both words
pub fn c08_copy__impl(a: f64, b: f64, c: f64) -> [DD; 7] {
    let x = dd(a, b);
    let mut y = dd(c, c);
    y.set_value_dd(&x);
    let mut z = x;
    z.set_value_f64(c);
    [DD::new_from_dd(&x), DD::copy(&x), x.copy_self(), y, z, DD::new_x(a), DD::value_of_f64(a)]
}
pub fn c08_copy__spec(a: f64, b: f64, c: f64) -> [DD; 7] {
    [dd(a, b), dd(a, b), dd(a, b), dd(a, b), dd(c, 0.0), dd(a, 0.0), dd(a, 0.0)]
}
/// the double value is the sum of the words; NaN is recognised
/// @mode nan
pub fn c08_value__impl(a: f64, b: f64) -> (bool, bool, bool) { (dd(a, b).is_nan(), DD::create_nan().is_nan(), DD::new_nan().is_nan()) }
pub fn c08_value__spec(a: f64, b: f64) -> (bool, bool, bool) { (a.is_nan(), true, true) }
/// the value as a double
pub fn c08_double__impl(a: f64, b: f64) -> f64 { dd(a, b).double_value() }
pub fn c08_double__spec(a: f64, b: f64) -> f64 { a + b }
/// NaN operands make NaN results
/// @mode nan
pub fn c08_nan_ops__impl(a: f64, b: f64) -> [bool; 10] {
    let (x, n) = (dd(a, b), DD::new_nan());
    [n.negate().is_nan(), n.abs().is_nan(), n.floor().is_nan(), n.ceil().is_nan(), n.trunc().is_nan(),
     x.multiply_dd(&n).is_nan(), x.multiply_f64(f64::NAN).is_nan(), x.divide_f64(f64::NAN).is_nan(), n.add_f64(a).is_nan(), n.subtract_dd(&x).is_nan()]
}
pub fn c08_nan_ops__spec(a: f64, b: f64) -> [bool; 10] { [true; 10] }
/// the integer value is the leading word cut off towards zero, the double value the leading word with the trailing one
pub fn c08_values__impl(a: f64, b: f64) -> (i32, f64) { (dd(a, b).int_value(), dd(a, b).double_value()) }
pub fn c08_values__spec(a: f64, b: f64) -> (i32, f64) { (a as i32, a + b) }

// C29: numeric helpers.
use crate::core::util::math_util::MathUtil as M;
use crate::core::util::number_util::NumberUtil;

/// clamping keeps a value in its range and moves others to the nearer end
pub fn c29_clamp__impl(x: f64, lo: f64, hi: f64, i: i32, a: i32, b: i32) -> (f64, i32, i32) {
    if lo > hi || a > b { return (0.0, 0, 0); }
    (M::clamp_f64(x, lo, hi), M::clamp_i32(i, a, b), M::clamp_max(i, b))
}
pub fn c29_clamp__spec(x: f64, lo: f64, hi: f64, i: i32, a: i32, b: i32) -> (f64, i32, i32) {
    if lo > hi || a > b { return (0.0, 0, 0); }
    (x.max(lo).min(hi), i.max(a).min(b), i.min(b))
}
/// the ceiling of a quotient is the least whole number not below it
pub fn c29_ceil__impl(n: i32, d: i32) -> i32 { if d <= 0 { return 0; } M::ceil(n, d) }
pub fn c29_ceil__spec(n: i32, d: i32) -> i32 { if d <= 0 { return 0; } let q = n / d; if q * d < n { q + 1 } else { q } }
/// wrapping a non-negative index is its remainder
pub fn c29_wrap__impl(i: i32, max: i32) -> i32 { if max <= 0 || i < 0 { return 0; } M::wrap(i, max) }
pub fn c29_wrap__spec(i: i32, max: i32) -> i32 { if max <= 0 || i < 0 { return 0; } i % max }
/// wrapping a negative index counts back from the end
pub fn c29_wrap_negative__impl(i: i32, max: i32) -> i32 { if max <= 0 || i >= 0 { return 0; } M::wrap(i, max) }
pub fn c29_wrap_negative__spec(i: i32, max: i32) -> i32 { if max <= 0 || i >= 0 { return 0; } max - (-i) % max }
/// averages, greatest and least of several values
pub fn c29_extremes__impl(a: f64, b: f64, c: f64, d: f64) -> (f64, f64, f64, f64) { (M::average(a, b), M::max_3(a, b, c), M::max_4(a, b, c, d), M::min(a, b, c, d)) }
pub fn c29_extremes__spec(a: f64, b: f64, c: f64, d: f64) -> (f64, f64, f64, f64) { (a / 2.0 + b / 2.0, a.max(b).max(c), a.max(b).max(c.max(d)), a.min(b).min(c.min(d))) }
/// the quasi-random sequence steps by the increment, modulo one
pub fn c29_quasirandom__impl(c: f64, a: f64) -> (f64, f64) { (M::quasirandom_curr_alpha(c, a), M::quasirandom_curr(c)) }
pub fn c29_quasirandom__spec(c: f64, a: f64) -> (f64, f64) {
    let step = |v: f64| if v < 1.0 { v } else { v - v.floor() };
    (step(c + a), step(c + (5f64.sqrt() - 1.0) / 2.0))
}
/// values starting in [0, 1) and stepping by an increment in [0, 1) stay there
/// @mode real
pub fn c29_quasirandom_range__law(c: f64, a: f64) -> bool {
    if !(c >= 0.0 && c < 1.0 && a >= 0.0 && a < 1.0) { return true; }
    let v = M::quasirandom_curr_alpha(c, a);
    v >= 0.0 && v < 1.0
}
/// numbers are equal within a tolerance when no further apart
pub fn c29_tolerance__impl(a: f64, b: f64, t: f64) -> bool { NumberUtil::equals_with_tolerance(a, b, t) }
pub fn c29_tolerance__spec(a: f64, b: f64, t: f64) -> bool { if a > b { a - b <= t } else { b - a <= t } }

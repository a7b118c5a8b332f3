// C26: precision models.
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::precision_model::{PrecisionModel as PM, PrecisionModelType as T};

fn is_fixed(t: T) -> bool { t == T::Fixed }
fn down(v: f64) -> f64 { let f = v.floor(); if v - f < 0.5 { f } else { f + 1.0 } }
fn snap(scale: f64, v: f64) -> f64 {
    if scale < 0.0 { down(v / -scale) * -scale } else { down(v * scale) / scale }
}

/// a floating model changes nothing
pub fn c26_floating__impl(v: f64) -> (f64, f64) {
    let mut a = PM::default();
    let mut b = PM::new_with_type(T::Floating);
    (a.make_precise(v), b.make_precise(v))
}
pub fn c26_floating__spec(v: f64) -> (f64, f64) { (v, v) }
/// a fixed model rounds to the nearest multiple of the grid, ties towards positive infinity
pub fn c26_fixed__impl(scale: f64, v: f64) -> f64 {
    if scale == 0.0 { return 0.0; }
    PM::new_with_scale(scale).make_precise(v)
}
pub fn c26_fixed__spec(scale: f64, v: f64) -> f64 {
    if scale == 0.0 { return 0.0; }
    snap(scale, v)
}
/// a fixed model without a scale rounds to whole numbers
pub fn c26_fixed_default__impl(v: f64) -> f64 { PM::new_with_type(T::Fixed).make_precise(v) }
pub fn c26_fixed_default__spec(v: f64) -> f64 { down(v) }
/// a single precision model rounds to single precision
pub fn c26_single__impl(v: f64) -> f64 { PM::new_with_type(T::FloatingSingle).make_precise(v) }
pub fn c26_single__spec(v: f64) -> f64 { v as f32 as f64 }
/// values that are not numbers stay so under every model
/// @mode nan
pub fn c26_nan__impl(t: T, scale: f64) -> (bool, bool) {
    if scale == 0.0 || scale.is_nan() { return (true, true); }
    let mut a = PM::new_with_type(t);
    let mut b = PM::new_with_scale(scale);
    (a.make_precise(f64::NAN).is_nan(), b.make_precise(f64::NAN).is_nan())
}
pub fn c26_nan__spec(_t: T, _scale: f64) -> (bool, bool) { (true, true) }
/// rounding changes the x and y of a coordinate and leaves z and m
pub fn c26_coordinate__impl(scale: f64, c: &Coordinate) -> Coordinate {
    if scale == 0.0 { return *c; }
    let mut d = *c;
    PM::new_with_scale(scale).make_precise_coordinate(&mut d);
    d
}
pub fn c26_coordinate__spec(scale: f64, c: &Coordinate) -> Coordinate {
    if scale == 0.0 { return *c; }
    let mut d = *c;
    d.x = snap(scale, c.x);
    d.y = snap(scale, c.y);
    d
}
/// rounding a coordinate in a floating model keeps it, in single precision rounds x and y
pub fn c26_coordinate_type__impl(single: bool, c: &Coordinate) -> Coordinate {
    let mut d = *c;
    PM::new_with_type(if single { T::FloatingSingle } else { T::Floating }).make_precise_coordinate(&mut d);
    d
}
pub fn c26_coordinate_type__spec(single: bool, c: &Coordinate) -> Coordinate {
    let mut d = *c;
    if single { d.x = c.x as f32 as f64; d.y = c.y as f32 as f64; }
    d
}
/// a model reports its type, scale and grid size; a negative scale is a grid size
pub fn c26_parts__impl(scale: f64) -> (bool, f64, f64, bool) {
    if scale == 0.0 { return (true, 0.0, 0.0, false); }
    let p = PM::new_with_scale(scale);
    (is_fixed(p.get_type()), p.get_scale(), p.grid_size(), p.is_floating())
}
pub fn c26_parts__spec(scale: f64) -> (bool, f64, f64, bool) {
    if scale == 0.0 { return (true, 0.0, 0.0, false); }
    if scale < 0.0 { (true, 1.0 / -scale, -scale, false) } else { (true, scale, 1.0 / scale, false) }
}
/// floating models are floating and have no grid
/// @mode nan
pub fn c26_types__impl() -> (bool, bool, bool, bool, bool) {
    let (a, b, c) = (PM::new_with_type(T::Floating), PM::new_with_type(T::FloatingSingle), PM::new_with_type(T::Fixed));
    (a.is_floating(), b.is_floating(), c.is_floating(), a.grid_size().is_nan(), b.grid_size().is_nan())
}
pub fn c26_types__spec() -> (bool, bool, bool, bool, bool) { (true, true, false, true, true) }
/// setting a scale replaces the former one, in either form
pub fn c26_set_scale__impl(a: f64, b: f64, v: f64) -> (f64, f64, f64) {
    if a == 0.0 || b == 0.0 { return (0.0, 0.0, 0.0); }
    let mut p = PM::new_with_scale(a);
    p.set_scale(b);
    (p.get_scale(), p.grid_size(), p.make_precise(v))
}
pub fn c26_set_scale__spec(a: f64, b: f64, v: f64) -> (f64, f64, f64) {
    if a == 0.0 || b == 0.0 { return (0.0, 0.0, 0.0); }
    if b < 0.0 { (1.0 / -b, -b, snap(b, v)) } else { (b, 1.0 / b, snap(b, v)) }
}
/// models are equal when of the same type and scale
pub fn c26_equals__impl(a: f64, b: f64) -> (bool, bool, bool) {
    if a == 0.0 || b == 0.0 { return (true, true, true); }
    let p = PM::new_with_scale(a);
    (p.equals(PM::new_with_scale(b)), p.equals(PM::new_with_type(T::Fixed)), p.equals(PM::new_with_type(T::Floating)))
}
pub fn c26_equals__spec(a: f64, b: f64) -> (bool, bool, bool) {
    if a == 0.0 || b == 0.0 { return (true, true, true); }
    let (s, t) = (if a < 0.0 { 1.0 / -a } else { a }, if b < 0.0 { 1.0 / -b } else { b });
    (s == t, s == 1.0, false)
}
/// a floating model equals every model of its kind, its copies included, and no other
pub fn c26_equals_floating__impl(a: f64) -> (bool, bool, bool, bool, bool, bool, bool) {
    if a == 0.0 { return (true, true, true, true, true, true, true); }
    let (d, f, s, g) = (PM::default(), PM::new_with_type(T::Floating), PM::new_with_type(T::FloatingSingle), PM::new_with_scale(a));
    (d.equals(f), f.equals(PM::from_precision_model(f)), s.equals(PM::new_with_type(T::FloatingSingle)), f.equals(s), s.equals(d), f.equals(g), g.equals(PM::from_precision_model(g)))
}
pub fn c26_equals_floating__spec(_a: f64) -> (bool, bool, bool, bool, bool, bool, bool) {
    if _a == 0.0 { return (true, true, true, true, true, true, true); }
    (true, true, true, false, false, false, true)
}
/// a copy of a model behaves as the model
pub fn c26_copy__impl(a: f64, v: f64) -> (f64, f64, f64) {
    if a == 0.0 { return (0.0, 0.0, 0.0); }
    let mut p = PM::from_precision_model(PM::new_with_scale(a));
    (p.get_scale(), p.grid_size(), p.make_precise(v))
}
pub fn c26_copy__spec(a: f64, v: f64) -> (f64, f64, f64) {
    if a == 0.0 { return (0.0, 0.0, 0.0); }
    let mut p = PM::new_with_scale(a);
    (p.get_scale(), p.grid_size(), p.make_precise(v))
}
/// significant digits are 16, 6 or one more than the scale's decimal places, and order models
pub fn c26_digits__impl(s: f64) -> (i32, i32, i32, i32, i32, i32) {
    if s <= 0.0 { return (0, 0, 0, 0, 0, 0); }
    let (a, b, c) = (PM::new_with_type(T::Floating), PM::new_with_type(T::FloatingSingle), PM::new_with_scale(s));
    (a.get_maximum_significant_digits(), b.get_maximum_significant_digits(), c.get_maximum_significant_digits(), a.compare_to(&b), b.compare_to(&c), c.compare_to(&a))
}
pub fn c26_digits__spec(s: f64) -> (i32, i32, i32, i32, i32, i32) {
    if s <= 0.0 { return (0, 0, 0, 0, 0, 0); }
    let d = 1 + (s.ln() / 10f64.ln()).ceil() as i32;
    (16, 6, d, 1, if d == 6 { 0 } else if d > 6 { -1 } else { 1 }, if d == 16 { 0 } else if d < 16 { -1 } else { 1 })
}
/// rounding an already rounded value changes nothing, and rounding keeps order
/// @mode real
pub fn c26_idempotent__law(s: f64, v: f64) -> bool {
    if s == 0.0 { return true; }
    let mut p = PM::new_with_scale(s);
    let r = p.make_precise(v);
    p.make_precise(r) == r
}
/// rounding moves a value by at most half a grid cell
/// @mode real
pub fn c26_half_cell__law(s: f64, v: f64) -> bool {
    if s == 0.0 { return true; }
    let mut p = PM::new_with_scale(s);
    let g = if s < 0.0 { -s } else { 1.0 / s };
    (p.make_precise(v) - v).abs() * 2.0 <= g
}
fn near(x: f64) -> f64 { let f = x.floor(); if x - f >= 0.5 { f + 1.0 } else { f } }
/// rounding by a scale gives the double nearest to the grid point: the quotient of the whole number by the scale
/// @mode fp
pub fn c26_scale_fp__impl(v: f64) -> [f64; 2] { if v.is_nan() { return [0.0; 2]; } [PM::new_with_scale(10.0).make_precise(v), PM::new_with_scale(0.3).make_precise(v)] }
pub fn c26_scale_fp__spec(v: f64) -> [f64; 2] { if v.is_nan() { return [0.0; 2]; } [near(v * 10.0) / 10.0, near(v * 0.3) / 0.3] }
/// rounding by a grid size gives the whole multiple of it nearest to the quotient
/// @mode fp
pub fn c26_grid_fp__impl(v: f64) -> [f64; 2] { if v.is_nan() { return [0.0; 2]; } [PM::new_with_scale(-0.3).make_precise(v), PM::new_with_scale(-7.0).make_precise(v)] }
pub fn c26_grid_fp__spec(v: f64) -> [f64; 2] { if v.is_nan() { return [0.0; 2]; } [near(v / 0.3) * 0.3, near(v / 7.0) * 7.0] }

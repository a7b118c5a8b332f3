// C30: text forms.
use crate::core::geom::coordinate::Coordinate as C;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as A;
use crate::core::geom::precision_model::{PrecisionModel, PrecisionModelType};
use crate::core::math::dd::DD;
use crate::core::math::vector_2d::Vector2D;
use crate::core::math::vector_3d::Vector3D;

/// a coordinate is shown as its x, y and z
pub fn c30_coordinate__impl(c: &C) -> String { format!("{}", c) }
pub fn c30_coordinate__spec(c: &C) -> String { format!("({}, {}, {})", c.x, c.y, c.get_z()) }
/// an envelope is shown as its x range then its y range
pub fn c30_envelope__impl(e: &Envelope) -> String { e.to_string() }
pub fn c30_envelope__spec(e: &Envelope) -> String { format!("Env[{} : {}, {} : {}]", e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()) }
/// a precision model is shown by its kind, a fixed one with its scale
pub fn c30_precision__impl(t: PrecisionModelType, s: f64) -> (String, String) { (PrecisionModel::new_with_type(t).to_string(), PrecisionModel::new_with_scale(s).to_string()) }
pub fn c30_precision__spec(t: PrecisionModelType, s: f64) -> (String, String) {
    let a = match t {
        PrecisionModelType::Floating => String::from("Floating"),
        PrecisionModelType::FloatingSingle => String::from("Floating-Single"),
        PrecisionModelType::Fixed => String::from("Fixed (Scale=1)"),
    };
    (a, format!("Fixed (Scale={})", PrecisionModel::new_with_scale(s).get_scale()))
}
/// a double-double is dumped as its two parts
/// @mode fp
pub fn c30_dd__impl(h: f64, l: f64) -> String { DD::new_hi_lo(h, l).dump() }
pub fn c30_dd__spec(h: f64, l: f64) -> String { format!("DD<{}, {}>", h, l) }
/// vectors are shown by their components in order
pub fn c30_vectors__impl(x: f64, y: f64, z: f64) -> (String, String) { (Vector2D::new_from_xy(x, y).to_string(), Vector3D::new_from_xyz(x, y, z).to_string()) }
pub fn c30_vectors__spec(x: f64, y: f64, z: f64) -> (String, String) { (format!("[{}, {}]", x, y), format!("[{}, {}, {}]", x, y, z)) }
/// a sequence is shown as the texts of its coordinates in order, separated by commas, in parentheses
pub fn c30_sequence__impl(v: &Vec<C>) -> String { A::new_with_coordinates(v).to_string() }
pub fn c30_sequence__spec(v: &Vec<C>) -> String {
    if v.len() == 0 { return String::from("()"); }
    let mut s = String::from("(") + &v[0].to_string();
    let mut i = 1;
    while i < v.len() {
        s = s + ", " + &v[i].to_string();
        i += 1;
    }
    s + ")"
}
/// the texts of short sequences
pub fn c30_short_sequence__impl(a: &C, b: &C, c: &C) -> (String, String, String, String) {
    (A::new_with_coordinates(&vec![]).to_string(), A::new_with_coordinates(&vec![a.clone()]).to_string(), A::new_with_coordinates(&vec![a.clone(), b.clone()]).to_string(), A::new_with_coordinates(&vec![a.clone(), b.clone(), c.clone()]).to_string())
}
pub fn c30_short_sequence__spec(a: &C, b: &C, c: &C) -> (String, String, String, String) {
    (String::from("()"), format!("({})", a), format!("({}, {})", a, b), format!("({}, {}, {})", a, b, c))
}

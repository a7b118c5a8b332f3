// C27: ring orientation.
use crate::core::algorithm::orientation::Orientation;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as A;

type C = Coordinate;

fn ccw(v: &Vec<C>) -> bool {
    let len = v.len();
    if len < 4 { return false; }
    let n = len - 1;
    // the highest point reached by an upward segment, the last such
    let mut hi = v[0];
    let mut low = Coordinate::default();
    let mut at = 0;
    let mut i = 1;
    while i <= n {
        if v[i].y > v[i - 1].y && v[i].y >= hi.y { hi = v[i]; low = v[i - 1]; at = i; }
        i += 1;
    }
    if at == 0 { return false; }
    // past the flat cap, down to the first lower point
    let mut down = at;
    loop {
        down = (down + 1) % n;
        if down == at || v[down].y != hi.y { break; }
    }
    let lo = v[down];
    let end = if down > 0 { v[down - 1] } else { v[n - 1] };
    if hi.x == end.x && hi.y == end.y {
        let same = |a: &C, b: &C| a.x == b.x && a.y == b.y;
        if same(&low, &hi) || same(&lo, &hi) || same(&low, &lo) { return false; }
        return Orientation::index(&low, &hi, &lo) == 1;
    }
    end.x < hi.x
}
/// a ring is counter-clockwise when it turns left at its highest point, or its flat top runs to the left; never when flat or too short
/// @opaque Orientation::index
pub fn c27_seq__impl(s: &A) -> bool { Orientation::is_ccw_coordinate_array_sequence(s) }
pub fn c27_seq__spec(s: &A) -> bool { ccw(&s.to_coordinate_array()) }
/// the same for a vector of coordinates
/// @opaque Orientation::index
pub fn c27_vec__impl(v: &Vec<C>) -> bool { Orientation::is_ccw_vec(v) }
pub fn c27_vec__spec(v: &Vec<C>) -> bool { ccw(v) }
/// rings of fewer than four points have no orientation
pub fn c27_short__law(v: &Vec<C>) -> bool { v.len() >= 4 || !Orientation::is_ccw_vec(v) }

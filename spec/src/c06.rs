// C06: code tables (locations, dimensions, positions, quadrants).
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::dimension::Dimension;
use crate::core::geom::location::Location;
use crate::core::geom::position::Position;
use crate::core::geom::quadrant::Quadrant;

/// location codes have distinct symbols and nothing else has one
pub fn c06_location__impl(v: i32) -> (Option<char>, [i32; 4]) {
    (Location::to_location_symbol(v), [Location::INTERIOR, Location::BOUNDARY, Location::EXTERIOR, Location::NONE])
}
pub fn c06_location__spec(v: i32) -> (Option<char>, [i32; 4]) {
    (match v { 0 => Some('i'), 1 => Some('b'), 2 => Some('e'), -1 => Some('-'), _ => None }, [0, 1, 2, -1])
}
/// dimension codes: symbol of a value
pub fn c06_dimension_symbol__impl(v: i32) -> (Option<char>, [i32; 6]) {
    (Dimension::to_dimension_symbol(v), [Dimension::P, Dimension::L, Dimension::A, Dimension::FALSE, Dimension::TRUE, Dimension::DONTCARE])
}
pub fn c06_dimension_symbol__spec(v: i32) -> (Option<char>, [i32; 6]) {
    (match v { 0 => Some('0'), 1 => Some('1'), 2 => Some('2'), -1 => Some('F'), -2 => Some('T'), -3 => Some('*'), _ => None }, [0, 1, 2, -1, -2, -3])
}
/// dimension codes: value of a symbol, in either case
pub fn c06_dimension_value__impl() -> [Option<i32>; 11] {
    let f = Dimension::to_dimension_value;
    [f('0'), f('1'), f('2'), f('F'), f('T'), f('*'), f('f'), f('t'), f('3'), f('x'), f(' ')]
}
pub fn c06_dimension_value__spec() -> [Option<i32>; 11] {
    [Some(0), Some(1), Some(2), Some(-1), Some(-2), Some(-3), Some(-1), Some(-2), None, None, None]
}
/// value -> symbol -> value is the identity
pub fn c06_dimension_inverse__law(v: i32) -> bool {
    match Dimension::to_dimension_symbol(v) { Some(s) => Dimension::to_dimension_value(s) == Some(v), None => v < -3 || v > 2 }
}
/// opposite exchanges left and right and fixes everything else; it is an involution
pub fn c06_opposite__impl(v: i32) -> (i32, i32) { (Position::opposite(v), Position::opposite(Position::opposite(v))) }
pub fn c06_opposite__spec(v: i32) -> (i32, i32) { (if v == 1 { 2 } else if v == 2 { 1 } else { v }, v) }
/// the quadrant of a direction; axes belong to the quadrant with non-negative components; no direction has none
pub fn c06_quadrant__impl(dx: f64, dy: f64) -> i32 { Quadrant::quadrant_xy(dx, dy) }
pub fn c06_quadrant__spec(dx: f64, dy: f64) -> i32 {
    if dx == 0.0 && dy == 0.0 { -1 } else if dx >= 0.0 && dy >= 0.0 { 0 } else if dx < 0.0 && dy >= 0.0 { 1 } else if dx < 0.0 { 2 } else { 3 }
}
/// the quadrant of a directed segment is that of its displacement
pub fn c06_quadrant_points__impl(p: &Coordinate, q: &Coordinate) -> i32 { Quadrant::quadrant_coordinates(p, q) }
pub fn c06_quadrant_points__spec(p: &Coordinate, q: &Coordinate) -> i32 { c06_quadrant__spec(q.x - p.x, q.y - p.y) }
/// reversing a direction off the axes gives the opposite quadrant
pub fn c06_quadrant_reverse__law(dx: f64, dy: f64) -> bool {
    dx == 0.0 || dy == 0.0 || Quadrant::is_opposite(Quadrant::quadrant_xy(dx, dy), Quadrant::quadrant_xy(-dx, -dy))
}
/// the opposite / half-plane / northern tables over the four quadrants
pub fn c06_tables__impl(i: i32, j: i32) -> (bool, i32, bool, bool) {
    let (p, q) = (if i < 0 || i > 3 { 0 } else { i }, if j < 0 || j > 3 { 0 } else { j });
    (Quadrant::is_opposite(p, q), Quadrant::common_half_plane(p, q), Quadrant::is_in_half_plane(p, q), Quadrant::is_northern(p))
}
pub fn c06_tables__spec(i: i32, j: i32) -> (bool, i32, bool, bool) {
    let (p, q) = (if i < 0 || i > 3 { 0 } else { i }, if j < 0 || j > 3 { 0 } else { j });
    let opp = (p == 0 && q == 2) || (p == 2 && q == 0) || (p == 1 && q == 3) || (p == 3 && q == 1);
    // half plane h is made of quadrants h and h+1 (mod 4); two adjacent quadrants share the one starting at the earlier
    let common = if p == q { p } else if opp { -1 } else {
        match (p, q) { (0, 1) | (1, 0) => 0, (1, 2) | (2, 1) => 1, (2, 3) | (3, 2) => 2, _ => 3 }
    };
    let inh = p == q || (q != 3 && p == q + 1) || (q == 3 && p == 2);
    (opp, common, inh, p == 0 || p == 1)
}

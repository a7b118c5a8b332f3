// C23: no panic on any input within the stated preconditions.
use crate::core::algorithm::angle::Angle;
use crate::core::algorithm::area::Area;
use crate::core::algorithm::cg_algorithms_3d::CGAlgorithms3D;
use crate::core::algorithm::cg_algorithms_dd::CGAlgorithmsDD;
use crate::core::algorithm::centroid::Centroid;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence;
use crate::core::geom::implementation::coordinate_array_sequence_factory::CoordinateArraySequenceFactory;
use crate::core::geom::coordinate_array_sequences::CoordinateArraySequences;
use crate::core::geom::coordinate_arrays::CoordinateArrays;
use crate::core::geom::coordinate_list::CoordinateList;
use crate::core::geom::coordinate_sequence_comparator::CoordinateSequenceComparator;
use crate::core::geom::coordinates::Coordinates;
use crate::core::math::dd::DD;
use crate::core::geom::dimension::Dimension;
use crate::core::algorithm::distance::Distance;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::geometry::Geometry;
use crate::core::geom::geometry_factory::GeometryFactory;
use crate::core::algorithm::hcoordinate::HCoordinate;
use crate::core::algorithm::intersection::Intersection;
use crate::core::geom::intersection_matrix::IntersectionMatrix;
use crate::core::algorithm::length::Length;
use crate::core::geom::line_segment::LineSegment;
use crate::core::geom::line_string::LineString;
use crate::core::geom::linear_ring::LinearRing;
use crate::core::geom::location::Location;
use crate::core::util::math_util::MathUtil;
use crate::core::math::matrix::Matrix;
use crate::core::geom::multi_line_string::MultiLineString;
use crate::core::geom::multi_point::MultiPoint;
use crate::core::geom::multi_polygon::MultiPolygon;
use crate::core::util::number_util::NumberUtil;
use crate::core::geom::octagonal_envelope::OctagonalEnvelope;
use crate::core::algorithm::orientation::Orientation;
use crate::core::geom::implementation::packed_coordinate_sequence::PackedCoordinateSequence;
use crate::core::geom::implementation::packed_coordinate_sequence_double::PackedCoordinateSequenceDouble;
use crate::core::geom::implementation::packed_coordinate_sequence_factory::PackedCoordinateSequenceFactory;
use crate::core::geom::packed_coordinate_sequences::PackedCoordinateSequences;
use crate::core::geom::point::Point;
use crate::core::algorithm::point_location::PointLocation;
use crate::core::geom::polygon::Polygon;
use crate::core::geom::position::Position;
use crate::core::geom::precision_model::{PrecisionModel, PrecisionModelType};
use crate::core::geom::quadrant::Quadrant;
use crate::core::algorithm::ray_crossing_counter::RayCrossingCounter;
use crate::core::algorithm::robust_line_intersector::RobustLineIntersector;
use crate::core::geom::triangle::Triangle;
use crate::core::math::vector_2d::Vector2D;
use crate::core::math::vector_3d::Vector3D;

type C = Coordinate;
fn mk_seq(v: &Vec<C>) -> CoordinateArraySequence { CoordinateArraySequence::new_with_coordinates_dimension_measures(v.to_vec(), 4, 1) }
fn mk_packed(v: &Vec<C>) -> PackedCoordinateSequenceDouble { PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(v, 4, 1) }
fn mk_line(v: &Vec<C>) -> LineString { LineString::new_from_coordinate_sequence(mk_seq(v)) }
fn mk_ring(v: &Vec<C>) -> LinearRing { LinearRing::new_with_coordinate_array_sequence(&mk_seq(v)) }
fn mk_poly(v: &Vec<C>) -> Polygon { Polygon::new_with_linear_ring(&mk_ring(v)) }
fn mk_point(c: &Option<C>) -> Point { match c { Some(c) => Point::new_with_coordinate(c, None), None => Point::default() } }
fn mk_mp(v: &Vec<C>) -> MultiPoint { let mut p = vec![]; let mut i = 0; while i < v.len() { p.push(Point::new_with_coordinate(&v[i], None)); i += 1; } MultiPoint::new_with_points(&p) }
fn mk_mls(v: &Vec<C>) -> MultiLineString { MultiLineString::new_with_line_strings(&vec![mk_line(v)]) }
fn mk_mpoly(v: &Vec<C>) -> MultiPolygon { MultiPolygon::new_with_polygons(&vec![mk_poly(v)]) }
fn mk_centroid(v: &Vec<C>) -> Centroid { let mut c = Centroid::default(); if v.len() > 0 { c.set_area_base_point(&v[0]); } c }
fn mk_list(v: &Vec<C>) -> CoordinateList { CoordinateList::new_with_repeated(v.to_vec(), true) }

pub fn c23_math_util_clamp_f64__safe(p0: f64, p1: f64, p2: f64) {  let _ = MathUtil::clamp_f64(p0, p1, p2); }
pub fn c23_math_util_clamp_i32__safe(p0: i32, p1: i32, p2: i32) {  let _ = MathUtil::clamp_i32(p0, p1, p2); }
pub fn c23_math_util_clamp_max__safe(p0: i32, p1: i32) {  let _ = MathUtil::clamp_max(p0, p1); }
pub fn c23_math_util_ceil__safe(p0: i32, p1: i32) { if p1 <= 0 { return; }  let _ = MathUtil::ceil(p0, p1); }
pub fn c23_math_util_wrap__safe(p0: i32, p1: i32) { if p1 <= 0 { return; }  let _ = MathUtil::wrap(p0, p1); }
pub fn c23_math_util_average__safe(p0: f64, p1: f64) {  let _ = MathUtil::average(p0, p1); }
pub fn c23_math_util_max_3__safe(p0: f64, p1: f64, p2: f64) {  let _ = MathUtil::max_3(p0, p1, p2); }
pub fn c23_math_util_max_4__safe(p0: f64, p1: f64, p2: f64, p3: f64) {  let _ = MathUtil::max_4(p0, p1, p2, p3); }
pub fn c23_math_util_min__safe(p0: f64, p1: f64, p2: f64, p3: f64) {  let _ = MathUtil::min(p0, p1, p2, p3); }
pub fn c23_math_util_quasirandom_curr__safe(p0: f64) {  let _ = MathUtil::quasirandom_curr(p0); }
pub fn c23_math_util_quasirandom_curr_alpha__safe(p0: f64, p1: f64) {  let _ = MathUtil::quasirandom_curr_alpha(p0, p1); }

pub fn c23_number_util_equals_with_tolerance__safe(p0: f64, p1: f64, p2: f64) {  let _ = NumberUtil::equals_with_tolerance(p0, p1, p2); }
pub fn c23_dd_default__safe() {  let _ = DD::default(); }
pub fn c23_dd_new_x__safe(p0: f64) {  let _ = DD::new_x(p0); }
pub fn c23_dd_new_hi_lo__safe(p0: f64, p1: f64) {  let _ = DD::new_hi_lo(p0, p1); }
pub fn c23_dd_new_from_dd__safe(p0: &DD) { let q0 = p0.clone(); let _ = DD::new_from_dd(&q0); }
pub fn c23_dd_new_pi__safe() {  let _ = DD::new_pi(); }
pub fn c23_dd_new_two_pi__safe() {  let _ = DD::new_two_pi(); }
pub fn c23_dd_new_pi_2__safe() {  let _ = DD::new_pi_2(); }
pub fn c23_dd_new_e__safe() {  let _ = DD::new_e(); }
pub fn c23_dd_new_nan__safe() {  let _ = DD::new_nan(); }
pub fn c23_dd_create_nan__safe() {  let _ = DD::create_nan(); }
pub fn c23_dd_value_of_f64__safe(p0: f64) {  let _ = DD::value_of_f64(p0); }
pub fn c23_dd_copy__safe(p0: &DD) { let q0 = p0.clone(); let _ = DD::copy(&q0); }
pub fn c23_dd_copy_self__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.copy_self(); }
pub fn c23_dd_set_value_dd__safe(p0: &DD, p1: &DD) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.set_value_dd(&q1); }
pub fn c23_dd_set_value_f64__safe(p0: &DD, p1: f64) { let mut q0 = p0.clone(); let _ = q0.set_value_f64(p1); }
pub fn c23_dd_add_dd__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.add_dd(&q1); }
pub fn c23_dd_add_f64__safe(p0: &DD, p1: f64) { let q0 = p0.clone(); let _ = q0.add_f64(p1); }
pub fn c23_dd_self_add_dd__safe(p0: &DD, p1: &DD) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.self_add_dd(&q1); }
pub fn c23_dd_self_add_f64__safe(p0: &DD, p1: f64) { let mut q0 = p0.clone(); let _ = q0.self_add_f64(p1); }
pub fn c23_dd_self_add_hi_lo__safe(p0: &DD, p1: f64, p2: f64) { let mut q0 = p0.clone(); let _ = q0.self_add_hi_lo(p1, p2); }
pub fn c23_dd_subtract_dd__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.subtract_dd(&q1); }
pub fn c23_dd_subtract_f64__safe(p0: &DD, p1: f64) { let q0 = p0.clone(); let _ = q0.subtract_f64(p1); }
pub fn c23_dd_self_subtract_dd__safe(p0: &DD, p1: &DD) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.self_subtract_dd(&q1); }
pub fn c23_dd_self_subtract_f64__safe(p0: &DD, p1: f64) { let mut q0 = p0.clone(); let _ = q0.self_subtract_f64(p1); }
pub fn c23_dd_negate__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.negate(); }
pub fn c23_dd_multiply_dd__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.multiply_dd(&q1); }
pub fn c23_dd_multiply_f64__safe(p0: &DD, p1: f64) { let q0 = p0.clone(); let _ = q0.multiply_f64(p1); }
pub fn c23_dd_self_multiply_dd__safe(p0: &DD, p1: &DD) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.self_multiply_dd(&q1); }
pub fn c23_dd_self_multiply_f64__safe(p0: &DD, p1: f64) { let mut q0 = p0.clone(); let _ = q0.self_multiply_f64(p1); }
pub fn c23_dd_self_multiply_hi_lo__safe(p0: &DD, p1: f64, p2: f64) { let mut q0 = p0.clone(); let _ = q0.self_multiply_hi_lo(p1, p2); }
pub fn c23_dd_divide_dd__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.divide_dd(&q1); }
pub fn c23_dd_divide_f64__safe(p0: &DD, p1: f64) { let q0 = p0.clone(); let _ = q0.divide_f64(p1); }
pub fn c23_dd_self_divide_dd__safe(p0: &DD, p1: &DD) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.self_divide_dd(&q1); }
pub fn c23_dd_self_divide_f64__safe(p0: &DD, p1: f64) { let mut q0 = p0.clone(); let _ = q0.self_divide_f64(p1); }
pub fn c23_dd_self_divide_hi_lo__safe(p0: &DD, p1: f64, p2: f64) { let mut q0 = p0.clone(); let _ = q0.self_divide_hi_lo(p1, p2); }
pub fn c23_dd_reciprocal__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.reciprocal(); }
pub fn c23_dd_floor__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.floor(); }
pub fn c23_dd_ceil__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.ceil(); }
pub fn c23_dd_signum__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.signum(); }
pub fn c23_dd_rint__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.rint(); }
pub fn c23_dd_trunc__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.trunc(); }
pub fn c23_dd_abs__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.abs(); }
pub fn c23_dd_sqr__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.sqr(); }
pub fn c23_dd_self_sqr__safe(p0: &DD) { let mut q0 = p0.clone(); let _ = q0.self_sqr(); }
pub fn c23_dd_sqr_f64__safe(p0: &DD, p1: f64) { let q0 = p0.clone(); let _ = q0.sqr_f64(p1); }
pub fn c23_dd_sqrt_dd__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.sqrt_dd(); }
pub fn c23_dd_sqrt_f64__safe(p0: &DD, p1: f64) { let q0 = p0.clone(); let _ = q0.sqrt_f64(p1); }
pub fn c23_dd_pow__safe(p0: &DD, p1: i32) { let q0 = p0.clone(); let _ = q0.pow(p1); }
pub fn c23_dd_determinant_xy_f64__safe(p0: f64, p1: f64, p2: f64, p3: f64) {  let _ = DD::determinant_xy_f64(p0, p1, p2, p3); }
pub fn c23_dd_determinant_xy_dd__safe(p0: &DD, p1: &DD, p2: &DD, p3: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = DD::determinant_xy_dd(&q0, &q1, &q2, &q3); }
pub fn c23_dd_min__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.min(&q1); }
pub fn c23_dd_max__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.max(&q1); }
pub fn c23_dd_double_value__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.double_value(); }
pub fn c23_dd_int_value__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.int_value(); }
pub fn c23_dd_is_zero__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.is_zero(); }
pub fn c23_dd_is_negative__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.is_negative(); }
pub fn c23_dd_is_positive__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.is_positive(); }
pub fn c23_dd_is_nan__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.is_nan(); }
pub fn c23_dd_equals__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equals(&q1); }
pub fn c23_dd_gt__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.gt(&q1); }
pub fn c23_dd_ge__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.ge(&q1); }
pub fn c23_dd_lt__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.lt(&q1); }
pub fn c23_dd_le__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.le(&q1); }
pub fn c23_dd_compare_to__safe(p0: &DD, p1: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.compare_to(&q1); }
pub fn c23_dd_dump__safe(p0: &DD) { let q0 = p0.clone(); let _ = q0.dump(); }
pub fn c23_dd_magnitude__safe(p0: &DD, p1: f64) { let q0 = p0.clone(); let _ = q0.magnitude(p1); }
pub fn c23_matrix_swap_rows_2d__safe(a: f64, b: f64, c: f64, d: f64, p1: usize, p2: usize) { if p1 > 1 || p2 > 1 { return; } let mut q0 = vec![vec![a, b], vec![c, d]]; let _ = Matrix::swap_rows_2d(&mut q0, p1, p2); }
pub fn c23_matrix_swap_rows_1d__safe(p0: &Vec<f64>, p1: usize, p2: usize) { if p1 >= p0.len() || p2 >= p0.len() { return; } let mut q0 = p0.clone(); let _ = Matrix::swap_rows_1d(&mut q0, p1, p2); }
pub fn c23_matrix_solve__safe(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) { let mut q0 = vec![vec![a, b], vec![c, d]]; let mut q1 = vec![e, f]; let _ = Matrix::solve(&mut q0, &mut q1); }
pub fn c23_vector2_d_default__safe() {  let _ = Vector2D::default(); }
pub fn c23_vector2_d_new_from_xy__safe(p0: f64, p1: f64) {  let _ = Vector2D::new_from_xy(p0, p1); }
pub fn c23_vector2_d_new_from_vector_2d__safe(p0: &Vector2D) { let q0 = p0.clone(); let _ = Vector2D::new_from_vector_2d(&q0); }
pub fn c23_vector2_d_new_from_coordinate_from_to__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = Vector2D::new_from_coordinate_from_to(&q0, &q1); }
pub fn c23_vector2_d_new_from_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = Vector2D::new_from_coordinate(&q0); }
pub fn c23_vector2_d_create_from_xy__safe(p0: f64, p1: f64) {  let _ = Vector2D::create_from_xy(p0, p1); }
pub fn c23_vector2_d_create_from_vector_2d__safe(p0: &Vector2D) { let q0 = p0.clone(); let _ = Vector2D::create_from_vector_2d(&q0); }
pub fn c23_vector2_d_create_from_coodinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = Vector2D::create_from_coodinate(&q0); }
pub fn c23_vector2_d_create_from_coordinate_from_to__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = Vector2D::create_from_coordinate_from_to(&q0, &q1); }
pub fn c23_vector2_d_get_x__safe(p0: &Vector2D) { let q0 = p0.clone(); let _ = q0.get_x(); }
pub fn c23_vector2_d_get_y__safe(p0: &Vector2D) { let q0 = p0.clone(); let _ = q0.get_y(); }
pub fn c23_vector2_d_get_component__safe(p0: &Vector2D, p1: usize) { let q0 = p0.clone(); let _ = q0.get_component(p1); }
pub fn c23_vector2_d_add__safe(p0: &Vector2D, p1: &Vector2D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.add(&q1); }
pub fn c23_vector2_d_subtract__safe(p0: &Vector2D, p1: &Vector2D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.subtract(&q1); }
pub fn c23_vector2_d_multiply__safe(p0: &Vector2D, p1: f64) { let q0 = p0.clone(); let _ = q0.multiply(p1); }
pub fn c23_vector2_d_divide__safe(p0: &Vector2D, p1: f64) { let q0 = p0.clone(); let _ = q0.divide(p1); }
pub fn c23_vector2_d_negate__safe(p0: &Vector2D) { let q0 = p0.clone(); let _ = q0.negate(); }
pub fn c23_vector2_d_length__safe(p0: &Vector2D) { let q0 = p0.clone(); let _ = q0.length(); }
pub fn c23_vector2_d_length_squared__safe(p0: &Vector2D) { let q0 = p0.clone(); let _ = q0.length_squared(); }
pub fn c23_vector2_d_normalize__safe(p0: &Vector2D) { let q0 = p0.clone(); let _ = q0.normalize(); }
pub fn c23_vector2_d_average__safe(p0: &Vector2D, p1: &Vector2D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.average(&q1); }
pub fn c23_vector2_d_weighted_sum__safe(p0: &Vector2D, p1: &Vector2D, p2: f64) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.weighted_sum(&q1, p2); }
pub fn c23_vector2_d_distance__safe(p0: &Vector2D, p1: &Vector2D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.distance(&q1); }
pub fn c23_vector2_d_dot__safe(p0: &Vector2D, p1: &Vector2D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.dot(&q1); }
pub fn c23_vector2_d_angle__safe(p0: &Vector2D) { let q0 = p0.clone(); let _ = q0.angle(); }
pub fn c23_vector2_d_angle_vector_2d__safe(p0: &Vector2D, p1: &Vector2D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.angle_vector_2d(&q1); }
pub fn c23_vector2_d_angle_to__safe(p0: &Vector2D, p1: &Vector2D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.angle_to(&q1); }
pub fn c23_vector2_d_rotate__safe(p0: &Vector2D, p1: f64) { let q0 = p0.clone(); let _ = q0.rotate(p1); }
pub fn c23_vector2_d_rotate_by_quarter_circle__safe(p0: &Vector2D, p1: i32) { let q0 = p0.clone(); let _ = q0.rotate_by_quarter_circle(p1); }
pub fn c23_vector2_d_is_parallel__safe(p0: &Vector2D, p1: &Vector2D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.is_parallel(&q1); }
pub fn c23_vector2_d_translate__safe(p0: &Vector2D, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.translate(&q1); }
pub fn c23_vector2_d_to_coordinate__safe(p0: &Vector2D) { let q0 = p0.clone(); let _ = q0.to_coordinate(); }
pub fn c23_vector2_d_to_string__safe(p0: &Vector2D) { let q0 = p0.clone(); let _ = q0.to_string(); }
pub fn c23_vector2_d_equals__safe(p0: &Vector2D, p1: &Vector2D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equals(&q1); }
pub fn c23_vector3_d_new_from_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = Vector3D::new_from_coordinate(&q0); }
pub fn c23_vector3_d_new_from_to_coordinates__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = Vector3D::new_from_to_coordinates(&q0, &q1); }
pub fn c23_vector3_d_new_from_xyz__safe(p0: f64, p1: f64, p2: f64) {  let _ = Vector3D::new_from_xyz(p0, p1, p2); }
pub fn c23_vector3_d_create_from_xyz__safe(p0: f64, p1: f64, p2: f64) {  let _ = Vector3D::create_from_xyz(p0, p1, p2); }
pub fn c23_vector3_d_create_from_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = Vector3D::create_from_coordinate(&q0); }
pub fn c23_vector3_d_dot_4__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = Vector3D::dot_4(&q0, &q1, &q2, &q3); }
pub fn c23_vector3_d_dot_2__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = Vector3D::dot_2(&q0, &q1); }
pub fn c23_vector3_d_get_x__safe(p0: &Vector3D) { let q0 = p0.clone(); let _ = q0.get_x(); }
pub fn c23_vector3_d_get_y__safe(p0: &Vector3D) { let q0 = p0.clone(); let _ = q0.get_y(); }
pub fn c23_vector3_d_get_z__safe(p0: &Vector3D) { let q0 = p0.clone(); let _ = q0.get_z(); }
pub fn c23_vector3_d_add__safe(p0: &Vector3D, p1: &Vector3D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.add(&q1); }
pub fn c23_vector3_d_subtract__safe(p0: &Vector3D, p1: &Vector3D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.subtract(&q1); }
pub fn c23_vector3_d_divide__safe(p0: &Vector3D, p1: f64) { let q0 = p0.clone(); let _ = q0.divide(p1); }
pub fn c23_vector3_d_dot__safe(p0: &Vector3D, p1: &Vector3D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.dot(&q1); }
pub fn c23_vector3_d_length__safe(p0: &Vector3D) { let q0 = p0.clone(); let _ = q0.length(); }
pub fn c23_vector3_d_length_of_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = Vector3D::length_of_coordinate(&q0); }
pub fn c23_vector3_d_normalize__safe(p0: &Vector3D) { let q0 = p0.clone(); let _ = q0.normalize(); }
pub fn c23_vector3_d_normalize_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = Vector3D::normalize_coordinate(&q0); }
pub fn c23_vector3_d_to_string__safe(p0: &Vector3D) { let q0 = p0.clone(); let _ = q0.to_string(); }
pub fn c23_vector3_d_equals__safe(p0: &Vector3D, p1: &Vector3D) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equals(&q1); }
pub fn c23_angle_to_degrees__safe(p0: f64) {  let _ = Angle::to_degrees(p0); }
pub fn c23_angle_to_radians__safe(p0: f64) {  let _ = Angle::to_radians(p0); }
pub fn c23_angle_angle_coordinates__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = Angle::angle_coordinates(&q0, &q1); }
pub fn c23_angle_angle_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = Angle::angle_coordinate(&q0); }
pub fn c23_angle_is_acute__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Angle::is_acute(&q0, &q1, &q2); }
pub fn c23_angle_is_obtuse__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Angle::is_obtuse(&q0, &q1, &q2); }
pub fn c23_angle_angle_between__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Angle::angle_between(&q0, &q1, &q2); }
pub fn c23_angle_angle_between_oriented__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Angle::angle_between_oriented(&q0, &q1, &q2); }
pub fn c23_angle_bisector__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Angle::bisector(&q0, &q1, &q2); }
pub fn c23_angle_interior_angle__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Angle::interior_angle(&q0, &q1, &q2); }
pub fn c23_angle_get_turn__safe(p0: f64, p1: f64) {  let _ = Angle::get_turn(p0, p1); }
pub fn c23_angle_normalize__safe(p0: f64) {  let _ = Angle::normalize(p0); }
pub fn c23_angle_normalize_positive__safe(p0: f64) {  let _ = Angle::normalize_positive(p0); }
pub fn c23_angle_diff__safe(p0: f64, p1: f64) {  let _ = Angle::diff(p0, p1); }
pub fn c23_angle_sin_snap__safe(p0: f64) {  let _ = Angle::sin_snap(p0); }
pub fn c23_angle_cos_snap__safe(p0: f64) {  let _ = Angle::cos_snap(p0); }
pub fn c23_angle_project__safe(p0: &Coordinate, p1: f64, p2: f64) { let q0 = p0.clone(); let _ = Angle::project(&q0, p1, p2); }
pub fn c23_area_of_ring_vec__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = Area::of_ring_vec(&q0); }
pub fn c23_area_of_ring_coordinate_sequence__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = Area::of_ring_coordinate_sequence(&q0); }
pub fn c23_area_of_ring_signed_vec__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = Area::of_ring_signed_vec(&q0); }
pub fn c23_area_of_ring_signed_coordinate_sequence__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = Area::of_ring_signed_coordinate_sequence(&q0); }
pub fn c23_centroid_get_centroid_from_point__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = Centroid::get_centroid_from_point(&q0); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_centroid_get_centroid_from_polygon__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = Centroid::get_centroid_from_polygon(&q0); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_centroid_get_centroid_from_multi_polygon__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = Centroid::get_centroid_from_multi_polygon(&q0); }
pub fn c23_centroid_default__safe() {  let _ = Centroid::default(); }
pub fn c23_centroid_new_from_point__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = Centroid::new_from_point(&q0); }
pub fn c23_centroid_new_from_line_string__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = Centroid::new_from_line_string(&q0); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_centroid_new_from_polygon__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = Centroid::new_from_polygon(&q0); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_centroid_new_from_multi_polygon__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = Centroid::new_from_multi_polygon(&q0); }
pub fn c23_centroid_get_centroid__safe(p0: &Vec<C>) { let q0 = mk_centroid(p0); let _ = q0.get_centroid(); }
pub fn c23_centroid_set_area_base_point__safe(p0: &Vec<C>, p1: &Coordinate) { let mut q0 = mk_centroid(p0); let q1 = p1.clone(); let _ = q0.set_area_base_point(&q1); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_centroid_add_polygon__safe(p0: &Vec<C>, p1: &Vec<C>) { let mut q0 = mk_centroid(p0); let q1 = mk_poly(p1); let _ = q0.add_polygon(&q1); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_centroid_add_shell__safe(p0: &Vec<C>, p1: &Vec<Coordinate>) { let mut q0 = mk_centroid(p0); let q1 = p1.clone(); let _ = q0.add_shell(&q1); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_centroid_add_hole__safe(p0: &Vec<C>, p1: &Vec<Coordinate>) { let mut q0 = mk_centroid(p0); let q1 = p1.clone(); let _ = q0.add_hole(&q1); }
pub fn c23_centroid_add_triangle__safe(p0: &Vec<C>, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate, p4: bool) { let mut q0 = mk_centroid(p0); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = q0.add_triangle(&q1, &q2, &q3, p4); }
pub fn c23_centroid_centroid3__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let mut q3 = p3.clone(); let _ = Centroid::centroid3(&q0, &q1, &q2, &mut q3); }
pub fn c23_centroid_area2__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Centroid::area2(&q0, &q1, &q2); }
pub fn c23_centroid_add_line_segments__safe(p0: &Vec<C>, p1: &Vec<Coordinate>) { let mut q0 = mk_centroid(p0); let q1 = p1.clone(); let _ = q0.add_line_segments(&q1); }
pub fn c23_centroid_add_point__safe(p0: &Vec<C>, p1: &Coordinate) { let mut q0 = mk_centroid(p0); let q1 = p1.clone(); let _ = q0.add_point(&q1); }
pub fn c23_cgalgorithms3_d_distance__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = CGAlgorithms3D::distance(&q0, &q1); }
pub fn c23_cgalgorithms3_d_distance_point_segment__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = CGAlgorithms3D::distance_point_segment(&q0, &q1, &q2); }
pub fn c23_cgalgorithms3_d_distance_segment_segment__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = CGAlgorithms3D::distance_segment_segment(&q0, &q1, &q2, &q3); }
pub fn c23_cgalgorithms_dd_orientation_index_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = CGAlgorithmsDD::orientation_index_coordinates(&q0, &q1, &q2); }
pub fn c23_cgalgorithms_dd_orientation_index_xy__safe(p0: f64, p1: f64, p2: f64, p3: f64, p4: f64, p5: f64) {  let _ = CGAlgorithmsDD::orientation_index_xy(p0, p1, p2, p3, p4, p5); }
pub fn c23_cgalgorithms_dd_sign_of_det2x_2dd__safe(p0: &DD, p1: &DD, p2: &DD, p3: &DD) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = CGAlgorithmsDD::sign_of_det2x_2dd(&q0, &q1, &q2, &q3); }
pub fn c23_cgalgorithms_dd_sign_of_det2x2_f64__safe(p0: f64, p1: f64, p2: f64, p3: f64) {  let _ = CGAlgorithmsDD::sign_of_det2x2_f64(p0, p1, p2, p3); }
pub fn c23_cgalgorithms_dd_orientation_index_filter__safe(p0: f64, p1: f64, p2: f64, p3: f64, p4: f64, p5: f64) {  let _ = CGAlgorithmsDD::orientation_index_filter(p0, p1, p2, p3, p4, p5); }
pub fn c23_cgalgorithms_dd_signum__safe(p0: f64) {  let _ = CGAlgorithmsDD::signum(p0); }
pub fn c23_cgalgorithms_dd_intersection__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = CGAlgorithmsDD::intersection(&q0, &q1, &q2, &q3); }
/// @opaque Distance::point_to_segment
pub fn c23_distance_segment_to_segment__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = Distance::segment_to_segment(&q0, &q1, &q2, &q3); }
pub fn c23_distance_point_to_segment_string__safe(p0: &Coordinate, p1: &Vec<Coordinate>) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = Distance::point_to_segment_string(&q0, &q1); }
pub fn c23_distance_point_to_segment__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Distance::point_to_segment(&q0, &q1, &q2); }
pub fn c23_distance_point_to_line_perpendicular__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Distance::point_to_line_perpendicular(&q0, &q1, &q2); }
pub fn c23_distance_point_to_line_perpendicular_signed__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Distance::point_to_line_perpendicular_signed(&q0, &q1, &q2); }
pub fn c23_hcoordinate_intersection__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = HCoordinate::intersection(&q0, &q1, &q2, &q3); }
pub fn c23_hcoordinate_default__safe() {  let _ = HCoordinate::default(); }
pub fn c23_hcoordinate_new_with_xyw__safe(p0: f64, p1: f64, p2: f64) {  let _ = HCoordinate::new_with_xyw(p0, p1, p2); }
pub fn c23_hcoordinate_new_with_xy__safe(p0: f64, p1: f64) {  let _ = HCoordinate::new_with_xy(p0, p1); }
pub fn c23_hcoordinate_new_with_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = HCoordinate::new_with_coordinate(&q0); }
pub fn c23_hcoordinate_new_with_hcoordinates__safe(p0: &HCoordinate, p1: &HCoordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = HCoordinate::new_with_hcoordinates(&q0, &q1); }
pub fn c23_hcoordinate_new_with_coordinates__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = HCoordinate::new_with_coordinates(&q0, &q1); }
pub fn c23_hcoordinate_new_with_coordinates_4__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = HCoordinate::new_with_coordinates_4(&q0, &q1, &q2, &q3); }
pub fn c23_hcoordinate_get_x__safe(p0: &HCoordinate) { let q0 = p0.clone(); let _ = q0.get_x(); }
pub fn c23_hcoordinate_get_y__safe(p0: &HCoordinate) { let q0 = p0.clone(); let _ = q0.get_y(); }
pub fn c23_hcoordinate_get_coordinate__safe(p0: &HCoordinate) { let q0 = p0.clone(); let _ = q0.get_coordinate(); }
pub fn c23_intersection_intersection__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = Intersection::intersection(&q0, &q1, &q2, &q3); }
pub fn c23_intersection_intersection_fp__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = Intersection::intersection_fp(&q0, &q1, &q2, &q3); }
pub fn c23_intersection_line_segment__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = Intersection::line_segment(&q0, &q1, &q2, &q3); }
pub fn c23_length_of_line__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = Length::of_line(&q0); }
pub fn c23_orientation_index__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Orientation::index(&q0, &q1, &q2); }
pub fn c23_orientation_is_ccw_vec__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = Orientation::is_ccw_vec(&q0); }
pub fn c23_orientation_is_ccw_coordinate_array_sequence__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = Orientation::is_ccw_coordinate_array_sequence(&q0); }
pub fn c23_orientation_is_ccw_area_vec__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = Orientation::is_ccw_area_vec(&q0); }
pub fn c23_point_location_is_on_segment__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = PointLocation::is_on_segment(&q0, &q1, &q2); }
pub fn c23_point_location_is_on_line_coordinates__safe(p0: &Coordinate, p1: &Vec<Coordinate>) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = PointLocation::is_on_line_coordinates(&q0, &q1); }
pub fn c23_point_location_is_on_line_coordinate_array_sequence__safe(p0: &Coordinate, p1: &Vec<C>) { let q0 = p0.clone(); let q1 = mk_seq(p1); let _ = PointLocation::is_on_line_coordinate_array_sequence(&q0, &q1); }
pub fn c23_point_location_is_in_ring__safe(p0: &Coordinate, p1: &Vec<Coordinate>) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = PointLocation::is_in_ring(&q0, &q1); }
pub fn c23_point_location_locate_in_ring__safe(p0: &Coordinate, p1: &Vec<Coordinate>) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = PointLocation::locate_in_ring(&q0, &q1); }
pub fn c23_ray_crossing_counter_new_with_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = RayCrossingCounter::new_with_coordinate(&q0); }
pub fn c23_ray_crossing_counter_locate_point_in_ring_vec__safe(p0: &Coordinate, p1: &Vec<Coordinate>) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = RayCrossingCounter::locate_point_in_ring_vec(&q0, &q1); }
pub fn c23_ray_crossing_counter_locate_point_in_ring_coordinate_array_sequence__safe(p0: &Coordinate, p1: &Vec<C>) { let q0 = p0.clone(); let q1 = mk_seq(p1); let _ = RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(&q0, &q1); }
pub fn c23_ray_crossing_counter_locate_point_in_ring_packed_coordinate_sequence__safe(p0: &Coordinate, p1: &Vec<C>) { let q0 = p0.clone(); let q1 = mk_packed(p1); let _ = RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(&q0, &q1); }
pub fn c23_ray_crossing_counter_count_segment__safe(p0: &C, p1: &Coordinate, p2: &Coordinate) { let mut q0 = RayCrossingCounter::new_with_coordinate(p0); let q1 = p1.clone(); let q2 = p2.clone(); let _ = q0.count_segment(&q1, &q2); }
pub fn c23_ray_crossing_counter_get_count__safe(p0: &C) { let q0 = RayCrossingCounter::new_with_coordinate(p0); let _ = q0.get_count(); }
pub fn c23_ray_crossing_counter_is_on_segment__safe(p0: &C) { let q0 = RayCrossingCounter::new_with_coordinate(p0); let _ = q0.is_on_segment(); }
pub fn c23_ray_crossing_counter_get_location__safe(p0: &C) { let q0 = RayCrossingCounter::new_with_coordinate(p0); let _ = q0.get_location(); }
pub fn c23_ray_crossing_counter_is_point_in_polygon__safe(p0: &C) { let q0 = RayCrossingCounter::new_with_coordinate(p0); let _ = q0.is_point_in_polygon(); }
pub fn c23_robust_line_intersector_default__safe() {  let _ = RobustLineIntersector::default(); }
pub fn c23_robust_line_intersector_set_precision_model__safe(p0: bool, p1: &PrecisionModel) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let _ = q0.set_precision_model(q1); }
pub fn c23_robust_line_intersector_has_intersection__safe(p0: bool) { let q0 = RobustLineIntersector::default(); let _ = q0.has_intersection(); }
pub fn c23_robust_line_intersector_get_intersection__safe(p0: bool, p1: usize) { if p1 > 1 { return; } let q0 = RobustLineIntersector::default(); let _ = q0.get_intersection(p1); }
pub fn c23_robust_line_intersector_compute_intersection_3__safe(p0: bool, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = q0.compute_intersection_3(&q1, &q2, &q3); }
/// @opaque RobustLineIntersector::compute_intersect, RobustLineIntersector::intersection, Distance::point_to_segment, Intersection::intersection, Orientation::index, RobustLineIntersector::copy_with_z_interpolate, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5
pub fn c23_robust_line_intersector_compute_intersection_4__safe(p0: bool, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate, p4: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let q4 = p4.clone(); let _ = q0.compute_intersection_4(&q1, &q2, &q3, &q4); }
/// @opaque RobustLineIntersector::copy_with_z_interpolate, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5, RobustLineIntersector::intersection, RobustLineIntersector::is_in_segment_envelopes, RobustLineIntersector::compute_collinear_intersection, Orientation::index, Envelope::intersects_lines, Distance::point_to_segment
pub fn c23_robust_line_intersector_compute_intersect__safe(p0: bool, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate, p4: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let q4 = p4.clone(); let _ = q0.compute_intersect(&q1, &q2, &q3, &q4); }
pub fn c23_robust_line_intersector_compute_collinear_intersection__safe(p0: bool, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate, p4: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let q4 = p4.clone(); let _ = q0.compute_collinear_intersection(&q1, &q2, &q3, &q4); }
pub fn c23_robust_line_intersector_copy_with_z_interpolate__safe(p0: bool, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = q0.copy_with_z_interpolate(&q1, &q2, &q3); }
pub fn c23_robust_line_intersector_copy_with_z__safe(p0: bool, p1: &Coordinate, p2: f64) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let _ = q0.copy_with_z(&q1, p2); }
/// @opaque RobustLineIntersector::copy_with_z_interpolate, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5, RobustLineIntersector::intersection_safe, RobustLineIntersector::is_in_segment_envelopes, RobustLineIntersector::nearest_endpoint, Distance::point_to_segment
pub fn c23_robust_line_intersector_intersection__safe(p0: bool, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate, p4: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let q4 = p4.clone(); let _ = q0.intersection(&q1, &q2, &q3, &q4); }
/// @opaque RobustLineIntersector::nearest_endpoint, Intersection::intersection, Distance::point_to_segment
pub fn c23_robust_line_intersector_intersection_safe__safe(p0: bool, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate, p4: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let q4 = p4.clone(); let _ = q0.intersection_safe(&q1, &q2, &q3, &q4); }
pub fn c23_robust_line_intersector_is_in_segment_envelopes__safe(p0: bool, p1: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let _ = q0.is_in_segment_envelopes(&q1); }
/// @opaque Distance::point_to_segment
pub fn c23_robust_line_intersector_nearest_endpoint__safe(p0: bool, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate, p4: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let q4 = p4.clone(); let _ = q0.nearest_endpoint(&q1, &q2, &q3, &q4); }
pub fn c23_robust_line_intersector_get_z__safe(p0: bool, p1: &Coordinate, p2: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = q0.get_z(&q1, &q2); }
pub fn c23_robust_line_intersector_get_z_or_interpolate__safe(p0: bool, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = q0.get_z_or_interpolate(&q1, &q2, &q3); }
pub fn c23_robust_line_intersector_z_interpolate_3__safe(p0: bool, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = q0.z_interpolate_3(&q1, &q2, &q3); }
pub fn c23_robust_line_intersector_z_interpolate_5__safe(p0: bool, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate, p4: &Coordinate, p5: &Coordinate) { let mut q0 = RobustLineIntersector::default(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let q4 = p4.clone(); let q5 = p5.clone(); let _ = q0.z_interpolate_5(&q1, &q2, &q3, &q4, &q5); }
pub fn c23_coordinate_default__safe() {  let _ = Coordinate::default(); }
pub fn c23_coordinate_new_xy__safe(p0: f64, p1: f64) {  let _ = Coordinate::new_xy(p0, p1); }
pub fn c23_coordinate_new_xyz__safe(p0: f64, p1: f64, p2: f64) {  let _ = Coordinate::new_xyz(p0, p1, p2); }
pub fn c23_coordinate_new_xym__safe(p0: f64, p1: f64, p2: f64) {  let _ = Coordinate::new_xym(p0, p1, p2); }
pub fn c23_coordinate_new_xyzm__safe(p0: f64, p1: f64, p2: f64, p3: f64) {  let _ = Coordinate::new_xyzm(p0, p1, p2, p3); }
pub fn c23_coordinate_from_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = Coordinate::from_coordinate(&q0); }
pub fn c23_coordinate_new_coordinatexy_default__safe() {  let _ = Coordinate::new_coordinatexy_default(); }
pub fn c23_coordinate_new_coordinatexym_default__safe() {  let _ = Coordinate::new_coordinatexym_default(); }
pub fn c23_coordinate_new_coordinatexyzm_default__safe() {  let _ = Coordinate::new_coordinatexyzm_default(); }
pub fn c23_coordinate_new_coordinatexy__safe(p0: f64, p1: f64) {  let _ = Coordinate::new_coordinatexy(p0, p1); }
pub fn c23_coordinate_new_coordinatexym__safe(p0: f64, p1: f64, p2: f64) {  let _ = Coordinate::new_coordinatexym(p0, p1, p2); }
pub fn c23_coordinate_new_coordinatexyzm__safe(p0: f64, p1: f64, p2: f64, p3: f64) {  let _ = Coordinate::new_coordinatexyzm(p0, p1, p2, p3); }
pub fn c23_coordinate_create__safe() {  let _ = Coordinate::create(); }
pub fn c23_coordinate_set_coordinate__safe(p0: &Coordinate, p1: &Coordinate) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.set_coordinate(&q1); }
pub fn c23_coordinate_get_x__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = q0.get_x(); }
pub fn c23_coordinate_set_x__safe(p0: &Coordinate, p1: f64) { let mut q0 = p0.clone(); let _ = q0.set_x(p1); }
pub fn c23_coordinate_get_y__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = q0.get_y(); }
pub fn c23_coordinate_set_y__safe(p0: &Coordinate, p1: f64) { let mut q0 = p0.clone(); let _ = q0.set_y(p1); }
pub fn c23_coordinate_get_z__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = q0.get_z(); }
pub fn c23_coordinate_set_z__safe(p0: &Coordinate, p1: f64) { let mut q0 = p0.clone(); let _ = q0.set_z(p1); }
pub fn c23_coordinate_get_m__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = q0.get_m(); }
pub fn c23_coordinate_set_m__safe(p0: &Coordinate, p1: f64) { let mut q0 = p0.clone(); let _ = q0.set_m(p1); }
pub fn c23_coordinate_get_ordinate__safe(p0: &Coordinate, p1: i32) { let q0 = p0.clone(); let _ = q0.get_ordinate(p1); }
pub fn c23_coordinate_set_ordinate__safe(p0: &Coordinate, p1: i32, p2: f64) { let mut q0 = p0.clone(); let _ = q0.set_ordinate(p1, p2); }
pub fn c23_coordinate_is_valid__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = q0.is_valid(); }
pub fn c23_coordinate_is_xy__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = q0.is_xy(); }
pub fn c23_coordinate_is_xym__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = q0.is_xym(); }
pub fn c23_coordinate_is_xyzm__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = q0.is_xyzm(); }
pub fn c23_coordinate_equals_2d__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equals_2d(&q1); }
pub fn c23_coordinate_equals_2d_with_tolerance__safe(p0: &Coordinate, p1: &Coordinate, p2: f64) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equals_2d_with_tolerance(&q1, p2); }
pub fn c23_coordinate_equals_3d__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equals_3d(&q1); }
pub fn c23_coordinate_equal_in_z__safe(p0: &Coordinate, p1: &Coordinate, p2: f64) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equal_in_z(&q1, p2); }
pub fn c23_coordinate_equal_in_coordinate_z__safe(p0: &Coordinate, p1: &Coordinate, p2: f64) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equal_in_coordinate_z(&q1, p2); }
pub fn c23_coordinate_compare_to__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.compare_to(&q1); }
pub fn c23_coordinate_distance__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.distance(&q1); }
pub fn c23_coordinate_distance_3d__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.distance_3d(&q1); }
pub fn c23_coordinate_array_sequences_reverse__safe(p0: &Vec<C>) { let mut q0 = mk_seq(p0); let _ = CoordinateArraySequences::reverse(&mut q0); }
pub fn c23_coordinate_array_sequences_swap__safe(p0: &Vec<C>, p1: usize, p2: usize) { if p1 >= p0.len() || p2 >= p0.len() { return; } let mut q0 = mk_seq(p0); let _ = CoordinateArraySequences::swap(&mut q0, p1, p2); }
pub fn c23_coordinate_array_sequences_copy__safe(p0: &Vec<C>, p1: usize, p2: &Vec<C>, p3: usize, p4: usize) { if p4 > p0.len() || p4 > p2.len() || p1 > p0.len() - p4 || p3 > p2.len() - p4 { return; } let q0 = mk_seq(p0); let mut q2 = mk_seq(p2); let _ = CoordinateArraySequences::copy(&q0, p1, &mut q2, p3, p4); }
pub fn c23_coordinate_array_sequences_copy_coord__safe(p0: &Vec<C>, p1: usize, p2: &Vec<C>, p3: usize) { if p1 >= p0.len() || p3 >= p2.len() { return; } let q0 = mk_seq(p0); let mut q2 = mk_seq(p2); let _ = CoordinateArraySequences::copy_coord(&q0, p1, &mut q2, p3); }
pub fn c23_coordinate_array_sequences_is_ring__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = CoordinateArraySequences::is_ring(&q0); }
pub fn c23_coordinate_array_sequences_ensure_valid_ring__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = CoordinateArraySequences::ensure_valid_ring(&q0); }
pub fn c23_coordinate_array_sequences_create_closed_ring__safe(p0: &Vec<C>, p1: usize) { if p1 < p0.len() || p0.len() == 0 { return; } let q0 = mk_seq(p0); let _ = CoordinateArraySequences::create_closed_ring(&q0, p1); }
pub fn c23_coordinate_array_sequences_extend__safe(p0: &Vec<C>, p1: usize) { if p1 < p0.len() { return; } let q0 = mk_seq(p0); let _ = CoordinateArraySequences::extend(&q0, p1); }
pub fn c23_coordinate_array_sequences_is_equal__safe(p0: &Vec<C>, p1: &Vec<C>) { let q0 = mk_seq(p0); let q1 = mk_seq(p1); let _ = CoordinateArraySequences::is_equal(&q0, &q1); }
pub fn c23_coordinate_array_sequences_min_coordinate__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = CoordinateArraySequences::min_coordinate(&q0); }
pub fn c23_coordinate_array_sequences_min_coordinate_index_sequence__safe(p0: &Vec<C>) { if p0.len() == 0 { return; } let q0 = mk_seq(p0); let _ = CoordinateArraySequences::min_coordinate_index_sequence(&q0); }
pub fn c23_coordinate_array_sequences_min_coordinate_index_sequence_from_to__safe(p0: &Vec<C>, p1: usize, p2: usize) { if p2 >= p0.len() { return; } let q0 = mk_seq(p0); let _ = CoordinateArraySequences::min_coordinate_index_sequence_from_to(&q0, p1, p2); }
pub fn c23_coordinate_array_sequences_scroll_coordinate__safe(p0: &Vec<C>, p1: &Coordinate) { let mut q0 = mk_seq(p0); let q1 = p1.clone(); let _ = CoordinateArraySequences::scroll_coordinate(&mut q0, &q1); }
pub fn c23_coordinate_array_sequences_scroll_coordinate_index__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let mut q0 = mk_seq(p0); let _ = CoordinateArraySequences::scroll_coordinate_index(&mut q0, p1); }
pub fn c23_coordinate_array_sequences_scroll_coordinate_index_ensure_ring__safe(p0: &Vec<C>, p1: usize, p2: bool) { if p1 >= p0.len() || p0.len() < 2 { return; } let mut q0 = mk_seq(p0); let _ = CoordinateArraySequences::scroll_coordinate_index_ensure_ring(&mut q0, p1, p2); }
pub fn c23_coordinate_array_sequences_index_of__safe(p0: &Coordinate, p1: &Vec<C>) { let q0 = p0.clone(); let q1 = mk_seq(p1); let _ = CoordinateArraySequences::index_of(&q0, &q1); }
pub fn c23_coordinate_arrays_new__safe() {  let _ = CoordinateArrays::new(); }
pub fn c23_coordinate_arrays_dimension__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArrays::dimension(&q0); }
pub fn c23_coordinate_arrays_measures__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArrays::measures(&q0); }
pub fn c23_coordinate_arrays_enforce_consistency__safe(p0: &Vec<Coordinate>) { let mut q0 = p0.clone(); let _ = CoordinateArrays::enforce_consistency(&mut q0); }
pub fn c23_coordinate_arrays_enforce_consistency_dim_measures__safe(p0: &Vec<Coordinate>, p1: i32, p2: i32) { let q0 = p0.clone(); let _ = CoordinateArrays::enforce_consistency_dim_measures(&q0, p1, p2); }
pub fn c23_coordinate_arrays_is_ring__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArrays::is_ring(&q0); }
pub fn c23_coordinate_arrays_pt_not_in_list__safe(p0: &Vec<Coordinate>, p1: &Vec<Coordinate>) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = CoordinateArrays::pt_not_in_list(&q0, &q1); }
pub fn c23_coordinate_arrays_compare__safe(p0: &Vec<Coordinate>, p1: &Vec<Coordinate>) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = CoordinateArrays::compare(&q0, &q1); }
pub fn c23_coordinate_arrays_increasing_direction__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArrays::increasing_direction(&q0); }
pub fn c23_coordinate_arrays_is_equal_reversed__safe(p0: &Vec<Coordinate>, p1: &Vec<Coordinate>) { if p0.len() != p1.len() { return; } let q0 = p0.clone(); let q1 = p1.clone(); let _ = CoordinateArrays::is_equal_reversed(&q0, &q1); }
pub fn c23_coordinate_arrays_copy_deep__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArrays::copy_deep(&q0); }
pub fn c23_coordinate_arrays_copy_deep_to__safe(p0: &Vec<Coordinate>, p1: usize, p2: &Vec<Coordinate>, p3: usize, p4: usize) { if p4 > p0.len() || p4 > p2.len() || p1 > p0.len() - p4 || p3 > p2.len() - p4 { return; } let q0 = p0.clone(); let mut q2 = p2.clone(); let _ = CoordinateArrays::copy_deep_to(&q0, p1, &mut q2, p3, p4); }
pub fn c23_coordinate_arrays_has_repeated_points__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArrays::has_repeated_points(&q0); }
pub fn c23_coordinate_arrays_at_least_n_coordinates_or_nothing__safe(p0: usize, p1: &Vec<Coordinate>) { let q1 = p1.clone(); let _ = CoordinateArrays::at_least_n_coordinates_or_nothing(p0, &q1); }
pub fn c23_coordinate_arrays_remove_repeated_points__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArrays::remove_repeated_points(&q0); }
pub fn c23_coordinate_arrays_has_repeated_or_invalid_points__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArrays::has_repeated_or_invalid_points(&q0); }
pub fn c23_coordinate_arrays_remove_repeated_or_invalid_points__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArrays::remove_repeated_or_invalid_points(&q0); }
pub fn c23_coordinate_arrays_equals__safe(p0: &Vec<Coordinate>, p1: &Vec<Coordinate>) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = CoordinateArrays::equals(&q0, &q1); }
pub fn c23_coordinate_arrays_min_coordinate__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArrays::min_coordinate(&q0); }
pub fn c23_coordinate_arrays_scroll_coordinate__safe(p0: &Vec<Coordinate>, p1: &Coordinate) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = CoordinateArrays::scroll_coordinate(&mut q0, &q1); }
pub fn c23_coordinate_arrays_scroll_index__safe(p0: &Vec<Coordinate>, p1: usize) { if p1 >= p0.len() { return; } let mut q0 = p0.clone(); let _ = CoordinateArrays::scroll_index(&mut q0, p1); }
pub fn c23_coordinate_arrays_scroll_index_ensure_ring__safe(p0: &Vec<Coordinate>, p1: usize, p2: bool) { if p1 >= p0.len() { return; } let mut q0 = p0.clone(); let _ = CoordinateArrays::scroll_index_ensure_ring(&mut q0, p1, p2); }
pub fn c23_coordinate_arrays_index_of__safe(p0: &Coordinate, p1: &Vec<Coordinate>) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = CoordinateArrays::index_of(&q0, &q1); }
pub fn c23_coordinate_arrays_extract__safe(p0: &Vec<Coordinate>, p1: usize, p2: usize) { let q0 = p0.clone(); let _ = CoordinateArrays::extract(&q0, p1, p2); }
pub fn c23_coordinate_arrays_envelope__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArrays::envelope(&q0); }
pub fn c23_coordinate_arrays_intersection__safe(p0: &Vec<Coordinate>, p1: &Envelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = CoordinateArrays::intersection(&q0, &q1); }
pub fn c23_coordinate_list_default__safe() {  let _ = CoordinateList::default(); }
pub fn c23_coordinate_list_new__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateList::new(q0); }
pub fn c23_coordinate_list_new_with_repeated__safe(p0: &Vec<Coordinate>, p1: bool) { let q0 = p0.clone(); let _ = CoordinateList::new_with_repeated(q0, p1); }
pub fn c23_coordinate_list_get_coordinate__safe(p0: &Vec<C>, p1: usize) { let q0 = mk_list(p0); let _ = q0.get_coordinate(p1); }
pub fn c23_coordinate_list_add_coordinate_list_repeated_start_end__safe(p0: &Vec<C>, p1: &Vec<Coordinate>, p2: bool, p3: usize, p4: usize) { if p3 >= p1.len() || p4 > p1.len() { return; } let mut q0 = mk_list(p0); let q1 = p1.clone(); let _ = q0.add_coordinate_list_repeated_start_end(&q1, p2, p3, p4); }
pub fn c23_coordinate_list_add_coordinate_list_repeated_direction__safe(p0: &Vec<C>, p1: &Vec<Coordinate>, p2: bool, p3: bool) { let mut q0 = mk_list(p0); let q1 = p1.clone(); let _ = q0.add_coordinate_list_repeated_direction(&q1, p2, p3); }
pub fn c23_coordinate_list_add_coordinate_list_repeated__safe(p0: &Vec<C>, p1: &Vec<Coordinate>, p2: bool) { let mut q0 = mk_list(p0); let q1 = p1.clone(); let _ = q0.add_coordinate_list_repeated(&q1, p2); }
pub fn c23_coordinate_list_add_coordinate_repeated__safe(p0: &Vec<C>, p1: &Coordinate, p2: bool) { let mut q0 = mk_list(p0); let q1 = p1.clone(); let _ = q0.add_coordinate_repeated(q1, p2); }
pub fn c23_coordinate_list_add_index_coordinate_repeated__safe(p0: &Vec<C>, p1: usize, p2: &Coordinate, p3: bool) { if p1 > p0.len() { return; } let mut q0 = mk_list(p0); let q2 = p2.clone(); let _ = q0.add_index_coordinate_repeated(p1, q2, p3); }
pub fn c23_coordinate_list_add_all__safe(p0: &Vec<C>, p1: &Vec<Coordinate>, p2: bool) { let mut q0 = mk_list(p0); let q1 = p1.clone(); let _ = q0.add_all(q1, p2); }
pub fn c23_coordinate_list_close_ring__safe(p0: &Vec<C>) { let mut q0 = mk_list(p0); let _ = q0.close_ring(); }
pub fn c23_coordinate_list_to_coordinate_array__safe(p0: &Vec<C>) { let q0 = mk_list(p0); let _ = q0.to_coordinate_array(); }
pub fn c23_coordinate_list_to_coordinate_array_forward__safe(p0: &Vec<C>, p1: bool) { let q0 = mk_list(p0); let _ = q0.to_coordinate_array_forward(p1); }
pub fn c23_coordinate_sequence_comparator_compare_f64__safe(p0: f64, p1: f64) {  let _ = CoordinateSequenceComparator::compare_f64(p0, p1); }
pub fn c23_coordinate_sequence_comparator_default__safe() {  let _ = CoordinateSequenceComparator::default(); }
pub fn c23_coordinate_sequence_comparator_new_with_dimension_limit__safe(p0: i32) {  let _ = CoordinateSequenceComparator::new_with_dimension_limit(p0); }
pub fn c23_coordinate_sequence_comparator_compare_coordinate_array_sequence__safe(p0: &CoordinateSequenceComparator, p1: &Vec<C>, p2: &Vec<C>) { let q0 = p0.clone(); let q1 = mk_seq(p1); let q2 = mk_seq(p2); let _ = q0.compare_coordinate_array_sequence(&q1, &q2); }
pub fn c23_coordinate_sequence_comparator_compare_coordinate__safe(p0: &Vec<C>, p1: &Vec<C>, p2: i32, p3: i32) { if p2 < 0 || p2 as usize >= p0.len() || p2 as usize >= p1.len() || p3 > 4 { return; } let q0 = mk_seq(p0); let q1 = mk_seq(p1); let _ = CoordinateSequenceComparator::compare_coordinate(&q0, &q1, p2, p3); }
pub fn c23_coordinates_create_dim__safe(p0: i32) {  let _ = Coordinates::create_dim(p0); }
pub fn c23_coordinates_create_dim_measures__safe(p0: i32, p1: i32) {  let _ = Coordinates::create_dim_measures(p0, p1); }
pub fn c23_coordinates_dimension__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = Coordinates::dimension(&q0); }
pub fn c23_coordinates_measures__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = Coordinates::measures(&q0); }
pub fn c23_coordinates_equal__safe(p0: &Coordinate, p1: &Coordinate, p2: f64) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = Coordinates::equal(&q0, &q1, p2); }
pub fn c23_dimension_to_dimension_symbol__safe(p0: i32) {  let _ = Dimension::to_dimension_symbol(p0); }
pub fn c23_envelope_intersects_3__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Envelope::intersects_3(&q0, &q1, &q2); }
pub fn c23_envelope_intersects_4__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = Envelope::intersects_4(&q0, &q1, &q2, &q3); }
pub fn c23_envelope_default__safe() {  let _ = Envelope::default(); }
pub fn c23_envelope_new_xy__safe(p0: f64, p1: f64, p2: f64, p3: f64) {  let _ = Envelope::new_xy(p0, p1, p2, p3); }
pub fn c23_envelope_new_coordinates__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = Envelope::new_coordinates(&q0, &q1); }
pub fn c23_envelope_new_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = Envelope::new_coordinate(&q0); }
pub fn c23_envelope_new_envelope__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = Envelope::new_envelope(&q0); }
pub fn c23_envelope_init__safe(p0: &Envelope, p1: &Envelope) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.init(&q1); }
pub fn c23_envelope_copy__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.copy(); }
pub fn c23_envelope_set_to_null__safe(p0: &Envelope) { let mut q0 = p0.clone(); let _ = q0.set_to_null(); }
pub fn c23_envelope_is_null__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.is_null(); }
pub fn c23_envelope_get_width__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.get_width(); }
pub fn c23_envelope_get_height__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.get_height(); }
pub fn c23_envelope_get_diameter__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.get_diameter(); }
pub fn c23_envelope_get_min_x__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.get_min_x(); }
pub fn c23_envelope_get_max_x__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.get_max_x(); }
pub fn c23_envelope_get_min_y__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.get_min_y(); }
pub fn c23_envelope_get_max_y__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.get_max_y(); }
pub fn c23_envelope_get_area__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.get_area(); }
pub fn c23_envelope_min_extent__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.min_extent(); }
pub fn c23_envelope_max_extent__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.max_extent(); }
pub fn c23_envelope_expand_to_include_coordinate__safe(p0: &Envelope, p1: &Coordinate) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.expand_to_include_coordinate(&q1); }
pub fn c23_envelope_expand_by__safe(p0: &Envelope, p1: f64) { let mut q0 = p0.clone(); let _ = q0.expand_by(p1); }
pub fn c23_envelope_expand_by_delta_xy__safe(p0: &Envelope, p1: f64, p2: f64) { let mut q0 = p0.clone(); let _ = q0.expand_by_delta_xy(p1, p2); }
pub fn c23_envelope_expand_to_include_xy__safe(p0: &Envelope, p1: f64, p2: f64) { let mut q0 = p0.clone(); let _ = q0.expand_to_include_xy(p1, p2); }
pub fn c23_envelope_expand_to_include_envelope__safe(p0: &Envelope, p1: &Envelope) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.expand_to_include_envelope(&q1); }
pub fn c23_envelope_translate__safe(p0: &Envelope, p1: f64, p2: f64) { let mut q0 = p0.clone(); let _ = q0.translate(p1, p2); }
pub fn c23_envelope_centre__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = q0.centre(); }
pub fn c23_envelope_intersection_envelope__safe(p0: &Envelope, p1: &Envelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.intersection_envelope(&q1); }
pub fn c23_envelope_intersects_envelope__safe(p0: &Envelope, p1: &Envelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.intersects_envelope(&q1); }
pub fn c23_envelope_intersects_coordinate_ab__safe(p0: &Envelope, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = q0.intersects_coordinate_ab(&q1, &q2); }
pub fn c23_envelope_disjoint_envelope__safe(p0: &Envelope, p1: &Envelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.disjoint_envelope(&q1); }
pub fn c23_envelope_overlaps_envelope__safe(p0: &Envelope, p1: &Envelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.overlaps_envelope(&q1); }
pub fn c23_envelope_intersects_coordinate__safe(p0: &Envelope, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.intersects_coordinate(&q1); }
pub fn c23_envelope_overlaps_coordinate__safe(p0: &Envelope, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.overlaps_coordinate(&q1); }
pub fn c23_envelope_intersects_xy__safe(p0: &Envelope, p1: f64, p2: f64) { let q0 = p0.clone(); let _ = q0.intersects_xy(p1, p2); }
pub fn c23_envelope_overlaps_xy__safe(p0: &Envelope, p1: f64, p2: f64) { let q0 = p0.clone(); let _ = q0.overlaps_xy(p1, p2); }
pub fn c23_envelope_contains_envelope__safe(p0: &Envelope, p1: &Envelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.contains_envelope(&q1); }
pub fn c23_envelope_contains_coordinate__safe(p0: &Envelope, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.contains_coordinate(&q1); }
pub fn c23_envelope_contains_xy__safe(p0: &Envelope, p1: f64, p2: f64) { let q0 = p0.clone(); let _ = q0.contains_xy(p1, p2); }
pub fn c23_envelope_contains_properly__safe(p0: &Envelope, p1: &Envelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.contains_properly(&q1); }
pub fn c23_envelope_covers_xy__safe(p0: &Envelope, p1: f64, p2: f64) { let q0 = p0.clone(); let _ = q0.covers_xy(p1, p2); }
pub fn c23_envelope_covers_coordinate__safe(p0: &Envelope, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.covers_coordinate(&q1); }
pub fn c23_envelope_covers_envelope__safe(p0: &Envelope, p1: &Envelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.covers_envelope(&q1); }
pub fn c23_envelope_distance_envelope__safe(p0: &Envelope, p1: &Envelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.distance_envelope(&q1); }
pub fn c23_envelope_equals__safe(p0: &Envelope, p1: &Envelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equals(&q1); }
pub fn c23_envelope_compare_to_envelope__safe(p0: &Envelope, p1: &Envelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.compare_to_envelope(&q1); }
pub fn c23_geometry_equal__safe(p0: &Coordinate, p1: &Coordinate, p2: f64) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = Geometry::equal(&q0, &q1, p2); }
pub fn c23_geometry_factory_create_point__safe() {  let _ = GeometryFactory::create_point(); }
pub fn c23_geometry_factory_create_point_from_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = GeometryFactory::create_point_from_coordinate(&q0); }
pub fn c23_geometry_factory_create_point_from_coordinate_array_sequence__safe(p0: &Vec<C>) { if p0.len() > 1 { return; } let q0 = mk_seq(p0); let _ = GeometryFactory::create_point_from_coordinate_array_sequence(&q0); }
pub fn c23_geometry_factory_create_linear_ring__safe() {  let _ = GeometryFactory::create_linear_ring(); }
pub fn c23_geometry_factory_create_linear_ring_with_coordinates__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = GeometryFactory::create_linear_ring_with_coordinates(&q0); }
pub fn c23_geometry_factory_create_linear_ring_with_coordinate_array_sequence__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = GeometryFactory::create_linear_ring_with_coordinate_array_sequence(&q0); }
pub fn c23_geometry_factory_create_multi_point_with_coordinates__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = GeometryFactory::create_multi_point_with_coordinates(&q0); }
pub fn c23_geometry_factory_create_multi_point_from_coordinate_array_sequence__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = GeometryFactory::create_multi_point_from_coordinate_array_sequence(&q0); }
pub fn c23_geometry_factory_create_polygon_with_coordinate_array_sequence__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = GeometryFactory::create_polygon_with_coordinate_array_sequence(&q0); }
pub fn c23_geometry_factory_create_polygon_with_coordinates__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = GeometryFactory::create_polygon_with_coordinates(&q0); }
pub fn c23_geometry_factory_create_polygon_with_linear_ring__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = GeometryFactory::create_polygon_with_linear_ring(&q0); }
pub fn c23_geometry_factory_create_line_string__safe() {  let _ = GeometryFactory::create_line_string(); }
pub fn c23_geometry_factory_create_line_string_coordinates__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = GeometryFactory::create_line_string_coordinates(&q0); }
pub fn c23_geometry_factory_create_line_string_coordinate_array_sequence__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = GeometryFactory::create_line_string_coordinate_array_sequence(&q0); }
pub fn c23_intersection_matrix_default__safe() {  let _ = IntersectionMatrix::default(); }
pub fn c23_intersection_matrix_new_from_intersection_matrix__safe(p0: &IntersectionMatrix) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = IntersectionMatrix::new_from_intersection_matrix(&q0); }
pub fn c23_intersection_matrix_add__safe(p0: &IntersectionMatrix, p1: &IntersectionMatrix) { let mut q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let q1 = IntersectionMatrix::new_from_intersection_matrix(p1); let _ = q0.add(&q1); }
pub fn c23_intersection_matrix_is_true__safe(p0: &IntersectionMatrix, p1: i32) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.is_true(p1); }
pub fn c23_intersection_matrix_set_row_column_value__safe(p0: &IntersectionMatrix, p1: usize, p2: usize, p3: i32) { if p1 > 2 || p2 > 2 { return; } let mut q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.set_row_column_value(p1, p2, p3); }
pub fn c23_intersection_matrix_set_at_least_row_column_dimension__safe(p0: &IntersectionMatrix, p1: usize, p2: usize, p3: i32) { if p1 > 2 || p2 > 2 { return; } let mut q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.set_at_least_row_column_dimension(p1, p2, p3); }
pub fn c23_intersection_matrix_set_at_least_row_column_dimension_if_valid__safe(p0: &IntersectionMatrix, p1: usize, p2: usize, p3: i32) { if p1 > 2 || p2 > 2 { return; } let mut q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.set_at_least_row_column_dimension_if_valid(p1, p2, p3); }
pub fn c23_intersection_matrix_set_all__safe(p0: &IntersectionMatrix, p1: i32) { let mut q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.set_all(p1); }
pub fn c23_intersection_matrix_get__safe(p0: &IntersectionMatrix, p1: usize, p2: usize) { if p1 > 2 || p2 > 2 { return; } let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.get(p1, p2); }
pub fn c23_intersection_matrix_is_disjoint__safe(p0: &IntersectionMatrix) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.is_disjoint(); }
pub fn c23_intersection_matrix_is_intersects__safe(p0: &IntersectionMatrix) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.is_intersects(); }
pub fn c23_intersection_matrix_is_touches__safe(p0: &IntersectionMatrix, p1: i32, p2: i32) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.is_touches(p1, p2); }
pub fn c23_intersection_matrix_is_crosses__safe(p0: &IntersectionMatrix, p1: i32, p2: i32) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.is_crosses(p1, p2); }
pub fn c23_intersection_matrix_is_within__safe(p0: &IntersectionMatrix) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.is_within(); }
pub fn c23_intersection_matrix_is_contains__safe(p0: &IntersectionMatrix) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.is_contains(); }
pub fn c23_intersection_matrix_is_covers__safe(p0: &IntersectionMatrix) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.is_covers(); }
pub fn c23_intersection_matrix_is_covered_by__safe(p0: &IntersectionMatrix) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.is_covered_by(); }
pub fn c23_intersection_matrix_is_equals__safe(p0: &IntersectionMatrix, p1: i32, p2: i32) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.is_equals(p1, p2); }
pub fn c23_intersection_matrix_equals__safe(p0: &IntersectionMatrix, p1: &IntersectionMatrix) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let q1 = IntersectionMatrix::new_from_intersection_matrix(p1); let _ = q0.equals(&q1); }
pub fn c23_intersection_matrix_is_overlaps__safe(p0: &IntersectionMatrix, p1: i32, p2: i32) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.is_overlaps(p1, p2); }
pub fn c23_intersection_matrix_transpose__safe(p0: &IntersectionMatrix) { let mut q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.transpose(); }
pub fn c23_intersection_matrix_to_string__safe(p0: &IntersectionMatrix) { let q0 = IntersectionMatrix::new_from_intersection_matrix(p0); let _ = q0.to_string(); }
pub fn c23_line_segment_default__safe() {  let _ = LineSegment::default(); }
pub fn c23_line_segment_new_from_coordinates__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = LineSegment::new_from_coordinates(&q0, &q1); }
pub fn c23_line_segment_new_from_xy__safe(p0: f64, p1: f64, p2: f64, p3: f64) {  let _ = LineSegment::new_from_xy(p0, p1, p2, p3); }
pub fn c23_line_segment_new_from_line_segment__safe(p0: &LineSegment) { let q0 = p0.clone(); let _ = LineSegment::new_from_line_segment(&q0); }
pub fn c23_line_segment_get_coordinate__safe(p0: &LineSegment, p1: usize) { let q0 = p0.clone(); let _ = q0.get_coordinate(p1); }
pub fn c23_line_segment_set_coordinates_from_line_segment__safe(p0: &LineSegment, p1: &LineSegment) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.set_coordinates_from_line_segment(q1); }
pub fn c23_line_segment_set_coordinates__safe(p0: &LineSegment, p1: &Coordinate, p2: &Coordinate) { let mut q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = q0.set_coordinates(&q1, &q2); }
pub fn c23_line_segment_min_x__safe(p0: &LineSegment) { let q0 = p0.clone(); let _ = q0.min_x(); }
pub fn c23_line_segment_max_x__safe(p0: &LineSegment) { let q0 = p0.clone(); let _ = q0.max_x(); }
pub fn c23_line_segment_min_y__safe(p0: &LineSegment) { let q0 = p0.clone(); let _ = q0.min_y(); }
pub fn c23_line_segment_max_y__safe(p0: &LineSegment) { let q0 = p0.clone(); let _ = q0.max_y(); }
pub fn c23_line_segment_get_length__safe(p0: &LineSegment) { let q0 = p0.clone(); let _ = q0.get_length(); }
pub fn c23_line_segment_is_horizontal__safe(p0: &LineSegment) { let q0 = p0.clone(); let _ = q0.is_horizontal(); }
pub fn c23_line_segment_is_vertical__safe(p0: &LineSegment) { let q0 = p0.clone(); let _ = q0.is_vertical(); }
pub fn c23_line_segment_orientation_index_line_segment__safe(p0: &LineSegment, p1: &LineSegment) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.orientation_index_line_segment(&q1); }
pub fn c23_line_segment_orientation_index_coordinate__safe(p0: &LineSegment, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.orientation_index_coordinate(&q1); }
pub fn c23_line_segment_reverse__safe(p0: &LineSegment) { let mut q0 = p0.clone(); let _ = q0.reverse(); }
pub fn c23_line_segment_normalize__safe(p0: &LineSegment) { let mut q0 = p0.clone(); let _ = q0.normalize(); }
pub fn c23_line_segment_angle__safe(p0: &LineSegment) { let q0 = p0.clone(); let _ = q0.angle(); }
pub fn c23_line_segment_mid_point__safe(p0: &LineSegment) { let q0 = p0.clone(); let _ = q0.mid_point(); }
pub fn c23_line_segment_mid_point_coordinates__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = LineSegment::mid_point_coordinates(&q0, &q1); }
/// @opaque Distance::segment_to_segment
pub fn c23_line_segment_distance_line_segment__safe(p0: &LineSegment, p1: &LineSegment) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.distance_line_segment(&q1); }
pub fn c23_line_segment_distance_coordinate__safe(p0: &LineSegment, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.distance_coordinate(&q1); }
pub fn c23_line_segment_distance_perpendicular__safe(p0: &LineSegment, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.distance_perpendicular(&q1); }
pub fn c23_line_segment_distance_perpendicular_oriented__safe(p0: &LineSegment, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.distance_perpendicular_oriented(&q1); }
pub fn c23_line_segment_point_along__safe(p0: &LineSegment, p1: f64) { let q0 = p0.clone(); let _ = q0.point_along(p1); }
pub fn c23_line_segment_point_along_offset__safe(p0: &LineSegment, p1: f64, p2: f64) { let q0 = p0.clone(); let _ = q0.point_along_offset(p1, p2); }
pub fn c23_line_segment_projection_factor__safe(p0: &LineSegment, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.projection_factor(&q1); }
pub fn c23_line_segment_segment_fraction__safe(p0: &LineSegment, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.segment_fraction(&q1); }
pub fn c23_line_segment_project_coordinate__safe(p0: &LineSegment, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.project_coordinate(&q1); }
pub fn c23_line_segment_project_coordinate_with_projection_factor__safe(p0: &LineSegment, p1: &Coordinate, p2: f64) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.project_coordinate_with_projection_factor(&q1, p2); }
/// @opaque LineSegment::project_coordinate
pub fn c23_line_segment_project_line_segment__safe(p0: &LineSegment, p1: &LineSegment) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.project_line_segment(&q1); }
pub fn c23_line_segment_offset__safe(p0: &LineSegment, p1: f64) { let q0 = p0.clone(); let _ = q0.offset(p1); }
pub fn c23_line_segment_reflect__safe(p0: &LineSegment, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.reflect(&q1); }
pub fn c23_line_segment_closest_point__safe(p0: &LineSegment, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.closest_point(&q1); }
/// @opaque LineSegment::intersection, LineSegment::closest_point, RobustLineIntersector::compute_intersection_4
pub fn c23_line_segment_closest_points__safe(p0: &LineSegment, p1: &LineSegment) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.closest_points(&q1); }
/// @opaque RobustLineIntersector::compute_intersect, RobustLineIntersector::intersection, Distance::point_to_segment, Intersection::intersection, Orientation::index, RobustLineIntersector::copy_with_z_interpolate, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5
pub fn c23_line_segment_intersection__safe(p0: &LineSegment, p1: &LineSegment) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.intersection(&q1); }
pub fn c23_line_segment_line_intersection__safe(p0: &LineSegment, p1: &LineSegment) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.line_intersection(q1); }
pub fn c23_line_segment_equals__safe(p0: &LineSegment, p1: &LineSegment) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equals(&q1); }
pub fn c23_line_segment_compare_to__safe(p0: &LineSegment, p1: &LineSegment) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.compare_to(&q1); }
pub fn c23_line_segment_equals_topo__safe(p0: &LineSegment, p1: &LineSegment) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equals_topo(&q1); }
pub fn c23_line_string_new_from_coordinate_sequence__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = LineString::new_from_coordinate_sequence(q0); }
pub fn c23_line_string_init__safe(p0: &Vec<C>, p1: &Vec<C>) { let mut q0 = mk_line(p0); let q1 = mk_seq(p1); let _ = q0.init(q1); }
pub fn c23_line_string_get_coordinates__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.get_coordinates(); }
pub fn c23_line_string_get_coordinate_sequence__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.get_coordinate_sequence(); }
pub fn c23_line_string_get_coordinate_n__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_line(p0); let _ = q0.get_coordinate_n(p1); }
pub fn c23_line_string_get_coordinate__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.get_coordinate(); }
pub fn c23_line_string_get_dimension__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.get_dimension(); }
pub fn c23_line_string_get_boundary_dimension__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.get_boundary_dimension(); }
pub fn c23_line_string_is_empty__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.is_empty(); }
pub fn c23_line_string_get_num_points__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.get_num_points(); }
pub fn c23_line_string_get_point_n__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_line(p0); let _ = q0.get_point_n(p1); }
pub fn c23_line_string_get_start_point__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.get_start_point(); }
pub fn c23_line_string_get_end_point__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.get_end_point(); }
pub fn c23_line_string_is_closed__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.is_closed(); }
pub fn c23_line_string_is_ring__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.is_ring(); }
pub fn c23_line_string_get_geometry_type__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.get_geometry_type(); }
pub fn c23_line_string_get_length__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.get_length(); }
pub fn c23_line_string_reverse__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.reverse(); }
pub fn c23_line_string_reverse_internal__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.reverse_internal(); }
pub fn c23_line_string_is_coordinate__safe(p0: &Vec<C>, p1: &Coordinate) { let q0 = mk_line(p0); let q1 = p1.clone(); let _ = q0.is_coordinate(&q1); }
pub fn c23_line_string_compute_envelope_internal__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.compute_envelope_internal(); }
pub fn c23_line_string_equals_exact__safe(p0: &Vec<C>, p1: &Vec<C>, p2: f64) { let q0 = mk_line(p0); let q1 = mk_line(p1); let _ = q0.equals_exact(&q1, p2); }
pub fn c23_line_string_copy__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = q0.copy(); }
pub fn c23_line_string_normalize__safe(p0: &Vec<C>) { let mut q0 = mk_line(p0); let _ = q0.normalize(); }
pub fn c23_line_string_compare_to__safe(p0: &Vec<C>, p1: &Vec<C>) { let q0 = mk_line(p0); let q1 = mk_line(p1); let _ = q0.compare_to(&q1); }
pub fn c23_line_string_compare_to_with_comparator__safe(p0: &Vec<C>, p1: &Vec<C>, p2: &CoordinateSequenceComparator) { let q0 = mk_line(p0); let q1 = mk_line(p1); let q2 = p2.clone(); let _ = q0.compare_to_with_comparator(&q1, &q2); }
pub fn c23_line_string_get_type_code__safe() {  let _ = LineString::get_type_code(); }
pub fn c23_linear_ring_new_with_coordinates__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = LinearRing::new_with_coordinates(&q0); }
pub fn c23_linear_ring_new_with_coordinate_array_sequence__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = LinearRing::new_with_coordinate_array_sequence(&q0); }
pub fn c23_linear_ring_get_coordinate__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.get_coordinate(); }
pub fn c23_linear_ring_get_coordinates__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.get_coordinates(); }
pub fn c23_linear_ring_get_coordinate_array_sequence__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.get_coordinate_array_sequence(); }
pub fn c23_linear_ring_get_envelope_internal__safe(p0: &Vec<C>) { let mut q0 = mk_ring(p0); let _ = q0.get_envelope_internal(); }
pub fn c23_linear_ring_compute_envelope_internal__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.compute_envelope_internal(); }
pub fn c23_linear_ring_get_length__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.get_length(); }
pub fn c23_linear_ring_get_boundary_dimension__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.get_boundary_dimension(); }
pub fn c23_linear_ring_is_empty__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.is_empty(); }
pub fn c23_linear_ring_is_closed__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.is_closed(); }
pub fn c23_linear_ring_get_coordinate_at_index__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_ring(p0); let _ = q0.get_coordinate_at_index(p1); }
pub fn c23_linear_ring_get_num_points__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.get_num_points(); }
pub fn c23_linear_ring_get_geometry_type__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.get_geometry_type(); }
pub fn c23_linear_ring_get_type_code__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.get_type_code(); }
pub fn c23_linear_ring_copy__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.copy(); }
pub fn c23_linear_ring_reverse__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.reverse(); }
pub fn c23_linear_ring_reverse_internal__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = q0.reverse_internal(); }
pub fn c23_linear_ring_equals_exact__safe(p0: &Vec<C>, p1: &Vec<C>, p2: f64) { let q0 = mk_ring(p0); let q1 = mk_ring(p1); let _ = q0.equals_exact(&q1, p2); }
pub fn c23_linear_ring_compare_to_same_class__safe(p0: &Vec<C>, p1: &Vec<C>) { let q0 = mk_ring(p0); let q1 = mk_ring(p1); let _ = q0.compare_to_same_class(&q1); }
pub fn c23_linear_ring_compare_to_same_class_with_comparator__safe(p0: &Vec<C>, p1: &Vec<C>, p2: &CoordinateSequenceComparator) { let q0 = mk_ring(p0); let q1 = mk_ring(p1); let q2 = p2.clone(); let _ = q0.compare_to_same_class_with_comparator(&q1, &q2); }
pub fn c23_location_to_location_symbol__safe(p0: i32) {  let _ = Location::to_location_symbol(p0); }
pub fn c23_multi_line_string_get_dimension__safe(p0: &Vec<C>) { let q0 = mk_mls(p0); let _ = q0.get_dimension(); }
pub fn c23_multi_line_string_has_dimension__safe(p0: &Vec<C>, p1: i32) { let q0 = mk_mls(p0); let _ = q0.has_dimension(p1); }
pub fn c23_multi_line_string_get_boundary_dimension__safe(p0: &Vec<C>) { let q0 = mk_mls(p0); let _ = q0.get_boundary_dimension(); }
pub fn c23_multi_line_string_get_geometry_type__safe(p0: &Vec<C>) { let q0 = mk_mls(p0); let _ = q0.get_geometry_type(); }
pub fn c23_multi_line_string_is_empty__safe(p0: &Vec<C>) { let q0 = mk_mls(p0); let _ = q0.is_empty(); }
pub fn c23_multi_line_string_is_closed__safe(p0: &Vec<C>) { let q0 = mk_mls(p0); let _ = q0.is_closed(); }
pub fn c23_multi_line_string_reverse__safe(p0: &Vec<C>) { let q0 = mk_mls(p0); let _ = q0.reverse(); }
pub fn c23_multi_line_string_copy_internal__safe(p0: &Vec<C>) { let q0 = mk_mls(p0); let _ = q0.copy_internal(); }
pub fn c23_multi_line_string_equals_exact__safe(p0: &Vec<C>, p1: &Vec<C>, p2: f64) { let q0 = mk_mls(p0); let q1 = mk_mls(p1); let _ = q0.equals_exact(&q1, p2); }
pub fn c23_multi_line_string_get_type_code__safe() {  let _ = MultiLineString::get_type_code(); }
pub fn c23_multi_point_is_empty__safe(p0: &Vec<C>) { let q0 = mk_mp(p0); let _ = q0.is_empty(); }
pub fn c23_multi_point_get_num_points__safe(p0: &Vec<C>) { let q0 = mk_mp(p0); let _ = q0.get_num_points(); }
pub fn c23_multi_point_get_precision_model__safe(p0: &Vec<C>) { let q0 = mk_mp(p0); let _ = q0.get_precision_model(); }
pub fn c23_multi_point_get_dimension__safe(p0: &Vec<C>) { let q0 = mk_mp(p0); let _ = q0.get_dimension(); }
pub fn c23_multi_point_has_dimension__safe(p0: &Vec<C>, p1: i32) { let q0 = mk_mp(p0); let _ = q0.has_dimension(p1); }
pub fn c23_multi_point_get_boundary_dimension__safe(p0: &Vec<C>) { let q0 = mk_mp(p0); let _ = q0.get_boundary_dimension(); }
pub fn c23_multi_point_get_geometry_type__safe(p0: &Vec<C>) { let q0 = mk_mp(p0); let _ = q0.get_geometry_type(); }
pub fn c23_multi_point_get_envelope_internal__safe(p0: &Vec<C>) { let mut q0 = mk_mp(p0); let _ = q0.get_envelope_internal(); }
pub fn c23_multi_point_reverse__safe(p0: &Vec<C>) { let q0 = mk_mp(p0); let _ = q0.reverse(); }
pub fn c23_multi_point_equals_exact__safe(p0: &Vec<C>, p1: &Vec<C>, p2: f64) { let q0 = mk_mp(p0); let q1 = mk_mp(p1); let _ = q0.equals_exact(q1, p2); }
pub fn c23_multi_point_get_point_at_index__safe(p0: &Vec<C>, p1: usize) { let q0 = mk_mp(p0); let _ = q0.get_point_at_index(p1); }
pub fn c23_multi_point_get_coordinate__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_mp(p0); let _ = q0.get_coordinate(p1); }
pub fn c23_multi_point_get_coordinates__safe(p0: &Vec<C>) { let q0 = mk_mp(p0); let _ = q0.get_coordinates(); }
pub fn c23_multi_point_copy__safe(p0: &Vec<C>) { let q0 = mk_mp(p0); let _ = q0.copy(); }
pub fn c23_multi_point_get_type_code__safe() {  let _ = MultiPoint::get_type_code(); }
pub fn c23_multi_polygon_get_dimension__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = q0.get_dimension(); }
pub fn c23_multi_polygon_has_dimension__safe(p0: &Vec<C>, p1: i32) { let q0 = mk_mpoly(p0); let _ = q0.has_dimension(p1); }
pub fn c23_multi_polygon_get_boundary_dimension__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = q0.get_boundary_dimension(); }
pub fn c23_multi_polygon_get_geometry_type__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = q0.get_geometry_type(); }
pub fn c23_multi_polygon_get_area__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = q0.get_area(); }
pub fn c23_multi_polygon_get_num_polygons__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = q0.get_num_polygons(); }
pub fn c23_multi_polygon_get_polygon_at_index__safe(p0: &Vec<C>, p1: usize) { if p1 >= 1 { return; } let q0 = mk_mpoly(p0); let _ = q0.get_polygon_at_index(p1); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_multi_polygon_get_centroid__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = q0.get_centroid(); }
pub fn c23_multi_polygon_is_empty__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = q0.is_empty(); }
pub fn c23_multi_polygon_equals_exact__safe(p0: &Vec<C>, p1: &Vec<C>, p2: f64) { let q0 = mk_mpoly(p0); let q1 = mk_mpoly(p1); let _ = q0.equals_exact(q1, p2); }
pub fn c23_multi_polygon_reverse__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = q0.reverse(); }
pub fn c23_multi_polygon_copy__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = q0.copy(); }
pub fn c23_multi_polygon_get_type_code__safe(p0: &Vec<C>) { let q0 = mk_mpoly(p0); let _ = q0.get_type_code(); }
pub fn c23_octagonal_envelope_default__safe() {  let _ = OctagonalEnvelope::default(); }
pub fn c23_octagonal_envelope_new_with_coordinate__safe(p0: &Coordinate) { let q0 = p0.clone(); let _ = OctagonalEnvelope::new_with_coordinate(&q0); }
pub fn c23_octagonal_envelope_new_with_coordinates__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = OctagonalEnvelope::new_with_coordinates(&q0, &q1); }
pub fn c23_octagonal_envelope_new_with_envelope__safe(p0: &Envelope) { let q0 = p0.clone(); let _ = OctagonalEnvelope::new_with_envelope(&q0); }
pub fn c23_octagonal_envelope_new_with_octagonal_envelope__safe(p0: &OctagonalEnvelope) { let q0 = p0.clone(); let _ = OctagonalEnvelope::new_with_octagonal_envelope(&q0); }
pub fn c23_octagonal_envelope_new_with_line_string__safe(p0: &Vec<C>) { let q0 = mk_line(p0); let _ = OctagonalEnvelope::new_with_line_string(&q0); }
pub fn c23_octagonal_envelope_get_min_x__safe(p0: &OctagonalEnvelope) { let q0 = p0.clone(); let _ = q0.get_min_x(); }
pub fn c23_octagonal_envelope_get_max_x__safe(p0: &OctagonalEnvelope) { let q0 = p0.clone(); let _ = q0.get_max_x(); }
pub fn c23_octagonal_envelope_get_min_y__safe(p0: &OctagonalEnvelope) { let q0 = p0.clone(); let _ = q0.get_min_y(); }
pub fn c23_octagonal_envelope_get_max_y__safe(p0: &OctagonalEnvelope) { let q0 = p0.clone(); let _ = q0.get_max_y(); }
pub fn c23_octagonal_envelope_get_min_a__safe(p0: &OctagonalEnvelope) { let q0 = p0.clone(); let _ = q0.get_min_a(); }
pub fn c23_octagonal_envelope_get_max_a__safe(p0: &OctagonalEnvelope) { let q0 = p0.clone(); let _ = q0.get_max_a(); }
pub fn c23_octagonal_envelope_get_min_b__safe(p0: &OctagonalEnvelope) { let q0 = p0.clone(); let _ = q0.get_min_b(); }
pub fn c23_octagonal_envelope_get_max_b__safe(p0: &OctagonalEnvelope) { let q0 = p0.clone(); let _ = q0.get_max_b(); }
pub fn c23_octagonal_envelope_is_null__safe(p0: &OctagonalEnvelope) { let q0 = p0.clone(); let _ = q0.is_null(); }
pub fn c23_octagonal_envelope_set_to_null__safe(p0: &OctagonalEnvelope) { let mut q0 = p0.clone(); let _ = q0.set_to_null(); }
pub fn c23_octagonal_envelope_expand_to_include_coordinate_array_sequence__safe(p0: &OctagonalEnvelope, p1: &Vec<C>) { let mut q0 = p0.clone(); let q1 = mk_seq(p1); let _ = q0.expand_to_include_coordinate_array_sequence(&q1); }
pub fn c23_octagonal_envelope_expand_to_include_octagonal_envelope__safe(p0: &OctagonalEnvelope, p1: &OctagonalEnvelope) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.expand_to_include_octagonal_envelope(&q1); }
pub fn c23_octagonal_envelope_expand_to_include_coordinate__safe(p0: &OctagonalEnvelope, p1: &Coordinate) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.expand_to_include_coordinate(&q1); }
pub fn c23_octagonal_envelope_expand_to_include_envelope__safe(p0: &OctagonalEnvelope, p1: &Envelope) { let mut q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.expand_to_include_envelope(&q1); }
pub fn c23_octagonal_envelope_expand_to_include_xy__safe(p0: &OctagonalEnvelope, p1: f64, p2: f64) { let mut q0 = p0.clone(); let _ = q0.expand_to_include_xy(p1, p2); }
pub fn c23_octagonal_envelope_expand_by_distance__safe(p0: &OctagonalEnvelope, p1: f64) { let mut q0 = p0.clone(); let _ = q0.expand_by_distance(p1); }
pub fn c23_octagonal_envelope_is_valid__safe(p0: &OctagonalEnvelope) { let q0 = p0.clone(); let _ = q0.is_valid(); }
pub fn c23_octagonal_envelope_intersects_octagonal_envelope__safe(p0: &OctagonalEnvelope, p1: &OctagonalEnvelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.intersects_octagonal_envelope(&q1); }
pub fn c23_octagonal_envelope_intersects_coordinate__safe(p0: &OctagonalEnvelope, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.intersects_coordinate(&q1); }
pub fn c23_octagonal_envelope_contains_octagonal_envelope__safe(p0: &OctagonalEnvelope, p1: &OctagonalEnvelope) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.contains_octagonal_envelope(&q1); }
pub fn c23_packed_coordinate_sequences_swap__safe(p0: &Vec<C>, p1: usize, p2: usize) { if p1 >= p0.len() || p2 >= p0.len() { return; } let mut q0 = mk_packed(p0); let _ = PackedCoordinateSequences::swap(&mut q0, p1, p2); }
pub fn c23_packed_coordinate_sequences_copy__safe(p0: &Vec<C>, p1: usize, p2: &Vec<C>, p3: usize, p4: usize) { if p4 > p0.len() || p4 > p2.len() || p1 > p0.len() - p4 || p3 > p2.len() - p4 { return; } let q0 = mk_packed(p0); let mut q2 = mk_packed(p2); let _ = PackedCoordinateSequences::copy(&q0, p1, &mut q2, p3, p4); }
pub fn c23_packed_coordinate_sequences_copy_coord__safe(p0: &Vec<C>, p1: usize, p2: &Vec<C>, p3: usize) { if p1 >= p0.len() || p3 >= p2.len() { return; } let q0 = mk_packed(p0); let mut q2 = mk_packed(p2); let _ = PackedCoordinateSequences::copy_coord(&q0, p1, &mut q2, p3); }
pub fn c23_packed_coordinate_sequences_is_ring__safe(p0: &Vec<C>) { let q0 = mk_packed(p0); let _ = PackedCoordinateSequences::is_ring(&q0); }
pub fn c23_packed_coordinate_sequences_ensure_valid_ring__safe(p0: &Vec<C>) { let q0 = mk_packed(p0); let _ = PackedCoordinateSequences::ensure_valid_ring(&q0); }
pub fn c23_packed_coordinate_sequences_create_closed_ring__safe(p0: &Vec<C>, p1: usize) { if p1 < p0.len() || p0.len() == 0 { return; } let q0 = mk_packed(p0); let _ = PackedCoordinateSequences::create_closed_ring(&q0, p1); }
pub fn c23_packed_coordinate_sequences_extend__safe(p0: &Vec<C>, p1: usize) { if p1 < p0.len() { return; } let q0 = mk_packed(p0); let _ = PackedCoordinateSequences::extend(&q0, p1); }
pub fn c23_packed_coordinate_sequences_is_equal__safe(p0: &Vec<C>, p1: &Vec<C>) { let q0 = mk_packed(p0); let q1 = mk_packed(p1); let _ = PackedCoordinateSequences::is_equal(&q0, &q1); }
pub fn c23_packed_coordinate_sequences_min_coordinate__safe(p0: &Vec<C>) { let q0 = mk_packed(p0); let _ = PackedCoordinateSequences::min_coordinate(&q0); }
pub fn c23_packed_coordinate_sequences_min_coordinate_index_sequence__safe(p0: &Vec<C>) { if p0.len() == 0 { return; } let q0 = mk_packed(p0); let _ = PackedCoordinateSequences::min_coordinate_index_sequence(&q0); }
pub fn c23_packed_coordinate_sequences_min_coordinate_index_sequence_from_to__safe(p0: &Vec<C>, p1: usize, p2: usize) { if p2 >= p0.len() { return; } let q0 = mk_packed(p0); let _ = PackedCoordinateSequences::min_coordinate_index_sequence_from_to(&q0, p1, p2); }
pub fn c23_packed_coordinate_sequences_scroll_coordinate__safe(p0: &Vec<C>, p1: &Coordinate) { let mut q0 = mk_packed(p0); let q1 = p1.clone(); let _ = PackedCoordinateSequences::scroll_coordinate(&mut q0, &q1); }
pub fn c23_packed_coordinate_sequences_scroll_coordinate_index__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let mut q0 = mk_packed(p0); let _ = PackedCoordinateSequences::scroll_coordinate_index(&mut q0, p1); }
pub fn c23_packed_coordinate_sequences_index_of__safe(p0: &Coordinate, p1: &Vec<C>) { let q0 = p0.clone(); let q1 = mk_packed(p1); let _ = PackedCoordinateSequences::index_of(&q0, &q1); }
pub fn c23_point_default__safe() {  let _ = Point::default(); }
pub fn c23_point_new_with_coordinate_seq__safe(p0: &Vec<C>) { if p0.len() > 1 { return; } let q0 = mk_seq(p0); let _ = Point::new_with_coordinate_seq(&q0); }
pub fn c23_point_get_coordinates__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.get_coordinates(); }
pub fn c23_point_get_num_points__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.get_num_points(); }
pub fn c23_point_is_empty__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.is_empty(); }
pub fn c23_point_is_simple__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.is_simple(); }
pub fn c23_point_get_dimension__safe() {  let _ = Point::get_dimension(); }
pub fn c23_point_get_boundary_dimension__safe() {  let _ = Point::get_boundary_dimension(); }
pub fn c23_point_get_x__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.get_x(); }
pub fn c23_point_get_y__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.get_y(); }
pub fn c23_point_get_coordinate__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.get_coordinate(); }
pub fn c23_point_get_geometry_type__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.get_geometry_type(); }
pub fn c23_point_get_envelope_internal__safe(p0: &Option<C>) { let mut q0 = mk_point(p0); let _ = q0.get_envelope_internal(); }
pub fn c23_point_compute_envelope_internal__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.compute_envelope_internal(); }
pub fn c23_point_equals_exact__safe(p0: &Option<C>, p1: &Option<C>, p2: f64) { let q0 = mk_point(p0); let q1 = mk_point(p1); let _ = q0.equals_exact(&q1, p2); }
pub fn c23_point_copy__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.copy(); }
pub fn c23_point_reverse__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.reverse(); }
pub fn c23_point_reverse_internal__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.reverse_internal(); }
pub fn c23_point_compare_to_same_class__safe(p0: &Option<C>, p1: &Option<C>, p2: &CoordinateSequenceComparator) { let q0 = mk_point(p0); let q1 = mk_point(p1); let q2 = p2.clone(); let _ = q0.compare_to_same_class(&q1, &q2); }
pub fn c23_point_get_type_code__safe() {  let _ = Point::get_type_code(); }
pub fn c23_point_get_coordinate_sequence__safe(p0: &Option<C>) { let q0 = mk_point(p0); let _ = q0.get_coordinate_sequence(); }
pub fn c23_polygon_new_with_linear_ring_precision_model__safe(p0: &Vec<C>, p1: &PrecisionModel) { let q0 = mk_ring(p0); let q1 = p1.clone(); let _ = Polygon::new_with_linear_ring_precision_model(&q0, q1); }
pub fn c23_polygon_new_with_linear_ring__safe(p0: &Vec<C>) { let q0 = mk_ring(p0); let _ = Polygon::new_with_linear_ring(&q0); }
pub fn c23_polygon_get_coordinate__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.get_coordinate(); }
pub fn c23_polygon_get_coordinates__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.get_coordinates(); }
pub fn c23_polygon_get_num_points__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.get_num_points(); }
pub fn c23_polygon_get_dimension__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.get_dimension(); }
pub fn c23_polygon_get_boundary_dimension__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.get_boundary_dimension(); }
pub fn c23_polygon_is_empty__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.is_empty(); }
pub fn c23_polygon_is_rectangle__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.is_rectangle(); }
pub fn c23_polygon_get_exterior_ring__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.get_exterior_ring(); }
pub fn c23_polygon_get_num_interior_ring__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.get_num_interior_ring(); }
pub fn c23_polygon_get_interior_ring_n__safe(p0: &Vec<C>, h: &Vec<C>, p1: usize) { if p1 > 0 { return; } let q0 = Polygon::new_with_linear_ring_vec(&mk_ring(p0), &vec![mk_ring(h)]); let _ = q0.get_interior_ring_n(p1); }
pub fn c23_polygon_get_geometry_type__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.get_geometry_type(); }
pub fn c23_polygon_get_area__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.get_area(); }
pub fn c23_polygon_get_length__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.get_length(); }
pub fn c23_polygon_compute_envelope_internal__safe(p0: &Vec<C>) { let mut q0 = mk_poly(p0); let _ = q0.compute_envelope_internal(); }
pub fn c23_polygon_equals_exact__safe(p0: &Vec<C>, p1: &Vec<C>, p2: f64) { let q0 = mk_poly(p0); let q1 = mk_poly(p1); let _ = q0.equals_exact(&q1, p2); }
pub fn c23_polygon_copy__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.copy(); }
pub fn c23_polygon_compare_to__safe(p0: &Vec<C>, p1: &Vec<C>) { let q0 = mk_poly(p0); let q1 = mk_poly(p1); let _ = q0.compare_to(&q1); }
/// @opaque LinearRing::compare_to_same_class_with_comparator
pub fn c23_polygon_compare_to_with_comparator__safe(p0: &Vec<C>, p1: &Vec<C>, p2: &CoordinateSequenceComparator) { let q0 = mk_poly(p0); let q1 = mk_poly(p1); let q2 = p2.clone(); let _ = q0.compare_to_with_comparator(&q1, &q2); }
pub fn c23_polygon_get_type_code__safe() {  let _ = Polygon::get_type_code(); }
pub fn c23_polygon_reverse__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.reverse(); }
pub fn c23_polygon_get_envelope_internal__safe(p0: &Vec<C>) { let mut q0 = mk_poly(p0); let _ = q0.get_envelope_internal(); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_polygon_get_centroid__safe(p0: &Vec<C>) { let q0 = mk_poly(p0); let _ = q0.get_centroid(); }
pub fn c23_position_opposite__safe(p0: i32) {  let _ = Position::opposite(p0); }
pub fn c23_precision_model_default__safe() {  let _ = PrecisionModel::default(); }
pub fn c23_precision_model_new_with_scale__safe(p0: f64) {  let _ = PrecisionModel::new_with_scale(p0); }
pub fn c23_precision_model_from_precision_model__safe(p0: &PrecisionModel) { let q0 = p0.clone(); let _ = PrecisionModel::from_precision_model(q0); }
pub fn c23_precision_model_is_floating__safe(p0: &PrecisionModel) { let q0 = p0.clone(); let _ = q0.is_floating(); }
pub fn c23_precision_model_get_maximum_significant_digits__safe(p0: &PrecisionModel) { let q0 = p0.clone(); let _ = q0.get_maximum_significant_digits(); }
pub fn c23_precision_model_get_scale__safe(p0: &PrecisionModel) { let q0 = p0.clone(); let _ = q0.get_scale(); }
pub fn c23_precision_model_grid_size__safe(p0: &PrecisionModel) { let q0 = p0.clone(); let _ = q0.grid_size(); }
pub fn c23_precision_model_get_type__safe(p0: &PrecisionModel) { let q0 = p0.clone(); let _ = q0.get_type(); }
pub fn c23_precision_model_set_scale__safe(p0: &PrecisionModel, p1: f64) { let mut q0 = p0.clone(); let _ = q0.set_scale(p1); }
pub fn c23_precision_model_make_precise__safe(p0: &PrecisionModel, p1: f64) { let mut q0 = p0.clone(); let _ = q0.make_precise(p1); }
pub fn c23_precision_model_make_precise_coordinate__safe(p0: &PrecisionModel, p1: &Coordinate) { let mut q0 = p0.clone(); let mut q1 = p1.clone(); let _ = q0.make_precise_coordinate(&mut q1); }
pub fn c23_precision_model_equals__safe(p0: &PrecisionModel, p1: &PrecisionModel) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.equals(q1); }
pub fn c23_precision_model_compare_to__safe(p0: &PrecisionModel, p1: &PrecisionModel) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.compare_to(&q1); }
pub fn c23_quadrant_quadrant_xy__safe(p0: f64, p1: f64) {  let _ = Quadrant::quadrant_xy(p0, p1); }
pub fn c23_quadrant_quadrant_coordinates__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = Quadrant::quadrant_coordinates(&q0, &q1); }
pub fn c23_quadrant_is_opposite__safe(p0: i32, p1: i32) {  let _ = Quadrant::is_opposite(p0, p1); }
pub fn c23_quadrant_common_half_plane__safe(p0: i32, p1: i32) {  let _ = Quadrant::common_half_plane(p0, p1); }
pub fn c23_quadrant_is_in_half_plane__safe(p0: i32, p1: i32) {  let _ = Quadrant::is_in_half_plane(p0, p1); }
pub fn c23_quadrant_is_northern__safe(p0: i32) {  let _ = Quadrant::is_northern(p0); }
pub fn c23_triangle_new__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::new(&q0, &q1, &q2); }
pub fn c23_triangle_is_acute_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::is_acute_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_is_ccw_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::is_ccw_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_intersects_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = Triangle::intersects_coordinates(&q0, &q1, &q2, &q3); }
pub fn c23_triangle_perpendicular_bisector_coordinates__safe(p0: &Coordinate, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = Triangle::perpendicular_bisector_coordinates(&q0, &q1); }
pub fn c23_triangle_circumradius_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::circumradius_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_circumcentre_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::circumcentre_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_circumcentre_dd_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::circumcentre_dd_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_det_f64__safe(p0: f64, p1: f64, p2: f64, p3: f64) {  let _ = Triangle::det_f64(p0, p1, p2, p3); }
pub fn c23_triangle_in_centre_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::in_centre_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_centroid_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::centroid_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_length_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::length_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_longest_side_length_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::longest_side_length_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_angle_bisector_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::angle_bisector_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_area_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::area_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_signed_area_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::signed_area_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_area_3d_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let _ = Triangle::area_3d_coordinates(&q0, &q1, &q2); }
pub fn c23_triangle_interpolate_z_coordinates__safe(p0: &Coordinate, p1: &Coordinate, p2: &Coordinate, p3: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let q2 = p2.clone(); let q3 = p3.clone(); let _ = Triangle::interpolate_z_coordinates(&q0, &q1, &q2, &q3); }
pub fn c23_triangle_in_centre__safe(p0: &Triangle) { let q0 = p0.clone(); let _ = q0.in_centre(); }
pub fn c23_triangle_is_acute__safe(p0: &Triangle) { let q0 = p0.clone(); let _ = q0.is_acute(); }
pub fn c23_triangle_is_ccw__safe(p0: &Triangle) { let q0 = p0.clone(); let _ = q0.is_ccw(); }
pub fn c23_triangle_circumcentre__safe(p0: &Triangle) { let q0 = p0.clone(); let _ = q0.circumcentre(); }
pub fn c23_triangle_circumradius__safe(p0: &Triangle) { let q0 = p0.clone(); let _ = q0.circumradius(); }
pub fn c23_triangle_centroid__safe(p0: &Triangle) { let q0 = p0.clone(); let _ = q0.centroid(); }
pub fn c23_triangle_length__safe(p0: &Triangle) { let q0 = p0.clone(); let _ = q0.length(); }
pub fn c23_triangle_longest_side_length__safe(p0: &Triangle) { let q0 = p0.clone(); let _ = q0.longest_side_length(); }
pub fn c23_triangle_area__safe(p0: &Triangle) { let q0 = p0.clone(); let _ = q0.area(); }
pub fn c23_triangle_signed_area__safe(p0: &Triangle) { let q0 = p0.clone(); let _ = q0.signed_area(); }
pub fn c23_triangle_area_3d__safe(p0: &Triangle) { let q0 = p0.clone(); let _ = q0.area_3d(); }
pub fn c23_triangle_interpolate_z__safe(p0: &Triangle, p1: &Coordinate) { let q0 = p0.clone(); let q1 = p1.clone(); let _ = q0.interpolate_z(&q1); }
pub fn c23_coordinate_array_sequence_new_with_coordinates__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArraySequence::new_with_coordinates(&q0); }
pub fn c23_coordinate_array_sequence_new_with_coordinates_dimension__safe(p0: &Vec<Coordinate>, p1: i32) { let q0 = p0.clone(); let _ = CoordinateArraySequence::new_with_coordinates_dimension(q0, p1); }
pub fn c23_coordinate_array_sequence_new_with_coordinates_dimension_measures__safe(p0: &Vec<Coordinate>, p1: i32, p2: i32) { let q0 = p0.clone(); let _ = CoordinateArraySequence::new_with_coordinates_dimension_measures(q0, p1, p2); }
pub fn c23_coordinate_array_sequence_new_with_size__safe(p0: usize) {  let _ = CoordinateArraySequence::new_with_size(p0); }
pub fn c23_coordinate_array_sequence_new_with_size_dimension__safe(p0: usize, p1: i32) {  let _ = CoordinateArraySequence::new_with_size_dimension(p0, p1); }
pub fn c23_coordinate_array_sequence_new_with_size_dimension_measures__safe(p0: usize, p1: i32, p2: i32) {  let _ = CoordinateArraySequence::new_with_size_dimension_measures(p0, p1, p2); }
pub fn c23_coordinate_array_sequence_new_from_coordinate_array_sequence__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = CoordinateArraySequence::new_from_coordinate_array_sequence(&q0); }
pub fn c23_coordinate_array_sequence_create_coordinate__safe(p0: i32, p1: i32) {  let _ = CoordinateArraySequence::create_coordinate(p0, p1); }
pub fn c23_coordinate_array_sequence_create_coordinate_default__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = q0.create_coordinate_default(); }
pub fn c23_coordinate_array_sequence_get_dimension__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = q0.get_dimension(); }
pub fn c23_coordinate_array_sequence_get_measures__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = q0.get_measures(); }
pub fn c23_coordinate_array_sequence_get_coordinate_index__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_seq(p0); let _ = q0.get_coordinate_index(p1); }
pub fn c23_coordinate_array_sequence_get_coordinate_copy__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_seq(p0); let _ = q0.get_coordinate_copy(p1); }
pub fn c23_coordinate_array_sequence_get_coordinate_index_coordinate__safe(p0: &Vec<C>, p1: usize, p2: &Coordinate) { if p1 >= p0.len() { return; } let q0 = mk_seq(p0); let mut q2 = p2.clone(); let _ = q0.get_coordinate_index_coordinate(p1, &mut q2); }
pub fn c23_coordinate_array_sequence_get_x__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_seq(p0); let _ = q0.get_x(p1); }
pub fn c23_coordinate_array_sequence_get_y__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_seq(p0); let _ = q0.get_y(p1); }
pub fn c23_coordinate_array_sequence_has_z__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = q0.has_z(); }
pub fn c23_coordinate_array_sequence_has_m__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = q0.has_m(); }
pub fn c23_coordinate_array_sequence_get_z__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_seq(p0); let _ = q0.get_z(p1); }
pub fn c23_coordinate_array_sequence_get_m__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_seq(p0); let _ = q0.get_m(p1); }
pub fn c23_coordinate_array_sequence_get_ordinate__safe(p0: &Vec<C>, p1: usize, p2: i32) { if p1 >= p0.len() || p2 < 0 || p2 >= 4 { return; } let q0 = mk_seq(p0); let _ = q0.get_ordinate(p1, p2); }
pub fn c23_coordinate_array_sequence_copy__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = q0.copy(); }
pub fn c23_coordinate_array_sequence_size__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = q0.size(); }
pub fn c23_coordinate_array_sequence_set_ordinate__safe(p0: &Vec<C>, p1: usize, p2: i32, p3: f64) { if p1 >= p0.len() || p2 < 0 || p2 >= 4 { return; } let mut q0 = mk_seq(p0); let _ = q0.set_ordinate(p1, p2, p3); }
pub fn c23_coordinate_array_sequence_to_coordinate_array__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = q0.to_coordinate_array(); }
pub fn c23_coordinate_array_sequence_expand_envelope__safe(p0: &Vec<C>, p1: &Envelope) { let q0 = mk_seq(p0); let mut q1 = p1.clone(); let _ = q0.expand_envelope(&mut q1); }
pub fn c23_coordinate_array_sequence_factory_create_from_coordinates__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = CoordinateArraySequenceFactory::create_from_coordinates(&q0); }
pub fn c23_coordinate_array_sequence_factory_create_from_coordinate_array_sequence__safe(p0: &Vec<C>) { let q0 = mk_seq(p0); let _ = CoordinateArraySequenceFactory::create_from_coordinate_array_sequence(&q0); }
pub fn c23_coordinate_array_sequence_factory_create_with_size_dimension__safe(p0: usize, p1: i32) {  let _ = CoordinateArraySequenceFactory::create_with_size_dimension(p0, p1); }
pub fn c23_coordinate_array_sequence_factory_create_with_size_dimension_measures__safe(p0: usize, p1: i32, p2: i32) {  let _ = CoordinateArraySequenceFactory::create_with_size_dimension_measures(p0, p1, p2); }
pub fn c23_packed_coordinate_sequence_new_with_dimension_measures__safe(p0: i32, p1: i32) {  let _ = PackedCoordinateSequence::new_with_dimension_measures(p0, p1); }
pub fn c23_packed_coordinate_sequence_double_new_f64_with_coordinates_dimension_measures__safe(p0: &Vec<f64>, p1: i32, p2: i32) { let q0 = p0.clone(); let _ = PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&q0, p1, p2); }
pub fn c23_packed_double_dimension__safe(p0: &Vec<C>) { let _ = PackedCoordinateSequenceDouble::new_coordinates_with_dimension(p0, 3); }
pub fn c23_packed_double_planar__safe(p0: &Vec<C>) { let _ = PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(p0, 2, 0); }
pub fn c23_packed_double_z__safe(p0: &Vec<C>) { let _ = PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(p0, 3, 0); }
pub fn c23_packed_double_m__safe(p0: &Vec<C>) { let _ = PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(p0, 3, 1); }
pub fn c23_packed_double_zm__safe(p0: &Vec<C>) { let _ = PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(p0, 4, 1); }
pub fn c23_packed_coordinate_sequence_double_new_with_coordinates__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = PackedCoordinateSequenceDouble::new_with_coordinates(&q0); }
pub fn c23_packed_coordinate_sequence_double_new_with_size_dimension_measures__safe(p0: usize, p1: i32, p2: i32) {  let _ = PackedCoordinateSequenceDouble::new_with_size_dimension_measures(p0, p1, p2); }
pub fn c23_packed_coordinate_sequence_double_get_coordinate_internal__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_packed(p0); let _ = q0.get_coordinate_internal(p1); }
pub fn c23_packed_coordinate_sequence_double_get_raw_coordinates__safe(p0: &Vec<C>) { let q0 = mk_packed(p0); let _ = q0.get_raw_coordinates(); }
pub fn c23_packed_coordinate_sequence_double_get_coordinate_by_index__safe(p0: &Vec<C>, p1: usize) { if p1 >= p0.len() { return; } let q0 = mk_packed(p0); let _ = q0.get_coordinate_by_index(p1); }
pub fn c23_packed_coordinate_sequence_double_size__safe(p0: &Vec<C>) { let q0 = mk_packed(p0); let _ = q0.size(); }
pub fn c23_packed_coordinate_sequence_double_copy__safe(p0: &Vec<C>) { let q0 = mk_packed(p0); let _ = q0.copy(); }
pub fn c23_packed_coordinate_sequence_double_get_dimension__safe(p0: &Vec<C>) { let q0 = mk_packed(p0); let _ = q0.get_dimension(); }
pub fn c23_packed_coordinate_sequence_double_get_measures__safe(p0: &Vec<C>) { let q0 = mk_packed(p0); let _ = q0.get_measures(); }
pub fn c23_packed_coordinate_sequence_double_get_ordinate__safe(p0: &Vec<C>, p1: usize, p2: i32) { if p1 >= p0.len() || p2 < 0 || p2 >= 4 { return; } let q0 = mk_packed(p0); let _ = q0.get_ordinate(p1, p2); }
pub fn c23_packed_coordinate_sequence_double_set_ordinate__safe(p0: &Vec<C>, p1: usize, p2: i32, p3: f64) { if p1 >= p0.len() || p2 < 0 || p2 >= 4 { return; } let mut q0 = mk_packed(p0); let _ = q0.set_ordinate(p1, p2, p3); }
pub fn c23_packed_coordinate_sequence_double_to_coordinate_array__safe(p0: &Vec<C>) { let q0 = mk_packed(p0); let _ = q0.to_coordinate_array(); }
pub fn c23_packed_coordinate_sequence_double_expand_envelope__safe(p0: &Vec<C>, p1: &Envelope) { let q0 = mk_packed(p0); let q1 = p1.clone(); let _ = q0.expand_envelope(&q1); }
pub fn c23_packed_coordinate_sequence_factory_create_double_from_coordinates__safe(p0: &Vec<Coordinate>) { let q0 = p0.clone(); let _ = PackedCoordinateSequenceFactory::create_double_from_coordinates(&q0); }
pub fn c23_packed_coordinate_sequence_factory_create_double_coordinates_dimension__safe(p0: &Vec<f64>, p1: i32) { let q0 = p0.clone(); let _ = PackedCoordinateSequenceFactory::create_double_coordinates_dimension(&q0, p1); }
pub fn c23_packed_coordinate_sequence_factory_create_double_coordinate_dimension_measures__safe(p0: &Vec<f64>, p1: i32, p2: i32) { let q0 = p0.clone(); let _ = PackedCoordinateSequenceFactory::create_double_coordinate_dimension_measures(&q0, p1, p2); }
pub fn c23_packed_coordinate_sequence_factory_create_with_size_dimension__safe(p0: usize, p1: i32) {  let _ = PackedCoordinateSequenceFactory::create_with_size_dimension(p0, p1); }
pub fn c23_packed_coordinate_sequence_factory_create_with_size_dimension_measures__safe(p0: usize, p1: i32, p2: i32) {  let _ = PackedCoordinateSequenceFactory::create_with_size_dimension_measures(p0, p1, p2); }

// ---- geometries of several parts, the parts arbitrary
fn mk_polyh(v: &Vec<C>, h: &Vec<LinearRing>) -> Polygon { Polygon::new_with_linear_ring_vec(&mk_ring(v), h) }
/// @opaque Orientation::is_ccw_vec
pub fn c23_m_centroid_get_centroid_from_polygon__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = Centroid::get_centroid_from_polygon(&q0); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_m_centroid_new_from_polygon__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = Centroid::new_from_polygon(&q0); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_m_centroid_add_polygon__safe(p0: &Vec<C>, p1: &Vec<C>, h1: &Vec<LinearRing>) { let mut q0 = mk_centroid(p0); let q1 = mk_polyh(p1, h1); let _ = q0.add_polygon(&q1); }
pub fn c23_m_multi_line_string_get_dimension__safe(h0: &Vec<LineString>) { let q0 = MultiLineString::new_with_line_strings(h0); let _ = q0.get_dimension(); }
pub fn c23_m_multi_line_string_has_dimension__safe(p1: i32, h0: &Vec<LineString>) { let q0 = MultiLineString::new_with_line_strings(h0); let _ = q0.has_dimension(p1); }
pub fn c23_m_multi_line_string_get_boundary_dimension__safe(h0: &Vec<LineString>) { let q0 = MultiLineString::new_with_line_strings(h0); let _ = q0.get_boundary_dimension(); }
pub fn c23_m_multi_line_string_get_geometry_type__safe(h0: &Vec<LineString>) { let q0 = MultiLineString::new_with_line_strings(h0); let _ = q0.get_geometry_type(); }
pub fn c23_m_multi_line_string_is_empty__safe(h0: &Vec<LineString>) { let q0 = MultiLineString::new_with_line_strings(h0); let _ = q0.is_empty(); }
pub fn c23_m_multi_line_string_is_closed__safe(h0: &Vec<LineString>) { let q0 = MultiLineString::new_with_line_strings(h0); let _ = q0.is_closed(); }
pub fn c23_m_multi_line_string_reverse__safe(h0: &Vec<LineString>) { let q0 = MultiLineString::new_with_line_strings(h0); let _ = q0.reverse(); }
pub fn c23_m_multi_line_string_copy_internal__safe(h0: &Vec<LineString>) { let q0 = MultiLineString::new_with_line_strings(h0); let _ = q0.copy_internal(); }
pub fn c23_m_multi_line_string_equals_exact__safe(p2: f64, h0: &Vec<LineString>, h1: &Vec<LineString>) { let q0 = MultiLineString::new_with_line_strings(h0); let q1 = MultiLineString::new_with_line_strings(h1); let _ = q0.equals_exact(&q1, p2); }
pub fn c23_m_multi_polygon_get_dimension__safe(h0: &Vec<Polygon>) { let q0 = MultiPolygon::new_with_polygons(h0); let _ = q0.get_dimension(); }
pub fn c23_m_multi_polygon_has_dimension__safe(p1: i32, h0: &Vec<Polygon>) { let q0 = MultiPolygon::new_with_polygons(h0); let _ = q0.has_dimension(p1); }
pub fn c23_m_multi_polygon_get_boundary_dimension__safe(h0: &Vec<Polygon>) { let q0 = MultiPolygon::new_with_polygons(h0); let _ = q0.get_boundary_dimension(); }
pub fn c23_m_multi_polygon_get_geometry_type__safe(h0: &Vec<Polygon>) { let q0 = MultiPolygon::new_with_polygons(h0); let _ = q0.get_geometry_type(); }
pub fn c23_m_multi_polygon_get_area__safe(h0: &Vec<Polygon>) { let q0 = MultiPolygon::new_with_polygons(h0); let _ = q0.get_area(); }
pub fn c23_m_multi_polygon_get_num_polygons__safe(h0: &Vec<Polygon>) { let q0 = MultiPolygon::new_with_polygons(h0); let _ = q0.get_num_polygons(); }
pub fn c23_m_multi_polygon_get_polygon_at_index__safe(p1: usize, h0: &Vec<Polygon>) { if p1 >= h0.len() { return; } let q0 = MultiPolygon::new_with_polygons(h0); let _ = q0.get_polygon_at_index(p1); }
pub fn c23_m_multi_polygon_is_empty__safe(h0: &Vec<Polygon>) { let q0 = MultiPolygon::new_with_polygons(h0); let _ = q0.is_empty(); }
pub fn c23_m_multi_polygon_equals_exact__safe(p2: f64, h0: &Vec<Polygon>, h1: &Vec<Polygon>) { let q0 = MultiPolygon::new_with_polygons(h0); let q1 = MultiPolygon::new_with_polygons(h1); let _ = q0.equals_exact(q1, p2); }
pub fn c23_m_multi_polygon_reverse__safe(h0: &Vec<Polygon>) { let q0 = MultiPolygon::new_with_polygons(h0); let _ = q0.reverse(); }
pub fn c23_m_multi_polygon_copy__safe(h0: &Vec<Polygon>) { let q0 = MultiPolygon::new_with_polygons(h0); let _ = q0.copy(); }
pub fn c23_m_multi_polygon_get_type_code__safe(h0: &Vec<Polygon>) { let q0 = MultiPolygon::new_with_polygons(h0); let _ = q0.get_type_code(); }
pub fn c23_m_polygon_get_coordinate__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.get_coordinate(); }
pub fn c23_m_polygon_get_coordinates__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.get_coordinates(); }
pub fn c23_m_polygon_get_num_points__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.get_num_points(); }
pub fn c23_m_polygon_get_dimension__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.get_dimension(); }
pub fn c23_m_polygon_get_boundary_dimension__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.get_boundary_dimension(); }
pub fn c23_m_polygon_is_empty__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.is_empty(); }
pub fn c23_m_polygon_is_rectangle__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.is_rectangle(); }
pub fn c23_m_polygon_get_exterior_ring__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.get_exterior_ring(); }
pub fn c23_m_polygon_get_num_interior_ring__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.get_num_interior_ring(); }
pub fn c23_m_polygon_get_geometry_type__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.get_geometry_type(); }
pub fn c23_m_polygon_get_area__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.get_area(); }
pub fn c23_m_polygon_get_length__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.get_length(); }
pub fn c23_m_polygon_compute_envelope_internal__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let mut q0 = mk_polyh(p0, h0); let _ = q0.compute_envelope_internal(); }
pub fn c23_m_polygon_equals_exact__safe(p0: &Vec<C>, p1: &Vec<C>, p2: f64, h0: &Vec<LinearRing>, h1: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let q1 = mk_polyh(p1, h1); let _ = q0.equals_exact(&q1, p2); }
pub fn c23_m_polygon_copy__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.copy(); }
pub fn c23_m_polygon_compare_to__safe(p0: &Vec<C>, p1: &Vec<C>, h0: &Vec<LinearRing>, h1: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let q1 = mk_polyh(p1, h1); let _ = q0.compare_to(&q1); }
/// @opaque LinearRing::compare_to_same_class_with_comparator
pub fn c23_m_polygon_compare_to_with_comparator__safe(p0: &Vec<C>, p1: &Vec<C>, p2: &CoordinateSequenceComparator, h0: &Vec<LinearRing>, h1: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let q1 = mk_polyh(p1, h1); let q2 = p2.clone(); let _ = q0.compare_to_with_comparator(&q1, &q2); }
pub fn c23_m_polygon_reverse__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.reverse(); }
pub fn c23_m_polygon_get_envelope_internal__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let mut q0 = mk_polyh(p0, h0); let _ = q0.get_envelope_internal(); }
/// @opaque Orientation::is_ccw_vec
pub fn c23_m_polygon_get_centroid__safe(p0: &Vec<C>, h0: &Vec<LinearRing>) { let q0 = mk_polyh(p0, h0); let _ = q0.get_centroid(); }

// ---- normal forms of polygons: a ring is empty or has at least four points
/// @opaque Orientation::is_ccw_coordinate_array_sequence
pub fn c23_polygon_normalize__safe(p0: &Vec<C>, p1: bool) { if p0.len() > 0 && p0.len() < 4 { return; } let mut q0 = mk_ring(p0); Polygon::normalize(&mut q0, p1); }
/// @opaque Orientation::is_ccw_coordinate_array_sequence
pub fn c23_polygon_normalized__safe(p0: &Vec<C>, p1: bool) { if p0.len() > 0 && p0.len() < 4 { return; } let q0 = mk_ring(p0); let _ = Polygon::new_with_linear_ring(&q0).normalized(&q0, p1); }
/// @opaque Orientation::is_ccw_coordinate_array_sequence
pub fn c23_polygon_self_normalize__safe(p0: &Vec<C>, h0: &Vec<C>) { if p0.len() > 0 && p0.len() < 4 || h0.len() > 0 && h0.len() < 4 { return; } let mut q0 = Polygon::new_with_linear_ring_vec(&mk_ring(p0), &vec![mk_ring(h0)]); q0.self_normalize(); }

// ---- symbols and matrices of symbols: at most nine of them
pub fn c23_dimension_to_dimension_value__safe(p0: char) { let _ = Dimension::to_dimension_value(p0); }
pub fn c23_precision_model_new_with_type__safe(p0: PrecisionModelType) { let _ = PrecisionModel::new_with_type(p0); }
pub fn c23_intersection_matrix_new_with_elements__safe(p0: String) { if p0.len() > 9 { return; } let _ = IntersectionMatrix::new_with_elements(p0); }
pub fn c23_intersection_matrix_matches_i32_char__safe(p0: i32, p1: char) { let _ = IntersectionMatrix::matches_i32_char(p0, p1); }
/// @opaque IntersectionMatrix::matches_i32_char
pub fn c23_intersection_matrix_matches_string_string__safe(p0: String, p1: String) { if p0.len() > 9 { return; } let _ = IntersectionMatrix::matches_string_string(p0, p1); }
/// @opaque IntersectionMatrix::matches_i32_char
pub fn c23_intersection_matrix_matches_string__safe(p0: &IntersectionMatrix, p1: String) { let _ = p0.matches_string(p1); }
pub fn c23_intersection_matrix_set_string__safe(p0: &IntersectionMatrix, p1: String) { if p1.len() > 9 { return; } let mut q0 = IntersectionMatrix::new_from_intersection_matrix(p0); q0.set_string(p1); }
pub fn c23_intersection_matrix_set_at_least_string__safe(p0: &IntersectionMatrix, p1: String) { if p1.len() > 9 { return; } let mut q0 = IntersectionMatrix::new_from_intersection_matrix(p0); q0.set_at_least_string(p1); }

// ---- constructors with a precision model
pub fn c23_multi_line_string_new_with_line_strings_precision_model__safe(h0: &Vec<LineString>, p1: PrecisionModel) { let _ = MultiLineString::new_with_line_strings_precision_model(h0, p1); }
pub fn c23_multi_point_new_with_points_precision_model__safe(h0: &Vec<Point>, p1: PrecisionModel) { let _ = MultiPoint::new_with_points_precision_model(h0, p1); }
pub fn c23_multi_polygon_new_with_polygons_precision_model__safe(h0: &Vec<Polygon>, p1: PrecisionModel) { let _ = MultiPolygon::new_with_polygons_precision_model(h0, p1); }
pub fn c23_geometry_factory_create_multi_polygon__safe(h0: &Vec<Polygon>) { let _ = GeometryFactory::create_multi_polygon(h0); }

// ---- the packed sequence of coordinates
pub fn c23_packed_coordinate_sequence_new__safe(p0: i32, p1: i32) { if p0 < 0 || p1 < 0 { return; } let _ = PackedCoordinateSequence::new_with_dimension_measures(p0, p1); }
pub fn c23_packed_coordinate_sequence_factory_create_double_from_coordinate_sequence_planar__safe(p0: &PackedCoordinateSequence) { if p0.get_dimension() != 2 || p0.get_measures() != 0 { return; } let _ = PackedCoordinateSequenceFactory::create_double_from_coordinate_sequence(p0); }
pub fn c23_packed_coordinate_sequence_factory_create_double_from_coordinate_sequence_z__safe(p0: &PackedCoordinateSequence) { if p0.get_dimension() != 3 || p0.get_measures() != 0 { return; } let _ = PackedCoordinateSequenceFactory::create_double_from_coordinate_sequence(p0); }
pub fn c23_packed_coordinate_sequence_factory_create_double_from_coordinate_sequence_m__safe(p0: &PackedCoordinateSequence) { if p0.get_dimension() != 3 || p0.get_measures() != 1 { return; } let _ = PackedCoordinateSequenceFactory::create_double_from_coordinate_sequence(p0); }
pub fn c23_packed_coordinate_sequence_factory_create_double_from_coordinate_sequence_zm__safe(p0: &PackedCoordinateSequence) { if p0.get_dimension() != 4 || p0.get_measures() != 1 { return; } let _ = PackedCoordinateSequenceFactory::create_double_from_coordinate_sequence(p0); }
pub fn c23_packed_coordinate_sequence_copy_planar__safe(p0: &PackedCoordinateSequence) { if p0.get_dimension() != 2 || p0.get_measures() != 0 { return; } let _ = p0.copy(); }
pub fn c23_packed_coordinate_sequence_copy_z__safe(p0: &PackedCoordinateSequence) { if p0.get_dimension() != 3 || p0.get_measures() != 0 { return; } let _ = p0.copy(); }
pub fn c23_packed_coordinate_sequence_copy_m__safe(p0: &PackedCoordinateSequence) { if p0.get_dimension() != 3 || p0.get_measures() != 1 { return; } let _ = p0.copy(); }
pub fn c23_packed_coordinate_sequence_copy_zm__safe(p0: &PackedCoordinateSequence) { if p0.get_dimension() != 4 || p0.get_measures() != 1 { return; } let _ = p0.copy(); }
pub fn c23_packed_coordinate_sequence_to_coordinate_array__safe(p0: &PackedCoordinateSequence) { let _ = p0.to_coordinate_array(); }
pub fn c23_packed_coordinate_sequence_get__safe(p0: &PackedCoordinateSequence, i: usize, d: i32) {
    if i >= p0.size() || d < 0 || d > 2 || p0.get_dimension() < 2 || p0.get_measures() < 0 || p0.get_dimension() > 4 || p0.get_measures() > p0.get_dimension() - 2 { return; }
    let _ = p0.get_coordinate_by_index(i); let _ = p0.get_coordinate_copy_by_index(i); let mut c = Coordinate::default(); p0.get_coordinate_by_index_coordinate(i, &mut c);
    let _ = p0.get_x(i); let _ = p0.get_y(i); let _ = p0.get_z(i); let _ = p0.get_ordinate(i, d); let _ = p0.has_z(); let _ = p0.has_m(); let _ = p0.get_coordinate_internal(i);
}
pub fn c23_packed_coordinate_sequence_set__safe(p0: &PackedCoordinateSequence, i: usize, d: i32, v: f64) {
    if i >= p0.size() || d < 0 || d > 2 { return; }
    let mut q = p0.clone(); q.set_x(i, v); q.set_y(i, v); q.set_ordinate(i, d, v);
}
pub fn c23_math_util_shuffle__safe(p0: usize) { let _ = MathUtil::shuffle(p0); }

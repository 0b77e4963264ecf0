// C18: configuration strings and enumeration values correspond one to one; unknown ones are refused.
// @sources: serpent/src/front_end/lidar/registration_covariance.cpp serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp serpent/src/front_end/stereo/stereo_cost_functions.cpp serpent/src/front_end/stereo/window_functions.cpp
// @libs: -lopencv_core
// @strings: CONSTANT|CENSI|LLS|VOXEL_SIZE|RANGE|RANGE_BIAS|POINT_TO_POINT_LINEARISED|POINT_TO_POINT_NONLINEAR|POINT_TO_PLANE_LINEARISED|POINT_TO_PLANE_NONLINEAR|UNIDIRECTIONAL|BIDIRECTIONAL|RATIO_TEST|constant||CONSTANT |unknown
#include "vp.hpp"
#include "serpent/front_end/lidar/registration_covariance.hpp"
#include "serpent/front_end/stereo/stereo_keypoint_matcher.hpp"
using namespace serpent;
using CM = CovarianceEstimationMethod;
using CO = CovarianceEstimationModel;
using PM = PointCovarianceMethod;
using MF = StereoKeyPointMatcher::MatchingFilter;
template <typename E> struct Named { E value; const char* name; };
static const Named<CM> CMS[] = {{CM::CONSTANT, "CONSTANT"}, {CM::CENSI, "CENSI"}, {CM::LLS, "LLS"}};
static const Named<CO> COS[] = {{CO::POINT_TO_POINT_LINEARISED, "POINT_TO_POINT_LINEARISED"}, {CO::POINT_TO_POINT_NONLINEAR, "POINT_TO_POINT_NONLINEAR"},
    {CO::POINT_TO_PLANE_LINEARISED, "POINT_TO_PLANE_LINEARISED"}, {CO::POINT_TO_PLANE_NONLINEAR, "POINT_TO_PLANE_NONLINEAR"}};
static const Named<PM> PMS[] = {{PM::CONSTANT, "CONSTANT"}, {PM::VOXEL_SIZE, "VOXEL_SIZE"}, {PM::RANGE, "RANGE"}, {PM::RANGE_BIAS, "RANGE_BIAS"}};
static const Named<MF> MFS[] = {{MF::UNIDIRECTIONAL, "UNIDIRECTIONAL"}, {MF::BIDIRECTIONAL, "BIDIRECTIONAL"}, {MF::RATIO_TEST, "RATIO_TEST"}};
// any string at all: recognised exactly when it is one of the names, with the value of that name
template <typename E, int N, typename F>
static void parse_spec(const Named<E> (&names)[N], F parse) {
    std::string s;
    vp_string("s", s);
    bool threw = false;
    E got = names[0].value;
    try { got = parse(s); } catch (const std::runtime_error&) { threw = true; }
    int k = -1;
    for (int i = 0; i < N; ++i) if (s == names[i].name) k = i;
    vp_ensure(threw == (k < 0), "unknown-name-refused-known-name-accepted");
    if (k >= 0 && !threw) { vp_ieq(int(got), int(names[k].value), "name-gives-its-value"); vp_cover("known-name"); }
}
template <typename E, int N>
static void print_spec(const Named<E> (&names)[N]) {
    for (int i = 0; i < N; ++i) vp_ensure(to_string(names[i].value) == names[i].name, "value-gives-its-name");
    bool threw = false;
    try { to_string(E(vp_int("out", N, 1000))); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "value-outside-the-enumeration-refused");
}
CONTRACT(parse_covariance_method) { parse_spec(CMS, to_covariance_estimation_method); }
CONTRACT(parse_covariance_model) { parse_spec(COS, to_covariance_estimation_model); }
CONTRACT(parse_point_method) { parse_spec(PMS, to_point_covariance_method); }
CONTRACT(parse_matching_filter) { parse_spec(MFS, to_matching_filter); }
CONTRACT(print_covariance_method) { print_spec(CMS); }
CONTRACT(print_covariance_model) { print_spec(COS); }
CONTRACT(print_point_method) { print_spec(PMS); }
CONTRACT(unit_vectors_needed) {
    const long c = vp_case("c", 0, 2), p = vp_case("p", 0, 3);
    const bool need = (CMS[c].value == CM::CENSI || CMS[c].value == CM::LLS) && (PMS[p].value == PM::RANGE || PMS[p].value == PM::RANGE_BIAS);
    vp_ensure(requires_unit_vectors(CMS[c].value, PMS[p].value) == need, "unit-vectors-needed-for-range-noise-models");
    vp_ensure(requires_unit_vectors(std::string(CMS[c].name), std::string(PMS[p].name)) == need, "unit-vectors-needed-for-range-noise-models");
}
CONTRACT(unit_vectors_unknown_method) {
    std::string a, b;
    vp_string("s", a);
    vp_string("s2", b);
    bool threw = false;
    try { requires_unit_vectors(a, b); } catch (const std::runtime_error&) { threw = true; }
    const bool known = (a == "CONSTANT" || a == "CENSI" || a == "LLS") && (b == "CONSTANT" || b == "VOXEL_SIZE" || b == "RANGE" || b == "RANGE_BIAS");
    vp_ensure(threw == !known, "unknown-name-refused-known-name-accepted");
    threw = false;
    try { requires_unit_vectors(CM(vp_int("c", 3, 1000)), PM::CONSTANT); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "value-outside-the-enumeration-refused");
    threw = false;
    try { requires_unit_vectors(CM::CENSI, PM(vp_int("p", 4, 1000))); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "value-outside-the-enumeration-refused");
}

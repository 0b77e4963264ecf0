// C33: the registration method is the configured one with exactly its configured options.
// @sources: serpent/src/front_end/lidar/registration_methods.cpp
// @flags: -Icontracts/stubs_registration
// @strings: NONE|MIN_EIG|NORMALIZED_MIN_EIG|PLANE|FROBENIUS|ADDITIVE|ADDITIVE_WEIGHTED|MULTIPLICATIVE|DIRECT27|DIRECT7|DIRECT1|DIRECT_RADIUS|icp|gicp|fast_gicp|fast_gicp_st|fast_vgicp|ndt|ICP|plane||unknown
#include "vp.hpp"
#include <functional>
#include "serpent/front_end/lidar/registration_methods.hpp"
using namespace pcl;
struct Point {};
using Method_ = Registration<Point, Point>;
enum Kind { INTEGER, FLAG, NUMBER, NAME };
struct Parameter { Option option; const char* key; Kind kind; double otherwise; };
static const double NONE = std::numeric_limits<double>::max();
#define BASE(iterations) {MAXIMUM_ITERATIONS, "base/maximum_iterations", INTEGER, iterations}, {RANSAC_ITERATIONS, "base/ransac_iterations", INTEGER, 0}, \
    {RANSAC_THRESHOLD, "base/ransac_outlier_rejection_threshold", NUMBER, 0.05}, {MAX_DISTANCE, "base/max_correspondence_distance", NUMBER, NONE}, \
    {EPSILON, "base/transformation_epsilon", NUMBER, 0.0}, {ROTATION_EPSILON_BASE, "base/transformation_rotation_epsilon", NUMBER, 0.0}, \
    {FITNESS_EPSILON, "base/euclidean_fitness_epsilon", NUMBER, 0.0}
#define ICP_ {RECIPROCAL, "icp/use_reciprocal_correspondences", FLAG, 0}
#define LSQ_ {ROTATION_EPSILON, "lsq/rotation_epsilon", NUMBER, 2.0e-3}, {LAMBDA, "lsq/initial_lambda_factor", NUMBER, 1.0e-9}, {DEBUG, "lsq/debug_print", FLAG, 0}
#define FAST_ {RANDOMNESS, "fast_gicp/correspondence_randomness", INTEGER, 20}, {REGULARISATION, "fast_gicp/regularization_method", NAME, 3}
// keys as in config/tuning_default.yaml; defaults as in the code, which documents that ndt iterates 35 times
static const Parameter PARAMETERS_ICP[] = {BASE(10), ICP_};
static const Parameter PARAMETERS_GICP[] = {BASE(10), ICP_, {ROTATION_EPSILON, "gicp/rotation_epsilon", NUMBER, 2.0e-3},
    {RANDOMNESS, "gicp/correspondence_randomness", INTEGER, 20}, {OPTIMISER_ITERATIONS, "gicp/maximum_optimizer_iterations", INTEGER, 20}};
static const Parameter PARAMETERS_FAST_GICP[] = {BASE(10), LSQ_, FAST_, {THREADS, "fast_gicp/num_threads", INTEGER, 4}};
static const Parameter PARAMETERS_FAST_GICP_ST[] = {BASE(10), LSQ_, FAST_, {THREADS, nullptr, INTEGER, 1}};
static const Parameter PARAMETERS_FAST_VGICP[] = {BASE(10), LSQ_, FAST_, {THREADS, "fast_gicp/num_threads", INTEGER, 4}, {RESOLUTION, "fast_vgicp/resolution", NUMBER, 1.0},
    {ACCUMULATION, "fast_vgicp/voxel_accumulation_mode", NAME, 0}, {NEIGHBOURS, "fast_vgicp/neighbor_search_method", NAME, 2}};
static const Parameter PARAMETERS_NDT[] = {BASE(35), {RESOLUTION, "ndt/resolution", NUMBER, 1.0}, {STEP, "ndt/step_size", NUMBER, 0.1}, {OUTLIERS, "ndt/outlier_ratio", NUMBER, 0.55}};
// every parameter there is, under either prefix
static const char* KEYS[] = {"base/maximum_iterations", "base/ransac_iterations", "base/ransac_outlier_rejection_threshold", "base/max_correspondence_distance", "base/transformation_epsilon",
    "base/transformation_rotation_epsilon", "base/euclidean_fitness_epsilon", "icp/use_reciprocal_correspondences", "gicp/rotation_epsilon", "gicp/correspondence_randomness",
    "gicp/maximum_optimizer_iterations", "lsq/rotation_epsilon", "lsq/initial_lambda_factor", "lsq/debug_print", "fast_gicp/num_threads", "fast_gicp/correspondence_randomness",
    "fast_vgicp/resolution", "ndt/resolution", "ndt/step_size", "ndt/outlier_ratio"};
static const bool INTEGERS[] = {true, true, false, false, false, false, false, true, false, true, true, false, false, true, true, true, false, false, false, false};
static const char* PREFIX[] = {"s2s/", "s2m/"};
static const char* METHODS[] = {"icp", "gicp", "fast_gicp", "fast_gicp_st", "fast_vgicp", "ndt"};
static const char* REGULARISATIONS[] = {"NONE", "MIN_EIG", "NORMALIZED_MIN_EIG", "PLANE", "FROBENIUS"};
static const char* ACCUMULATIONS[] = {"ADDITIVE", "ADDITIVE_WEIGHTED", "MULTIPLICATIVE"};
static const char* NEIGHBOURHOODS[] = {"DIRECT27", "DIRECT7", "DIRECT1", "DIRECT_RADIUS"};
static int regularisation, accumulation, neighbourhood;   // below 0: not given
static int method, other_method;
static int key_of(const std::string& name) {
    for (int p = 0; p < 2; ++p)
        for (int k = 0; k < 20; ++k) if (name == std::string(PREFIX[p]) + KEYS[k]) return 20 * p + k;
    return -1;
}
// a parameter may be missing, without a case distinction
static double value(int k, double otherwise) {
    const double given = double(vp_int_i("given", k, 0, 1));
    const bool flag = k % 20 == 7 || k % 20 == 13;
    const double v = INTEGERS[k % 20] ? double(vp_int_i("integer", k, flag ? 0 : -5, flag ? 1 : 200)) : vp_real_near_i("number", k, -2, 2);
    return given * v + (1 - given) * otherwise;
}
static double number(const std::string& name, double otherwise, bool) {
    const int k = key_of(name);
    return k < 0 ? otherwise : value(k, otherwise);
}
static std::string text(const std::string& name, const std::string& otherwise) {
    if (name == "s2s/method") return method < 0 ? otherwise : METHODS[method];
    if (name == "s2m/method") return METHODS[other_method];
    if (name == "s2s/fast_gicp/regularization_method") return regularisation < 0 ? otherwise : REGULARISATIONS[regularisation];
    if (name == "s2s/fast_vgicp/voxel_accumulation_mode") return accumulation < 0 ? otherwise : ACCUMULATIONS[accumulation];
    if (name == "s2s/fast_vgicp/neighbor_search_method") return neighbourhood < 0 ? otherwise : NEIGHBOURHOODS[neighbourhood];
    return otherwise;
}
template <std::size_t N>
static void check(const Method_& r, const char* prefix, Method m, const Parameter (&ps)[N], int reg, int acc, int nn) {
    vp_ieq(r.method, m, "method-as-configured");
    for (const Parameter& p : ps) {
        vp_ensure(r.given[p.option], "every-option-of-the-method-is-set");
        if (p.kind == NAME) {
            const int c = p.option == REGULARISATION ? reg : p.option == ACCUMULATION ? acc : nn;
            vp_eq(r.value[p.option], c < 0 ? p.otherwise : c, "option-named-as-configured");
        } else {
            const double want = p.key == nullptr ? p.otherwise : value(key_of(std::string(prefix) + p.key), p.otherwise);
            if (p.option == RESOLUTION && m == NDT) vp_eqf(r.value[p.option], float(want), "option-as-configured");
            else vp_eq(r.value[p.option], want, "option-as-configured");
        }
    }
}
static void check(const Method_& r, const char* prefix, int m, int reg, int acc, int nn) {
    switch (m) {
    case 0: check(r, prefix, ICP, PARAMETERS_ICP, reg, acc, nn); break;
    case 1: check(r, prefix, GICP, PARAMETERS_GICP, reg, acc, nn); break;
    case 2: check(r, prefix, FAST_GICP, PARAMETERS_FAST_GICP, reg, acc, nn); break;
    case 3: check(r, prefix, FAST_GICP_ST, PARAMETERS_FAST_GICP_ST, reg, acc, nn); break;
    case 4: check(r, prefix, FAST_VGICP, PARAMETERS_FAST_VGICP, reg, acc, nn); break;
    default: check(r, prefix, NDT, PARAMETERS_NDT, reg, acc, nn); break;
    }
}
static void run(int m) {
    ros::NodeHandle::number = number;
    ros::NodeHandle::text = text;
    method = m;
    other_method = vp_enum("other", 0, 1) ? (m < 0 ? 2 : m) : (m == 0 ? 4 : 1);
    const int c = int(vp_enum("name", -1, 4));
    regularisation = c;
    accumulation = c < 0 ? -1 : c % 3;
    neighbourhood = c < 0 ? -1 : c % 4;
    const ros::NodeHandle nh;
    check(*serpent::registration_method<Point, Point>(nh, "s2s/"), "s2s/", m < 0 ? 2 : m, regularisation, accumulation, neighbourhood);
    // the two registrations have their own parameters
    check(*serpent::registration_method<Point, Point>(nh, "s2m/"), "s2m/", other_method, -1, -1, -1);
}
CONTRACT(method_missing) { run(-1); }
CONTRACT(method_icp) { run(0); }
CONTRACT(method_gicp) { run(1); }
CONTRACT(method_fast_gicp) { run(2); }
CONTRACT(method_fast_gicp_st) { run(3); }
CONTRACT(method_fast_vgicp) { run(4); }
CONTRACT(method_ndt) { run(5); }
static const std::string* method_text;
static std::string other_text(const std::string& name, const std::string& otherwise) { return name == "s2s/method" ? *method_text : otherwise; }
CONTRACT(unknown_method) {
    ros::NodeHandle::number = number;
    ros::NodeHandle::text = other_text;
    std::string s;
    vp_string("s", s);
    method_text = &s;
    bool known = false, threw = false;
    for (const char* m : METHODS) known = known || s == m;
    try { serpent::registration_method<Point, Point>(ros::NodeHandle(), "s2s/"); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw == !known, "unknown-method-refused");
}
template <std::size_t N, typename F>
static void names(const char* const (&all)[N], F parse) {
    std::string s;
    vp_string("s", s);
    int want = -1, got = -1;
    for (int k = 0; k < int(N); ++k) if (s == all[k]) want = k;
    try { got = int(parse(s)); } catch (const std::runtime_error&) {}
    vp_ieq(got, want, "names-one-to-one");
}
CONTRACT(regularisations) { names(REGULARISATIONS, fast_gicp::to_regularization_method); }
CONTRACT(accumulations) { names(ACCUMULATIONS, fast_gicp::to_voxel_accumulation_mode); }
CONTRACT(neighbourhoods) { names(NEIGHBOURHOODS, fast_gicp::to_neighbor_search_method); }

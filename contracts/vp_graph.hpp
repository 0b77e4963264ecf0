// Values, features and factors for the graph manager, and what has been set so far.
#pragma once
#include <gtsam/all.h>
#include <ros/time.h>
#define protected public
#define private public
#include "serpent/back_end/graph_manager.hpp"
#undef protected
#undef private
#include "vp.hpp"
using namespace gtsam::symbol_shorthand;
using gtsam::Key;
using gtsam::Value;
static const char* N[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"};
static long choice(const char* (&names)[6], long i, long lo, long hi) { return vp_enum(names[i], lo, hi); }
static const char* WHAT[6] = {"w0", "w1", "w2", "w3", "w4", "w5"};
static const char* AT[6] = {"k0", "k1", "k2", "k3", "k4", "k5"};
static Eigen::Vector3d vec(long i, long j) { return {vp_real_ij("x", i, j), vp_real_ij("x", i, j + 1), vp_real_ij("x", i, j + 2)}; }
static gtsam::Pose3 pose(long i) {
    Eigen::Matrix3d R;
    for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) R(r, c) = vp_real_ij("r", i, 3 * r + c);
    return gtsam::Pose3(R, vec(i, 0));
}
static gtsam::imuBias::ConstantBias bias(long i) { return {vec(i, 3), vec(i, 6)}; }
static double number(long i) { return vp_real_ij("x", i, 9); }
static gtsam::SharedNoiseModel noise(long i) {
    auto m = boost::make_shared<gtsam::noiseModel::Base>();
    m->id = i;
    return m;
}
static void same(const Value& a, const Value& b, const char* label) {
    vp_ieq(a.type, b.type, label);
    for (int i = 0; i < 12; ++i) vp_eq(a.d[i], b.d[i], label);
}
// what has been set: at most KEYS keys of four kinds
static const int KEYS = 4;
struct Model {
    bool set[4][KEYS] = {}, handed[4][KEYS] = {};
    Value value[4][KEYS];
    static Key key(int kind, long k) { return kind == 0 ? X(k) : kind == 1 ? V(k) : kind == 2 ? B(k) : P(k); }
    void put(int kind, long k, const Value& v) { set[kind][k] = true; value[kind][k] = v; }
};
// one operation on the values: set a pose, velocity, bias, barometer bias or navigation state at a key
static void operate(serpent::GraphManager& g, Model& m, long i, long what, long k) {
    switch (what) {
        case 0: g.set_pose(int(k), pose(i)); m.put(0, k, pose(i)); break;
        case 1: g.set_velocity(int(k), vec(i, 3)); m.put(1, k, vec(i, 3)); break;
        case 2: g.set_imu_bias(int(k), bias(i)); m.put(2, k, bias(i)); break;
        case 3: g.set_barometer_bias(int(k), number(i)); m.put(3, k, number(i)); break;
        default: g.set_navstate(int(k), gtsam::NavState(pose(i), vec(i, 6))); m.put(0, k, pose(i)); m.put(1, k, vec(i, 6));
    }
}
static void same_factor(const gtsam::NonlinearFactor& f, long kind, std::initializer_list<Key> keys, const Value& z, long model, const char* label) {
    vp_ieq(f.kind, kind, label);
    vp_ieq(long(f.size()), long(keys.size()), label);
    int i = 0;
    for (Key k : keys) {
        if (i < f.n) vp_ensure(f.connected[i] == k, label);
        ++i;
    }
    same(f.measured, z, label);
    if (model) vp_ensure(f.noise && f.noise->id == model, label);
}

// C31: values compare equal exactly when all their parts do.
// @sources: eigen_ros/src/eigen_ros.cpp eigen_ros/src/geometry_msgs.cpp eigen_ros/src/imu.cpp eigen_ros/src/nav_msgs.cpp eigen_ros/src/odometry.cpp eigen_ros/src/pose.cpp eigen_ros/src/sensor_msgs.cpp eigen_ros/src/std_msgs.cpp eigen_ros/src/twist.cpp
// @flags: -Icontracts/stubs
// @strings: map|odom|base_link
#include "vp_ros.hpp"
#include <cmath>
#include "eigen_ros/imu.hpp"
#include "eigen_ros/odometry.hpp"
#include "eigen_ros/stamped.hpp"
using namespace eigen_ros;
static double entry(const char* n, long i) {
    const double v = vp_real_near_i(n, i, -10, 10);
    vp_assume(v >= -10 && v <= 10);
    return v;
}
template <int R, int C>
static Eigen::Matrix<double, R, C> matrix(const char* n) {
    Eigen::Matrix<double, R, C> m;
    for (int r = 0; r < R; ++r) for (int c = 0; c < C; ++c) m(r, c) = entry(n, r * C + c);
    return m;
}
static Eigen::Quaterniond unit(const char* n) {
    double q[4];
    vp_unit4(n, q);
    return Eigen::Quaterniond(q[3], q[0], q[1], q[2]);
}
template <typename T>
static void equal(const T& a, const T& b, const char* label) { vp_ensure(a == b && b == a, label); }
template <typename T>
static void unequal(const T& a, const T& b, const char* label) { vp_ensure(!(a == b) && !(b == a), label); }
// one number changed by an amount far beyond rounding
static double changed() {
    double d = vp_real_near("change", -1, 1);
    if (vp_native()) d *= std::pow(10.0, double(vp_int("scale", -5, 0)));
    vp_assume(d * d > 1e-12);
    return d;
}
// another rotation: half a turn about an axis (natively also any smaller one)
static Eigen::Quaterniond half_turn(const Eigen::Quaterniond& q) {
    if (vp_native() && vp_bool("slightly")) {
        const double s = std::pow(10.0, double(vp_int("scale", -5, 0)));
        const Eigen::Vector3d v = s * Eigen::Vector3d(vp_real_near_i("turn", 0, -1, 1), vp_real_near_i("turn", 1, -1, 1), vp_real_near_i("turn", 2, -1, 1));
        vp_assume(v.norm() > 1e-2 * s);
        return q * Eigen::Quaterniond(1.0, v[0], v[1], v[2]).normalized();
    }
    switch (vp_enum("axis", 0, 2)) {
    case 0: return Eigen::Quaterniond(-q.x(), q.w(), q.z(), -q.y());
    case 1: return Eigen::Quaterniond(-q.y(), -q.z(), q.w(), q.x());
    default: return Eigen::Quaterniond(-q.z(), q.y(), -q.x(), q.w());
    }
}
static Eigen::Quaterniond opposite(const Eigen::Quaterniond& q) { return Eigen::Quaterniond(-q.w(), -q.x(), -q.y(), -q.z()); }
static Pose pose() { return Pose(matrix<3, 1>("position"), unit("orientation"), matrix<6, 6>("covariance")); }
static Twist twist() { return Twist(matrix<3, 1>("linear"), matrix<3, 1>("angular"), matrix<6, 6>("twist covariance")); }
static Odometry odometry() {
    Odometry o(pose(), twist(), any_time("stamp"));
    vp_string("frame", o.frame);
    vp_string("child", o.child_frame);
    return o;
}
static Imu imu() {
    Imu m;
    m.orientation = unit("orientation");
    m.angular_velocity = matrix<3, 1>("angular");
    m.linear_acceleration = matrix<3, 1>("linear");
    m.orientation_covariance = matrix<3, 3>("orientation covariance");
    m.angular_velocity_covariance = matrix<3, 3>("angular covariance");
    m.linear_acceleration_covariance = matrix<3, 3>("linear covariance");
    m.timestamp = any_time("stamp");
    vp_string("frame", m.frame);
    return m;
}
static void another(const char* name, std::string& s) {
    std::string other;
    vp_string(name, other);
    vp_assume(!(other == s));
    s = other;
}
static ros::Time another(const ros::Time& t) {
    ros::Time o = any_time("another stamp");
    if (vp_native() && vp_bool("adjacent")) o.ns = t.ns + vp_int("nanoseconds", 1, 9);
    vp_assume(o.ns != t.ns);
    return o;
}
CONTRACT(same) {
    const Pose p = pose();
    Pose p2 = pose();
    equal(p, p2, "equal-poses");
    p2.orientation = opposite(p.orientation);
    equal(p, p2, "both-quaternions-of-a-rotation-equal");
    equal(twist(), twist(), "equal-twists");
    Odometry o = odometry(), o2 = odometry();
    equal(o, o2, "equal-odometries");
    o2.pose.orientation = opposite(o.pose.orientation);
    equal(o, o2, "both-quaternions-of-a-rotation-equal");
    Imu m = imu(), m2 = imu();
    equal(m, m2, "equal-imu-measurements");
    m2.orientation = opposite(m.orientation);
    equal(m, m2, "both-quaternions-of-a-rotation-equal");
    equal(Stamped<Pose>(p, any_time("stamp")), Stamped<Pose>(p, any_time("stamp")), "equal-stamped-values");
}
CONTRACT(vector_of_pose) { const Pose a = pose(); Pose b = a; b.position[vp_enum("k", 0, 2)] += changed(); unequal(a, b, "pose-with-another-position"); }
CONTRACT(covariance_of_pose) { const Pose a = pose(); Pose b = a; b.covariance.data()[vp_enum("k", 0, 35)] += changed(); unequal(a, b, "pose-with-another-covariance"); }
CONTRACT(orientation_of_pose) { const Pose a = pose(); Pose b = a; b.orientation = half_turn(a.orientation); unequal(a, b, "pose-with-another-orientation"); }
CONTRACT(vectors_of_twist) {
    const Twist a = twist();
    const int k = int(vp_enum("k", 0, 2));
    Twist b = a, c = a;
    b.linear[k] += changed();
    c.angular[k] += changed();
    unequal(a, b, "twist-with-another-linear-velocity");
    unequal(a, c, "twist-with-another-angular-velocity");
}
CONTRACT(covariance_of_twist) { const Twist a = twist(); Twist b = a; b.covariance.data()[vp_enum("k", 0, 35)] += changed(); unequal(a, b, "twist-with-another-covariance"); }
CONTRACT(odometries) {
    const Odometry a = odometry();
    Odometry b = a;
    switch (vp_enum("part", 0, 6)) {
    case 0: b.pose.position[0] += changed(); break;
    case 1: b.pose.orientation = half_turn(a.pose.orientation); break;
    case 2: b.twist.linear[2] += changed(); break;
    case 3: b.twist.covariance(3, 4) += changed(); break;
    case 4: b.timestamp = another(a.timestamp); break;
    case 5: another("other frame", b.frame); break;
    default: another("other child", b.child_frame); break;
    }
    unequal(a, b, "odometry-with-another-part");
}
CONTRACT(stamped) {
    const Pose p = pose();
    Pose q = p;
    q.position[1] += changed();
    const Stamped<Pose> a(p, any_time("stamp")), b(q, a.timestamp), c(p, another(a.timestamp));
    unequal(a, b, "stamped-value-with-other-data");
    unequal(a, c, "stamped-value-with-another-stamp");
    const Stamped<Twist> s(twist(), any_time("stamp")), t(s.data, another(s.timestamp));
    unequal(s, t, "stamped-value-with-another-stamp");
}
CONTRACT(measurements) {
    const Imu a = imu();
    Imu b = a;
    switch (vp_enum("part", 0, 7)) {
    case 0: b.orientation = half_turn(a.orientation); break;
    case 1: b.angular_velocity[vp_enum("k", 0, 2)] += changed(); break;
    case 2: b.linear_acceleration[vp_enum("k", 0, 2)] += changed(); break;
    case 3: b.orientation_covariance.data()[vp_enum("k", 0, 8)] += changed(); break;
    case 4: b.angular_velocity_covariance.data()[vp_enum("k", 0, 8)] += changed(); break;
    case 5: b.linear_acceleration_covariance.data()[vp_enum("k", 0, 8)] += changed(); break;
    case 6: b.timestamp = another(a.timestamp); break;
    default: another("other frame", b.frame); break;
    }
    unequal(a, b, "imu-measurement-with-another-part");
}

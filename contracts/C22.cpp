// C22: poses, odometry and IMU measurements move to other frames and times as rigid motions and interpolations do.
// @sources: eigen_ros/src/eigen_ros.cpp eigen_ros/src/imu.cpp eigen_ros/src/odometry.cpp eigen_ros/src/pose.cpp eigen_ros/src/twist.cpp
// @flags: -Icontracts/stubs
// @strings: map|odom|base_link
#include "vp_ros.hpp"
#include "eigen_ext/geometry.hpp"
using namespace eigen_ros;
using M4 = Eigen::Matrix4d;
static M4 product(const M4& a, const M4& b) {
    M4 m;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { m(i, j) = 0; for (int k = 0; k < 4; ++k) m(i, j) += a(i, k) * b(k, j); }
    return m;
}
template <typename A, typename B>
static Eigen::Matrix<double, A::RowsAtCompileTime, A::RowsAtCompileTime> congruence(const A& a, const B& s) {
    constexpr int n = A::RowsAtCompileTime;
    Eigen::Matrix<double, n, n> t, m;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { t(i, j) = 0; for (int k = 0; k < n; ++k) t(i, j) += a(i, k) * s(k, j); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { m(i, j) = 0; for (int k = 0; k < n; ++k) m(i, j) += t(i, k) * a(j, k); }
    return m;
}
// maps (rotation, translation) errors given in the frame at the end of T to the frame at its start: the inverse of T is (R^T, -R^T t)
static M6 adjoint_of_inverse(const M4& T) {
    M6 m = M6::Zero();
    double t[3];
    for (int i = 0; i < 3; ++i) { t[i] = 0; for (int k = 0; k < 3; ++k) t[i] -= T(k, i) * T(k, 3); }
    const double S[3][3] = {{0, -t[2], t[1]}, {t[2], 0, -t[0]}, {-t[1], t[0], 0}};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            m(i, j) = m(i + 3, j + 3) = T(j, i);
            m(i + 3, j) = 0;
            for (int k = 0; k < 3; ++k) m(i + 3, j) += S[i][k] * T(j, k);
        }
    return m;
}
static Pose pose(const char* q, const char* t, const char* c) { return Pose(any_vector(t), vp_rotation_quaternion(q), vp_matrix<double, 6, 6>(c)); }
static M4 matrix(const Pose& p) {
    M4 m = M4::Identity();
    const Eigen::Matrix3d R = p.orientation.toRotationMatrix();
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) m(i, j) = R(i, j); m(i, 3) = p.position[i]; }
    return m;
}
CONTRACT(pose_parts) {
    const Pose d;
    vp_mat_eq(matrix(d), M4::Identity(), "default-pose-is-identity");
    vp_mat_eq(d.covariance, M6::Zero(), "default-covariance-is-zero");
    const Eigen::Matrix3d P = vp_matrix<double, 3, 3>("P"), O = vp_matrix<double, 3, 3>("O");
    const Pose b(any_vector("p"), any_quaternion("o"), P, O);
    const Twist w(any_vector("p"), any_vector("a"), P, O);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            vp_eq(b.covariance(i, j), O(i, j), "rotation-block-first");
            vp_eq(b.covariance(i + 3, j + 3), P(i, j), "translation-block-second");
            vp_eq(b.covariance(i, j + 3), 0, "blocks-uncorrelated");
            vp_eq(b.covariance(i + 3, j), 0, "blocks-uncorrelated");
            vp_eq(w.covariance(i, j), O(i, j), "rotation-block-first");
            vp_eq(w.covariance(i + 3, j + 3), P(i, j), "translation-block-second");
            vp_eq(w.covariance(i, j + 3), 0, "blocks-uncorrelated");
            vp_eq(w.covariance(i + 3, j), 0, "blocks-uncorrelated");
            vp_eq(w.angular_velocity_covariance()(i, j), O(i, j), "angular-block");
            vp_eq(w.linear_velocity_covariance()(i, j), P(i, j), "linear-block");
        }
    same_vector(b.position, any_vector("p"), "position");
    same_quaternion(b.orientation, any_quaternion("o"), "orientation");
    same_vector(w.linear, any_vector("p"), "linear");
    same_vector(w.angular, any_vector("a"), "angular");
}
CONTRACT(pose_of_transform) {
    const Eigen::Isometry3d T = vp_isometry("q", "t");
    const M6 C = vp_matrix<double, 6, 6>("C");
    const Pose p(T, C);
    vp_mat_eq(matrix(p), T.matrix(), "pose-of-transform");
    vp_mat_eq(p.covariance, C, "covariance-of-pose");
    vp_mat_eq(to_transform(p).matrix(), T.matrix(), "transform-of-pose");
    vp_mat_eq(Pose(T).covariance, M6::Zero(), "default-covariance-is-zero");
}
static void moved(const Pose& got, const Pose& from, const M4& T, const char* where, const char* cov) {
    vp_mat_eq(matrix(got), product(matrix(from), T), where);
    vp_mat_eq(got.covariance, congruence(adjoint_of_inverse(T), from.covariance), cov);
}
CONTRACT(apply_to_pose) {
    const Pose p = pose("q", "t", "C");
    const Eigen::Isometry3d T = vp_isometry("qt", "tt");
    moved(apply_transform(p, T), p, T.matrix(), "pose-composed", "pose-covariance-moved");
}
CONTRACT(apply_pose_to_pose) {
    const Pose p = pose("q", "t", "C"), T = pose("qt", "tt", "CT");
    moved(apply_transform(p, T), p, matrix(T), "pose-composed", "pose-covariance-moved");
}
CONTRACT(apply_to_stamped_pose) {
    const PoseStamped p(pose("q", "t", "C"), any_time("stamp"));
    const Eigen::Isometry3d T = vp_isometry("qt", "tt");
    const PoseStamped r = apply_transform(p, T);
    moved(r.data, p.data, T.matrix(), "pose-composed", "pose-covariance-moved");
    vp_ensure(r.timestamp == p.timestamp, "stamp-kept");
}
CONTRACT(apply_to_odometry) {
    std::string frame, child;
    vp_string("frame", frame);
    vp_string("child", child);
    const Odometry o(pose("q", "t", "C"), Twist(any_vector("v"), any_vector("w"), vp_matrix<double, 6, 6>("TC")), any_time("stamp"), frame, child);
    const PoseStamped T(pose("qt", "tt", "CT"), any_time("next"));
    const Odometry r = apply_transform(o, T);
    moved(r.pose, o.pose, matrix(T.data), "odometry-composed", "odometry-covariance-moved");
    vp_ensure(r.timestamp == T.timestamp, "odometry-takes-new-stamp");
    vp_ensure(r.frame == frame, "odometry-keeps-frames");
    vp_ensure(r.child_frame == child, "odometry-keeps-frames");
    same_vector(r.twist.linear, o.twist.linear, "odometry-keeps-twist");
    same_vector(r.twist.angular, o.twist.angular, "odometry-keeps-twist");
    vp_mat_eq(r.twist.covariance, o.twist.covariance, "odometry-keeps-twist");
    vp_ensure(r.pose_stamped().timestamp == T.timestamp, "stamped-part");
    vp_ensure(r.twist_stamped().timestamp == T.timestamp, "stamped-part");
    same_vector(r.pose_stamped().data.position, r.pose.position, "stamped-part");
    same_vector(r.twist_stamped().data.linear, r.twist.linear, "stamped-part");
}
static Imu imu(const char* q, const char* w, const char* a, const char* oc, const char* wc, const char* ac, const char* stamp, const char* frame) {
    std::string f;
    vp_string(frame, f);
    return Imu(vp_rotation_quaternion(q), any_vector(w), any_vector(a), vp_matrix<double, 3, 3>(oc), vp_matrix<double, 3, 3>(wc), vp_matrix<double, 3, 3>(ac), any_time(stamp), f);
}
// X is the rotation from the old to the new frame: what was measured along v is now measured along X^T v, with covariance X^T S X
CONTRACT(imu_frame) {
    const Imu before = imu("q", "w", "a", "oc", "wc", "ac", "stamp", "frame");
    const Eigen::Quaterniond X = vp_rotation_quaternion("x");
    const Eigen::Matrix3d XM = vp_rotation("x"), Xt = XM.transpose();
    Imu i = before;
    i.change_frame(X, X.conjugate());
    for (int r = 0; r < 3; ++r) {
        double w = 0, a = 0;
        for (int k = 0; k < 3; ++k) { w += XM(k, r) * before.angular_velocity[k]; a += XM(k, r) * before.linear_acceleration[k]; }
        vp_eq(i.angular_velocity[r], w, "angular-velocity-rotated");
        vp_eq(i.linear_acceleration[r], a, "acceleration-rotated");
    }
    vp_mat_eq(i.angular_velocity_covariance, congruence(Xt, before.angular_velocity_covariance), "angular-velocity-covariance-rotated");
    vp_mat_eq(i.linear_acceleration_covariance, congruence(Xt, before.linear_acceleration_covariance), "acceleration-covariance-rotated");
    const Eigen::Matrix3d R0 = vp_rotation("q"), R1 = i.orientation.toRotationMatrix();
    for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) vp_eq(R1(r, c), R0(r, 0) * XM(0, c) + R0(r, 1) * XM(1, c) + R0(r, 2) * XM(2, c), "orientation-composed");
    vp_ensure(i.timestamp == before.timestamp, "stamp-kept");
    vp_ensure(i.frame == before.frame, "frame-kept");
}
static void same_imu_but_time(const Imu& a, const Imu& b, const char* label) {
    vp_mat_eq(a.orientation_covariance, b.orientation_covariance, label);
    vp_mat_eq(a.angular_velocity_covariance, b.angular_velocity_covariance, label);
    vp_mat_eq(a.linear_acceleration_covariance, b.linear_acceleration_covariance, label);
    vp_ensure(a.frame == b.frame, label);
}
static Imu first() { return imu("q", "w", "a", "oc", "wc", "ac", "t1", "frame"); }
static Imu second() { return imu("q2", "w2", "a2", "oc2", "wc2", "ac2", "t2", "frame2"); }
CONTRACT(imu_interpolation_outside) {
    const Imu a = first(), b = second();
    const ros::Time t = any_time("t");
    vp_assume(t < a.timestamp || t > b.timestamp);
    bool threw = false;
    try { interpolate(a, b, t); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "time-outside-refused");
}
CONTRACT(imu_interpolation_instant) {
    const Imu a = first();
    Imu b = second();
    b.timestamp = a.timestamp;
    const Imu r = interpolate(a, b, a.timestamp);
    same_vector(r.angular_velocity, a.angular_velocity, "no-time-between-gives-first");
    same_vector(r.linear_acceleration, a.linear_acceleration, "no-time-between-gives-first");
    same_quaternion(r.orientation, a.orientation, "no-time-between-gives-first");
    same_imu_but_time(r, a, "no-time-between-gives-first");
    vp_ensure(r.timestamp == a.timestamp, "interpolation-stamp");
}
static double fraction(const Imu& a, const Imu& b, const ros::Time& t) {
    vp_assume(a.timestamp < b.timestamp);
    vp_assume(a.timestamp <= t && t <= b.timestamp);
    return double(t.ns - a.timestamp.ns) / double(b.timestamp.ns - a.timestamp.ns);
}
CONTRACT(imu_interpolation) {
    Imu a = first(), b = second();
    const ros::Time t = any_time("t");
    const double f = fraction(a, b, t);
    const long unknown = vp_case("unknown", 1, 3);
    if (unknown & 1) a.orientation = Eigen::Quaterniond(0, 0, 0, 0);
    if (unknown & 2) b.orientation = Eigen::Quaterniond(0, 0, 0, 0);
    const Imu r = interpolate(a, b, t);
    for (int i = 0; i < 3; ++i) {
        vp_eq(r.angular_velocity[i], a.angular_velocity[i] * (1 - f) + b.angular_velocity[i] * f, "angular-velocity-interpolated");
        vp_eq(r.linear_acceleration[i], a.linear_acceleration[i] * (1 - f) + b.linear_acceleration[i] * f, "acceleration-interpolated");
    }
    same_quaternion(r.orientation, Eigen::Quaterniond(0, 0, 0, 0), "unknown-orientation-stays-unknown");
    same_imu_but_time(r, f <= 0.5 ? a : b, "covariances-and-frame-of-the-nearer");
    vp_ensure(r.timestamp == t, "interpolation-stamp");
}
CONTRACT(imu_interpolation_oriented) {
    const Imu a = first(), b = second();
    const ros::Time t = any_time("t");
    const double f = fraction(a, b, t);
    const Imu r = interpolate(a, b, t);
    const Eigen::Quaterniond q = a.orientation.slerp(f, b.orientation);
    same_quaternion(r.orientation, q, "orientation-interpolated-on-the-sphere");
    same_vector(r.angular_velocity, a.angular_velocity * (1 - f) + b.angular_velocity * f, "angular-velocity-interpolated");
    same_imu_but_time(r, f <= 0.5 ? a : b, "covariances-and-frame-of-the-nearer");
}

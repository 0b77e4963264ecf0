// C23: IMU buffers, pressure interpolation, bias and IMU messages, preintegration parameters.
// @sources: serpent/src/utils/utilities.cpp serpent/src/utils/ros_conversion.cpp eigen_ros/src/eigen_ros.cpp eigen_ros/src/geometry_msgs.cpp eigen_ros/src/imu.cpp eigen_ros/src/pose.cpp eigen_ros/src/sensor_msgs.cpp eigen_ros/src/std_msgs.cpp eigen_ros/src/twist.cpp
// @flags: -Icontracts/stubs -Icontracts/stubs_gtsam
// @libs: -lgtsam -lboost_serialization
// @assumed: gtsam.cpp
// @strings: map|odom|base_link
// @bounded: {"n":1}
// @bounded: {"n":2}
// @bounded: {"n":3}
#include "vp_ros.hpp"
#include "serpent/utils/ros_conversion.hpp"
#include "serpent/utils/utilities.hpp"
using Buffer = std::deque<eigen_ros::Imu>;
static long time_at(long i) { return vp_int_i("t", i, 0, 4000000000000000000l); }
static eigen_ros::Imu measurement(long i) {
    eigen_ros::Imu m;
    m.timestamp.ns = time_at(i);
    for (int k = 0; k < 3; ++k) {
        m.angular_velocity[k] = vp_real_ij("w", i, k);
        m.linear_acceleration[k] = vp_real_ij("a", i, k);
    }
    return m;
}
static void fill(Buffer& b, long n) {
    for (long i = 0; i < n; ++i) b.push_back(measurement(i));
}
bool ros::ok() { return true; }
bool ros::Duration::sleep() const { return true; }
CONTRACT(delete_old) {
    const long n = vp_len("n", 0, 5);
    Buffer b;
    fill(b, n);
    const ros::Time t = any_time("now");
    serpent::delete_old_measurements(t, b);
    const long kept = long(b.size());
    vp_ensure(0 <= kept && kept <= n, "measurements-kept-are-the-last");
    if (kept > 0) vp_ensure(!(b.front().timestamp < t), "no-older-measurement-in-front");
    if (kept > 0) {
        const long k = vp_any_index("k", kept);
        vp_ieq(b[k].timestamp.ns, time_at(n - kept + k), "measurements-kept-are-the-last");
        vp_eq(b[k].angular_velocity[0], vp_real_ij("w", n - kept + k, 0), "measurements-kept-are-the-last");
    }
    if (kept < n) {
        const long d = vp_any_index("d", n - kept);
        vp_ensure(time_at(d) < t.ns, "only-older-measurements-removed");
    }
}
CONTRACT(pressure) {
    sensor_msgs::FluidPressure a, b;
    a.header.stamp = any_time("ta");
    b.header.stamp = any_time("tb");
    vp_string("fa", a.header.frame_id);
    vp_string("fb", b.header.frame_id);
    a.fluid_pressure = vp_real("pa"); b.fluid_pressure = vp_real("pb");
    a.variance = vp_real("va"); b.variance = vp_real("vb");
    const ros::Time t = any_time("t");
    vp_assume(a.header.stamp < b.header.stamp && a.header.stamp <= t && t <= b.header.stamp);
    const auto p = serpent::interpolate_pressure(a, b, t);
    vp_ensure(p.header.stamp == t, "pressure-stamp");
    vp_ensure(p.header.frame_id == a.header.frame_id, "pressure-frame-of-the-first");
    const double k = double(t.ns - a.header.stamp.ns) / double(b.header.stamp.ns - a.header.stamp.ns);
    vp_eq(p.fluid_pressure, a.fluid_pressure + k * (b.fluid_pressure - a.fluid_pressure), "pressure-on-the-line");
    vp_eq(p.variance, a.variance + k * (b.variance - a.variance), "variance-on-the-line");
}
CONTRACT(pressure_refused) {
    sensor_msgs::FluidPressure a, b;
    a.header.stamp = any_time("ta");
    b.header.stamp = any_time("tb");
    a.fluid_pressure = vp_real("pa"); b.fluid_pressure = vp_real("pb");
    const ros::Time t = any_time("t");
    vp_assume(b.header.stamp <= a.header.stamp || t < a.header.stamp || t > b.header.stamp);
    bool threw = false;
    try { serpent::interpolate_pressure(a, b, t); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "pressure-outside-refused");
}
CONTRACT(scalar) {
    const double x = vp_real("x"), y = vp_real("y");
    const ros::Time a = any_time("a"), b = any_time("b"), t = any_time("t");
    vp_assume(a < b && a <= t && t <= b);
    vp_eq(serpent::interpolate(x, y, a, b, t) * double(b.ns - a.ns), x * double(b.ns - t.ns) + y * double(t.ns - a.ns), "value-on-the-line");
    vp_eq(serpent::interpolate(x, y, a, b, a), x, "first-value-at-first-time");
    vp_eq(serpent::interpolate(x, y, a, b, b), y, "second-value-at-second-time");
    vp_eqf(serpent::interpolate(float(x), float(y), a, b, b), float(y), "second-value-at-second-time");
}
static sensor_msgs::Imu message(long i) {
    sensor_msgs::Imu m;
    m.header.stamp.ns = time_at(i);
    m.header.frame_id = i % 2 ? "odom" : "map";
    m.orientation.w = vp_real_ij("q", i, 0); m.orientation.x = vp_real_ij("q", i, 1); m.orientation.y = vp_real_ij("q", i, 2); m.orientation.z = vp_real_ij("q", i, 3);
    m.angular_velocity.x = vp_real_ij("w", i, 0); m.angular_velocity.y = vp_real_ij("w", i, 1); m.angular_velocity.z = vp_real_ij("w", i, 2);
    m.linear_acceleration.x = vp_real_ij("a", i, 0); m.linear_acceleration.y = vp_real_ij("a", i, 1); m.linear_acceleration.z = vp_real_ij("a", i, 2);
    return m;
}
CONTRACT(messages_to_buffer) {
    const long n = vp_len("n", 0, 5);
    std::vector<sensor_msgs::Imu> msgs;
    for (long i = 0; i < n; ++i) msgs.push_back(message(i));
    Buffer b;
    serpent::from_ros(msgs, b);
    vp_ieq(long(b.size()), n, "one-measurement-per-message");
    const long k = vp_any_index("k", n);
    vp_ieq(b[k].timestamp.ns, time_at(k), "measurement-stamp-in-order");
    vp_ensure(b[k].frame == (k % 2 ? "odom" : "map"), "measurement-frame");
    vp_eq(b[k].orientation.w(), vp_real_ij("q", k, 0), "measurement-orientation");
    vp_eq(b[k].orientation.z(), vp_real_ij("q", k, 3), "measurement-orientation");
    for (int j = 0; j < 3; ++j) vp_eq(b[k].angular_velocity[j], vp_real_ij("w", k, j), "measurement-angular-velocity");
    for (int j = 0; j < 3; ++j) vp_eq(b[k].linear_acceleration[j], vp_real_ij("a", k, j), "measurement-acceleration");
}
CONTRACT(buffer_to_messages) {
    const long n = vp_len("n", 0, 5);
    Buffer b;
    fill(b, n);
    std::vector<sensor_msgs::Imu> msgs;
    serpent::to_ros(msgs, b);
    vp_ieq(long(msgs.size()), n, "one-message-per-measurement");
    const long k = vp_any_index("k", n);
    vp_ieq(msgs[k].header.stamp.ns, time_at(k), "message-stamp-in-order");
    vp_eq(msgs[k].angular_velocity.x, vp_real_ij("w", k, 0), "message-angular-velocity");
    vp_eq(msgs[k].angular_velocity.z, vp_real_ij("w", k, 2), "message-angular-velocity");
    vp_eq(msgs[k].linear_acceleration.y, vp_real_ij("a", k, 1), "message-acceleration");
}
CONTRACT(biases) {
    const Eigen::Vector3d a = any_vector("a"), g = any_vector("g");
    const gtsam::imuBias::ConstantBias bias(a, g);
    serpent::ImuBiases m;
    std::string frame;
    vp_string("frame", frame);
    serpent::to_ros(m, bias, any_time("stamp"), frame);
    vp_ensure(m.header.stamp == any_time("stamp"), "bias-stamp");
    vp_ensure(m.header.frame_id == frame, "bias-frame");
    vp_eq(m.accelerometer_bias.x, a[0], "accelerometer-bias"); vp_eq(m.accelerometer_bias.y, a[1], "accelerometer-bias"); vp_eq(m.accelerometer_bias.z, a[2], "accelerometer-bias");
    vp_eq(m.gyroscope_bias.x, g[0], "gyroscope-bias"); vp_eq(m.gyroscope_bias.y, g[1], "gyroscope-bias"); vp_eq(m.gyroscope_bias.z, g[2], "gyroscope-bias");
    gtsam::imuBias::ConstantBias back;
    serpent::from_ros(m, back);
    same_vector(back.accelerometer(), a, "accelerometer-bias-comes-back");
    same_vector(back.gyroscope(), g, "gyroscope-bias-comes-back");
}
CONTRACT(poses) {
    const Eigen::Matrix3d R = vp_rotation("q");
    const Eigen::Vector3d t = any_vector("t");
    const gtsam::Pose3 p(gtsam::Rot3(R), t);
    geometry_msgs::Pose m;
    serpent::to_ros(m, p);
    vp_eq(m.position.x, t[0], "pose-position"); vp_eq(m.position.y, t[1], "pose-position"); vp_eq(m.position.z, t[2], "pose-position");
    vp_mat_eq(Eigen::Quaterniond(m.orientation.w, m.orientation.x, m.orientation.y, m.orientation.z).matrix(), R, "pose-orientation");
    gtsam::Pose3 back;
    serpent::from_ros(m, back);
    vp_mat_eq(back.matrix(), p.matrix(), "pose-comes-back");
}
static Eigen::Matrix3d diagonal(const char* n) { return Eigen::Vector3d(vp_real_i(n, 0), vp_real_i(n, 1), vp_real_i(n, 2)).asDiagonal(); }
CONTRACT(parameters) {
    gtsam::PreintegrationParams p(Eigen::Vector3d(0, 0, -9.81));
    const Eigen::Matrix3d a = diagonal("a"), g = diagonal("g");
    bool ok = true, threw = false;
    for (int i = 0; i < 3; ++i) ok = ok && a(i, i) > 0 && g(i, i) > 0;
    try { serpent::update_preintegration_params(p, a, g); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw == !ok, "parameters-refused-exactly-when-not-a-covariance");
    if (!threw) {
        vp_mat_eq(p.getAccelerometerCovariance(), a, "accelerometer-covariance-set");
        vp_mat_eq(p.getGyroscopeCovariance(), g, "gyroscope-covariance-set");
        vp_mat_eq(p.getIntegrationCovariance(), Eigen::Matrix3d::Identity(), "integration-covariance-kept");
    }
}
CONTRACT(parameters_integration) {
    gtsam::PreintegrationParams p(Eigen::Vector3d(0, 0, -9.81));
    const Eigen::Matrix3d c = diagonal("i");
    p.setIntegrationCovariance(c);
    vp_ensure(serpent::check_valid(p) == (c(0, 0) > 0 && c(1, 1) > 0 && c(2, 2) > 0), "integration-covariance-checked");
}
CONTRACT(parameters_without_gravity) {
    gtsam::PreintegrationParams p(Eigen::Vector3d::Zero());
    vp_ensure(!serpent::check_valid(p), "no-gravity-is-invalid");
    gtsam::PreintegrationParams d(any_vector("g"));
    vp_ensure(serpent::check_valid(d) == (any_vector("g") != Eigen::Vector3d::Zero()), "gravity-is-valid");
}

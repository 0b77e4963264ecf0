// C26: IMU measurements are integrated over exactly the requested time.
// @sources: serpent/src/utils/utilities.cpp eigen_ros/src/eigen_ros.cpp eigen_ros/src/geometry_msgs.cpp eigen_ros/src/imu.cpp eigen_ros/src/pose.cpp eigen_ros/src/sensor_msgs.cpp eigen_ros/src/std_msgs.cpp eigen_ros/src/twist.cpp
// @flags: -Icontracts/stubs -Icontracts/stubs_gtsam
// @libs: -lgtsam -lboost_serialization
// @assumed: gtsam.cpp
// @strings: map|odom|base_link
// @bounded: {"n":2}
// @bounded: {"n":3}
// @bounded: {"n":4}
#include "vp_ros.hpp"
#include "serpent/utils/utilities.hpp"
using Buffer = std::deque<eigen_ros::Imu>;
static long time_at(long i) { return vp_increasing("t", i, 0, vp_native() ? 4000000000000000l : 4000000000000000000l); }
static eigen_ros::Imu measurement(long i) {
    eigen_ros::Imu m;
    m.timestamp.ns = time_at(i);
    for (int k = 0; k < 3; ++k) {
        m.angular_velocity[k] = vp_real_ij("w", i, k);
        m.linear_acceleration[k] = vp_real_ij("a", i, k);
    }
    return m;
}
static void fill(Buffer& b, long n) {
    for (long i = 0; i < n; ++i) b.push_back(measurement(i));
}
bool ros::ok() { return true; }
bool ros::Duration::sleep() const { return true; }
CONTRACT(integrate) {
    const long n = vp_len("n", 2, 6);
    Buffer b;
    fill(b, n);
    ros::Time start, end;
    start.ns = time_at(0) + vp_int("after-the-first", 0, vp_native() ? 3000000000l : 4000000000000000000l);
    end.ns = start.ns + vp_int("duration", 1, vp_native() ? 3000000000l : 4000000000000000000l);
    gtsam::PreintegratedCombinedMeasurements p;
    serpent::integrate_imu(p, b, start, end);
    // every instant in [start, end] counts once, with the measurement last taken at or before that instant
    double a = 0, w = 0, s = 0;
    long covered = start.ns;
    for (long i = 0; i < n; ++i) {
        if (time_at(i) >= end.ns) break;
        const long from = time_at(i) < start.ns ? start.ns : time_at(i);
        const long to = i + 1 == n || time_at(i + 1) > end.ns ? end.ns : time_at(i + 1);
        if (to > from) {
            vp_ieq(from, covered, "no-gap-and-no-overlap");
            covered = to;
            const double dt = double(to - from) / 1e9;
            s += dt;
            a += vp_real_ij("a", i, 0) * dt;
            w += vp_real_ij("w", i, 2) * dt;
        }
    }
    vp_ieq(covered, end.ns, "integrated-up-to-the-end");
    vp_eq(p.time, s, "time-integrated");
    vp_eq(p.acceleration[0], a, "acceleration-integrated");
    vp_eq(p.rate[2], w, "rate-integrated");
}
CONTRACT(nothing_to_integrate) {
    const long n = vp_len("n", 0, 4);
    Buffer b;
    fill(b, n);
    const ros::Time t = any_time("t");
    gtsam::PreintegratedCombinedMeasurements p;
    serpent::integrate_imu(p, b, t, t);
    vp_eq(p.time, 0, "no-time-nothing-integrated");
    vp_eq(p.acceleration[0], 0, "no-time-nothing-integrated");
    vp_eq(p.rate[2], 0, "no-time-nothing-integrated");
}
CONTRACT(too_few) {
    const long n = vp_case("measurements", 0, 1);
    Buffer b;
    fill(b, n);
    const ros::Time start = any_time("start"), end = any_time("end");
    vp_assume(start < end);
    gtsam::PreintegratedCombinedMeasurements p;
    bool threw = false;
    try { serpent::integrate_imu(p, b, start, end); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "fewer-than-two-measurements-refused");
    vp_eq(p.time, 0, "refused-without-integrating");
}
CONTRACT(starts_late) {
    const long n = vp_len("n", 2, 5);
    Buffer b;
    fill(b, n);
    const ros::Time start = any_time("start"), end = any_time("end");
    vp_assume(start < end && time_at(0) > start.ns);
    gtsam::PreintegratedCombinedMeasurements p;
    bool threw = false;
    try { serpent::integrate_imu(p, b, start, end); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "interval-starting-before-the-buffer-refused");
    vp_eq(p.time, 0, "refused-without-integrating");
}

// C25: covariance messages of dynamic size (float and double): row by row, both ways, refusing shapes that do not fit.
// @sources: eigen_ros/src/eigen_ros.cpp eigen_ros/src/geometry_msgs.cpp eigen_ros/src/imu.cpp eigen_ros/src/nav_msgs.cpp eigen_ros/src/odometry.cpp eigen_ros/src/pose.cpp eigen_ros/src/sensor_msgs.cpp eigen_ros/src/statistics_msgs.cpp eigen_ros/src/std_msgs.cpp eigen_ros/src/twist.cpp
// @flags: -Icontracts/stubs
// @strings: base_link
// @bounded: {"n":0}
// @bounded: {"n":1}
// @bounded: {"n":2}
// @bounded: {"n":3}
// @bounded: {"n":4}
// @boundedonly: covariance_double covariance_float
#include "vp_ros.hpp"
using namespace eigen_ros;
template <typename Msg, typename Stamped, typename S>
static void covariance(long n) {
    using M = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
    M m(n, n);
    for (long r = 0; r < n; ++r) for (long c = 0; c < n; ++c) m(r, c) = S(vp_real_ij("m", r, c));
    const auto a = to_ros<Msg>(m);
    vp_ieq(long(a.dimensions), n, "covariance-dimensions");
    vp_ieq(long(a.matrix.size()), n * n, "covariance-size");
    for (long r = 0; r < n; ++r) for (long c = 0; c < n; ++c) vp_eqf(a.matrix[n * r + c], m(r, c), "covariance-row-major");
    const M b = from_ros<M>(a);
    vp_ieq(b.rows(), n, "covariance-comes-back");
    vp_ieq(b.cols(), n, "covariance-comes-back");
    for (long r = 0; r < n; ++r) for (long c = 0; c < n; ++c) vp_eqf(b(r, c), m(r, c), "covariance-comes-back");
    const Stamped s = to_ros<Stamped>(m, any_time("stamp"), "base_link");
    vp_ensure(s.header.stamp == any_time("stamp"), "stamp");
    vp_ensure(s.header.frame_id == "base_link", "frame");
    vp_ieq(long(s.covariance.dimensions), n, "covariance-dimensions");
    M back;
    ros::Time t;
    std::string frame;
    from_ros(s, back, t, frame);
    vp_ensure(t == s.header.stamp, "stamp-comes-back");
    vp_ensure(frame == "base_link", "frame-comes-back");
    vp_ieq(back.rows(), n, "covariance-comes-back");
    vp_ieq(back.cols(), n, "covariance-comes-back");
    for (long r = 0; r < n; ++r) for (long c = 0; c < n; ++c) vp_eqf(back(r, c), m(r, c), "covariance-comes-back");
    M wide(n, n + 1);
    for (long r = 0; r < n; ++r) for (long c = 0; c <= n; ++c) wide(r, c) = 0;
    bool threw = false;
    try { to_ros<Msg>(wide); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "non-square-covariance-refused");
    // a message used before, for a larger matrix
    Msg reused;
    to_ros(reused, M(M::Zero(n + 1, n + 1)));
    to_ros(reused, m);
    vp_ieq(long(reused.dimensions), n, "reused-message-dimensions");
    vp_ieq(long(reused.matrix.size()), n * n, "reused-message-size");
    for (long r = 0; r < n; ++r) for (long c = 0; c < n; ++c) vp_eqf(reused.matrix[n * r + c], m(r, c), "reused-message-row-major");
    Msg bad = a;
    bad.matrix.push_back(0);
    threw = false;
    try { from_ros<M>(bad); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "covariance-of-wrong-size-refused");
}
CONTRACT(covariance_double) { covariance<statistics_msgs::Covariance, statistics_msgs::CovarianceStamped, double>(vp_len("n", 0, 8)); }
CONTRACT(covariance_float) { covariance<statistics_msgs::CovarianceFloat32, statistics_msgs::CovarianceFloat32Stamped, float>(vp_len("n", 0, 8)); }

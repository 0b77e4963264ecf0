// C21: values converted to ROS messages are written to the right members in the ROS order and come back unchanged.
// @sources: eigen_ros/src/eigen_ros.cpp eigen_ros/src/geometry_msgs.cpp eigen_ros/src/imu.cpp eigen_ros/src/nav_msgs.cpp eigen_ros/src/odometry.cpp eigen_ros/src/pose.cpp eigen_ros/src/sensor_msgs.cpp eigen_ros/src/statistics_msgs.cpp eigen_ros/src/std_msgs.cpp eigen_ros/src/twist.cpp
// @flags: -Icontracts/stubs
// @strings: map|odom|base_link
#include "vp_ros.hpp"
using namespace eigen_ros;
template <typename A>
static void xyz(const A& m, const Eigen::Vector3d& v, const char* label) {
    vp_eq(m.x, v[0], label);
    vp_eq(m.y, v[1], label);
    vp_eq(m.z, v[2], label);
}
static void wxyz(const geometry_msgs::Quaternion& m, const Eigen::Quaterniond& q, const char* label) {
    vp_eq(m.w, q.w(), label);
    vp_eq(m.x, q.x(), label);
    vp_eq(m.y, q.y(), label);
    vp_eq(m.z, q.z(), label);
}
// ROS lists position before rotation (linear before angular), the Eigen types the other way round
static void swapped(const boost::array<double, 36>& a, const M6& m, const char* label) {
    for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) vp_eq(a[6 * r + c], m((r + 3) % 6, (c + 3) % 6), label);
}
template <typename A>
static void row_major(const A& a, const Eigen::Matrix3d& m, const char* label) { for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) vp_eq(a[3 * r + c], m(r, c), label); }
static Pose pose() { return Pose(any_vector("position"), any_quaternion("orientation"), vp_matrix<double, 6, 6>("covariance")); }
static Twist twist() { return Twist(any_vector("linear"), any_vector("angular"), vp_matrix<double, 6, 6>("twist-covariance")); }
static void same_pose(const Pose& a, const Pose& b) {
    same_vector(a.position, b.position, "position-comes-back");
    same_quaternion(a.orientation, b.orientation, "orientation-comes-back");
}
static void same_twist(const Twist& a, const Twist& b) {
    same_vector(a.linear, b.linear, "linear-comes-back");
    same_vector(a.angular, b.angular, "angular-comes-back");
}
CONTRACT(vectors) {
    const Eigen::Vector3d v = any_vector("v");
    const auto p = to_ros<geometry_msgs::Point>(v);
    const auto w = to_ros<geometry_msgs::Vector3>(v);
    xyz(p, v, "point");
    xyz(w, v, "vector");
    same_vector(from_ros<Eigen::Vector3d>(p), v, "point-comes-back");
    same_vector(from_ros<Eigen::Vector3d>(w), v, "vector-comes-back");
}
CONTRACT(quaternions) {
    const Eigen::Quaterniond q = any_quaternion("q");
    const auto m = to_ros<geometry_msgs::Quaternion>(q);
    wxyz(m, q, "quaternion");
    same_quaternion(from_ros<Eigen::Quaterniond>(m), q, "quaternion-comes-back");
}
CONTRACT(rotation_matrices) {
    const Eigen::Matrix3d R = vp_rotation("q");
    const auto m = to_ros<geometry_msgs::Quaternion>(R);
    vp_mat_eq(Eigen::Quaterniond(m.w, m.x, m.y, m.z).matrix(), R, "rotation-as-quaternion");
    vp_mat_eq(from_ros<Eigen::Matrix3d>(m), R, "rotation-comes-back");
}
CONTRACT(poses) {
    const Pose p = pose();
    const auto m = to_ros<geometry_msgs::Pose>(p);
    xyz(m.position, p.position, "pose-position");
    wxyz(m.orientation, p.orientation, "pose-orientation");
    same_pose(from_ros<Pose>(m), p);
    const auto t = to_ros<geometry_msgs::Transform>(p);
    xyz(t.translation, p.position, "transform-translation");
    wxyz(t.rotation, p.orientation, "transform-rotation");
    same_pose(from_ros<Pose>(t), p);
    const auto c = to_ros<geometry_msgs::PoseWithCovariance>(p);
    xyz(c.pose.position, p.position, "pose-position");
    wxyz(c.pose.orientation, p.orientation, "pose-orientation");
    swapped(c.covariance, p.covariance, "pose-covariance-in-ros-order");
    const Pose back = from_ros<Pose>(c);
    same_pose(back, p);
    vp_mat_eq(back.covariance, p.covariance, "pose-covariance-comes-back");
}
CONTRACT(stamped_poses) {
    const PoseStamped p(pose(), any_time("stamp"));
    const auto m = to_ros<geometry_msgs::PoseStamped>(p);
    vp_ensure(m.header.stamp == p.timestamp, "stamp");
    xyz(m.pose.position, p.data.position, "pose-position");
    wxyz(m.pose.orientation, p.data.orientation, "pose-orientation");
    const auto mb = from_ros<PoseStamped>(m);
    vp_ensure(mb.timestamp == p.timestamp, "stamp-comes-back");
    same_pose(mb.data, p.data);
    const auto t = to_ros<geometry_msgs::TransformStamped>(p);
    vp_ensure(t.header.stamp == p.timestamp, "stamp");
    xyz(t.transform.translation, p.data.position, "transform-translation");
    wxyz(t.transform.rotation, p.data.orientation, "transform-rotation");
    const auto tb = from_ros<PoseStamped>(t);
    vp_ensure(tb.timestamp == p.timestamp, "stamp-comes-back");
    same_pose(tb.data, p.data);
    const auto c = to_ros<geometry_msgs::PoseWithCovarianceStamped>(p);
    vp_ensure(c.header.stamp == p.timestamp, "stamp");
    xyz(c.pose.pose.position, p.data.position, "pose-position");
    wxyz(c.pose.pose.orientation, p.data.orientation, "pose-orientation");
    swapped(c.pose.covariance, p.data.covariance, "pose-covariance-in-ros-order");
    const auto cb = from_ros<PoseStamped>(c);
    vp_ensure(cb.timestamp == p.timestamp, "stamp-comes-back");
    same_pose(cb.data, p.data);
    vp_mat_eq(cb.data.covariance, p.data.covariance, "pose-covariance-comes-back");
}
CONTRACT(transforms) {
    const Eigen::Isometry3d T = vp_isometry("q", "t");
    const auto m = to_ros<geometry_msgs::Transform>(T);
    xyz(m.translation, T.matrix().block<3, 1>(0, 3), "transform-translation");
    vp_mat_eq(from_ros<Eigen::Isometry3d>(m).matrix(), T.matrix(), "transform-comes-back");
    vp_mat_eq(from_ros<Eigen::Matrix4d>(m), T.matrix(), "transform-comes-back");
    const Eigen::Matrix4d M = T.matrix();
    const auto mm = to_ros<geometry_msgs::Transform>(M);
    xyz(mm.translation, T.matrix().block<3, 1>(0, 3), "transform-translation");
    vp_mat_eq(from_ros<Eigen::Matrix4d>(mm), T.matrix(), "transform-comes-back");
    const auto p = to_ros<geometry_msgs::Pose>(M);
    xyz(p.position, T.matrix().block<3, 1>(0, 3), "pose-position");
    vp_mat_eq(from_ros<Eigen::Matrix4d>(p), T.matrix(), "transform-comes-back");
}
CONTRACT(twists) {
    const Twist t = twist();
    const auto m = to_ros<geometry_msgs::Twist>(t);
    xyz(m.linear, t.linear, "twist-linear");
    xyz(m.angular, t.angular, "twist-angular");
    same_twist(from_ros<Twist>(m), t);
    const auto c = to_ros<geometry_msgs::TwistWithCovariance>(t);
    xyz(c.twist.linear, t.linear, "twist-linear");
    xyz(c.twist.angular, t.angular, "twist-angular");
    swapped(c.covariance, t.covariance, "twist-covariance-in-ros-order");
    const Twist back = from_ros<Twist>(c);
    same_twist(back, t);
    vp_mat_eq(back.covariance, t.covariance, "twist-covariance-comes-back");
}
CONTRACT(odometry) {
    std::string frame, child;
    vp_string("frame", frame);
    vp_string("child", child);
    const Odometry o(pose(), twist(), any_time("stamp"), frame, child);
    const auto m = to_ros<nav_msgs::Odometry>(o);
    vp_ensure(m.header.stamp == o.timestamp, "stamp");
    vp_ensure(m.header.frame_id == frame, "frame");
    vp_ensure(m.child_frame_id == child, "child-frame");
    xyz(m.pose.pose.position, o.pose.position, "pose-position");
    wxyz(m.pose.pose.orientation, o.pose.orientation, "pose-orientation");
    swapped(m.pose.covariance, o.pose.covariance, "pose-covariance-in-ros-order");
    xyz(m.twist.twist.linear, o.twist.linear, "twist-linear");
    xyz(m.twist.twist.angular, o.twist.angular, "twist-angular");
    swapped(m.twist.covariance, o.twist.covariance, "twist-covariance-in-ros-order");
    const auto b = from_ros<Odometry>(m);
    vp_ensure(b.timestamp == o.timestamp, "stamp-comes-back");
    vp_ensure(b.frame == frame, "frame-comes-back");
    vp_ensure(b.child_frame == child, "child-frame-comes-back");
    same_pose(b.pose, o.pose);
    same_twist(b.twist, o.twist);
    vp_mat_eq(b.pose.covariance, o.pose.covariance, "pose-covariance-comes-back");
    vp_mat_eq(b.twist.covariance, o.twist.covariance, "twist-covariance-comes-back");
}
CONTRACT(imu) {
    std::string frame;
    vp_string("frame", frame);
    const Imu i(any_quaternion("orientation"), any_vector("w"), any_vector("a"), vp_matrix<double, 3, 3>("oc"), vp_matrix<double, 3, 3>("wc"), vp_matrix<double, 3, 3>("ac"), any_time("stamp"), frame);
    const auto m = to_ros<sensor_msgs::Imu>(i);
    vp_ensure(m.header.stamp == i.timestamp, "stamp");
    vp_ensure(m.header.frame_id == frame, "frame");
    wxyz(m.orientation, i.orientation, "imu-orientation");
    xyz(m.angular_velocity, i.angular_velocity, "imu-angular-velocity");
    xyz(m.linear_acceleration, i.linear_acceleration, "imu-linear-acceleration");
    row_major(m.orientation_covariance, i.orientation_covariance, "imu-orientation-covariance");
    row_major(m.angular_velocity_covariance, i.angular_velocity_covariance, "imu-angular-velocity-covariance");
    row_major(m.linear_acceleration_covariance, i.linear_acceleration_covariance, "imu-linear-acceleration-covariance");
    const auto b = from_ros<Imu>(m);
    vp_ensure(b.timestamp == i.timestamp, "stamp-comes-back");
    vp_ensure(b.frame == frame, "frame-comes-back");
    same_quaternion(b.orientation, i.orientation, "imu-comes-back");
    same_vector(b.angular_velocity, i.angular_velocity, "imu-comes-back");
    same_vector(b.linear_acceleration, i.linear_acceleration, "imu-comes-back");
    vp_mat_eq(b.orientation_covariance, i.orientation_covariance, "imu-comes-back");
    vp_mat_eq(b.angular_velocity_covariance, i.angular_velocity_covariance, "imu-comes-back");
    vp_mat_eq(b.linear_acceleration_covariance, i.linear_acceleration_covariance, "imu-comes-back");
}
CONTRACT(arrays) {
    const Eigen::Matrix<double, 2, 3> m = vp_matrix<double, 2, 3>("m");
    boost::array<double, 6> a;
    to_ros(a, m);
    for (int r = 0; r < 2; ++r) for (int c = 0; c < 3; ++c) vp_eq(a[3 * r + c], m(r, c), "array-row-major");
    Eigen::Matrix<double, 2, 3> b;
    from_ros(a, b);
    vp_mat_eq(b, m, "array-comes-back");
    std_msgs::Float64MultiArray f;
    to_ros(f, m);
    vp_ieq(long(f.data.size()), 6, "multi-array-size");
    vp_ieq(f.layout.data_offset, 0, "multi-array-layout");
    vp_ieq(long(f.layout.dim.size()), 2, "multi-array-layout");
    vp_ieq(f.layout.dim[0].size, 2, "multi-array-layout");
    vp_ieq(f.layout.dim[0].stride, 6, "multi-array-layout");
    vp_ieq(f.layout.dim[1].size, 3, "multi-array-layout");
    vp_ieq(f.layout.dim[1].stride, 3, "multi-array-layout");
    for (int r = 0; r < 2; ++r) for (int c = 0; c < 3; ++c) vp_eq(f.data[3 * r + c], m(r, c), "multi-array-row-major");
    Eigen::Matrix<double, 2, 3> d;
    from_ros(f, d);
    vp_mat_eq(d, m, "multi-array-comes-back");
    Eigen::Matrix<double, 3, 2> wrong;
    bool threw = false;
    try { from_ros(f, wrong); } catch (const std::runtime_error&) { threw = true; }
    vp_ensure(threw, "multi-array-of-other-shape-refused");
    vp_ensure(f.layout.dim[0].label == "rows" && f.layout.dim[1].label == "cols", "multi-array-labels");
    // a message used before
    const Eigen::Matrix<double, 3, 2> other = vp_matrix<double, 3, 2>("other");
    to_ros(f, other);
    vp_ieq(long(f.layout.dim.size()), 2, "reused-multi-array-layout");
    vp_ieq(long(f.data.size()), 6, "reused-multi-array-size");
    vp_ieq(f.layout.dim[0].size, 3, "reused-multi-array-layout");
    vp_ieq(f.layout.dim[1].size, 2, "reused-multi-array-layout");
    from_ros(f, wrong);
    vp_mat_eq(wrong, other, "reused-multi-array-comes-back");
    // entries that start later and rows that are longer than the matrix
    std_msgs::Float64MultiArray padded;
    padded.layout.dim.resize(2);
    padded.layout.data_offset = 2;
    padded.layout.dim[0].size = 2; padded.layout.dim[0].stride = 10;
    padded.layout.dim[1].size = 3; padded.layout.dim[1].stride = 5;
    padded.data.resize(12);
    for (int k = 0; k < 12; ++k) padded.data[k] = vp_real_i("padded", k);
    Eigen::Matrix<double, 2, 3> part;
    from_ros(padded, part);
    for (int r = 0; r < 2; ++r) for (int c = 0; c < 3; ++c) vp_eq(part(r, c), vp_real_i("padded", 2 + 5 * r + c), "multi-array-offset-and-stride");
}
CONTRACT(parameter) {
    ros::NodeHandle nh;
    vp_mat_eq(matrix3d_from_param(nh, "rotation"), Eigen::Matrix3d::Identity(), "missing-parameter-is-identity");
    const Eigen::Matrix3d m = vp_matrix<double, 3, 3>("m");
    std::vector<double> p(9);
    for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) p[3 * r + c] = m(r, c);
    nh.stored = &p;
    vp_mat_eq(matrix3d_from_param(nh, "rotation"), m, "parameter-row-major");
    p.resize(8);
    bool threw = false;
    try { matrix3d_from_param(nh, "rotation"); } catch (const std::out_of_range&) { threw = true; }
    vp_ensure(threw, "short-parameter-refused");
}

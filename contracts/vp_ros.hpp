// Arbitrary values of the ROS-side and Eigen-side types.
#pragma once
#include "vp_eigen.hpp"
#include "eigen_ros/eigen_ros.hpp"
using M6 = Eigen::Matrix<double, 6, 6>;
static ros::Time any_time(const char* name) {
    ros::Time t;
    t.ns = vp_int(name, 0, 4000000000000000000l);
    return t;
}
static ros::Time any_time_i(const char* name, long i) {
    ros::Time t;
    t.ns = vp_int_i(name, i, 0, 4000000000000000000l);
    return t;
}
static Eigen::Vector3d any_vector(const char* name) { return {vp_real_i(name, 0), vp_real_i(name, 1), vp_real_i(name, 2)}; }
// four arbitrary numbers, not necessarily a rotation
static Eigen::Quaterniond any_quaternion(const char* name) { return {vp_real_i(name, 0), vp_real_i(name, 1), vp_real_i(name, 2), vp_real_i(name, 3)}; }
static void same_vector(const Eigen::Vector3d& a, const Eigen::Vector3d& b, const char* label) { for (int i = 0; i < 3; ++i) vp_eq(a[i], b[i], label); }
static void same_quaternion(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b, const char* label) {
    vp_eq(a.w(), b.w(), label);
    vp_eq(a.x(), b.x(), label);
    vp_eq(a.y(), b.y(), label);
    vp_eq(a.z(), b.z(), label);
}

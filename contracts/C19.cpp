// C19: conversions between Eigen and GTSAM geometry keep the transform and are inverse.
// @sources: eigen_gtsam/src/geometry.cpp
// @libs: -lgtsam -lboost_serialization
// @assumed: gtsam.cpp
#include "vp_eigen.hpp"
#include "eigen_gtsam/eigen_gtsam.hpp"
static void is(const Eigen::Isometry3d& a, const Eigen::Isometry3d& b, const char* l) {
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) vp_eq(a.matrix()(i, j), b.matrix()(i, j), l);
}
CONTRACT(pose_to_gtsam) {
    const Eigen::Isometry3d T = vp_isometry("q", "t");
    gtsam::Pose3 p;
    eigen_gtsam::to_gtsam(T, p);
    const gtsam::Matrix3 R = p.rotation().matrix();
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) vp_eq(R(i, j), T.matrix()(i, j), "gtsam-pose-rotation");
        vp_eq(p.translation()(i), T.matrix()(i, 3), "gtsam-pose-translation");
    }
    const gtsam::Pose3 r = eigen_gtsam::to_gtsam<gtsam::Pose3>(T);
    is(eigen_gtsam::to_eigen<Eigen::Isometry3d>(r), T, "pose-round-trip");
    Eigen::Isometry3d back;
    eigen_gtsam::to_eigen(p, back);
    is(back, T, "pose-round-trip");
}
CONTRACT(pose_to_eigen) {
    const Eigen::Matrix3d R = vp_rotation("q");
    const gtsam::Pose3 p(gtsam::Rot3(R(0, 0), R(0, 1), R(0, 2), R(1, 0), R(1, 1), R(1, 2), R(2, 0), R(2, 1), R(2, 2)),
            gtsam::Point3(vp_real("x"), vp_real("y"), vp_real("z")));
    Eigen::Isometry3d T;
    eigen_gtsam::to_eigen(p, T);
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) vp_eq(T.matrix()(i, j), R(i, j), "eigen-pose-rotation");
        vp_eq(T.matrix()(3, i), 0.0, "eigen-pose-last-row");
    }
    vp_eq(T.matrix()(3, 3), 1.0, "eigen-pose-last-row");
    vp_eq(T.matrix()(0, 3), vp_real("x"), "eigen-pose-translation");
    vp_eq(T.matrix()(1, 3), vp_real("y"), "eigen-pose-translation");
    vp_eq(T.matrix()(2, 3), vp_real("z"), "eigen-pose-translation");
    gtsam::Pose3 q;
    eigen_gtsam::to_gtsam(T, q);
    const gtsam::Matrix3 S = q.rotation().matrix();
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) vp_eq(S(i, j), R(i, j), "pose-round-trip");
        vp_eq(q.translation()(i), p.translation()(i), "pose-round-trip");
    }
}
CONTRACT(rotation) {
    const Eigen::Matrix3d R = vp_rotation("q");
    gtsam::Rot3 r;
    eigen_gtsam::to_gtsam(R, r);
    const gtsam::Matrix3 m = r.matrix();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_eq(m(i, j), R(i, j), "gtsam-rotation");
    Eigen::Matrix3d back;
    eigen_gtsam::to_eigen(r, back);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_eq(back(i, j), R(i, j), "rotation-round-trip");
    const Eigen::Matrix3d b2 = eigen_gtsam::to_eigen<Eigen::Matrix3d>(eigen_gtsam::to_gtsam<gtsam::Rot3>(R));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_eq(b2(i, j), R(i, j), "rotation-round-trip");
}

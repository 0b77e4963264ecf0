// Assumed contracts of the GTSAM functions the code under contract calls (GTSAM itself is not verified).
// Only part of the verifier's module; the native executions link the real library.
#include <gtsam/geometry/Pose3.h>
#include <gtsam/geometry/Rot3.h>
namespace gtsam {
Rot3::Rot3() : rot_(Matrix3::Identity()) {}
Rot3::Rot3(double R11, double R12, double R13, double R21, double R22, double R23, double R31, double R32, double R33) {
    Matrix3 R;
    R(0, 0) = R11; R(0, 1) = R12; R(0, 2) = R13;
    R(1, 0) = R21; R(1, 1) = R22; R(1, 2) = R23;
    R(2, 0) = R31; R(2, 1) = R32; R(2, 2) = R33;
    rot_ = SO3(R);
}
Rot3::Rot3(const gtsam::Quaternion& q) : rot_(q.toRotationMatrix()) {}
gtsam::Quaternion Rot3::toQuaternion() const { return gtsam::Quaternion(rot_.matrix()); }
Matrix3 Rot3::matrix() const { return rot_.matrix(); }
Matrix4 Pose3::matrix() const {
    Matrix4 m;
    const Matrix3 R = R_.matrix();
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) m(i, j) = R(i, j);
        m(i, 3) = t_(i);
        m(3, i) = 0.0;
    }
    m(3, 3) = 1.0;
    return m;
}
const Rot3& Pose3::rotation(OptionalJacobian<3, 6>) const { return R_; }
const Point3& Pose3::translation(OptionalJacobian<3, 6>) const { return t_; }
}

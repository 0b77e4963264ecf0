// C07: non-linear ICP models: the Hessians are the exact second derivatives of the registration error.
#include "icp_spec.hpp"
#include "serpent/front_end/lidar/registration_covariance.hpp"
using Ptc = eigen_ext::PrecomputedTransformComponents<double>;
struct Setup {
    double v[12];
    double n[3];
    pcl::PointNormal s, t;
    Ptc tf;
    Setup() : tf(Eigen::Vector3d(vp_real_i("r", 0), vp_real_i("r", 1), vp_real_i("r", 2)), Eigen::Vector3d(vp_real_i("t", 0), vp_real_i("t", 1), vp_real_i("t", 2))) {
        s.x = vp_real_i("p", 0); s.y = vp_real_i("p", 1); s.z = vp_real_i("p", 2);
        t.x = vp_real_i("q", 0); t.y = vp_real_i("q", 1); t.z = vp_real_i("q", 2);
        t.normal_x = vp_real_i("n", 0); t.normal_y = vp_real_i("n", 1); t.normal_z = vp_real_i("n", 2);
        s.normal_x = vp_real_i("m", 0); s.normal_y = vp_real_i("m", 1); s.normal_z = vp_real_i("m", 2);
        for (int i = 0; i < 3; ++i) { v[i] = tf.r()(i); v[3 + i] = tf.t()(i); }
        v[6] = s.x; v[7] = s.y; v[8] = s.z; v[9] = t.x; v[10] = t.y; v[11] = t.z;
        n[0] = t.normal_x; n[1] = t.normal_y; n[2] = t.normal_z;
        vp_assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] > 1e-6);
    }
};
template <typename Model>
static void dx2_spec(const double* v, const double* n, const Eigen::Matrix<double, 6, 6>& H) {
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) vp_eq(H(i, j), half_d2F(v, n, i, j, hd_rotate), "pose-hessian-is-second-derivative");
}
template <typename Model>
static void dzdx_spec(const double* v, const double* n, const Eigen::Matrix<double, 6, 6>& H) {
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) vp_eq(H(i, j), half_d2F(v, n, i, 6 + j, hd_rotate), "measurement-hessian-is-second-derivative");
}
template <typename Model>
static void spec(bool plane) {
    Setup s;
    Eigen::Matrix<double, 6, 6> H, G, H2;
    vp_ensure(Model::process_correspondence(s.s, s.t, s.tf, H, G), "correspondence-accepted");
    dx2_spec<Model>(s.v, plane ? s.n : nullptr, H);
    dzdx_spec<Model>(s.v, plane ? s.n : nullptr, G);
    vp_ensure(Model::process_correspondence(s.s, s.t, s.tf, H2), "correspondence-accepted");
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) vp_eq(H(i, j), H2(i, j), "both-entry-points-agree");
}
CONTRACT(point_to_point) { spec<serpent::PointToPointIcpNonlinearModel<pcl::PointNormal, pcl::PointNormal>>(false); }
CONTRACT(point_to_plane) { spec<serpent::PointToPlaneIcpNonlinearModel<pcl::PointNormal, pcl::PointNormal>>(true); }

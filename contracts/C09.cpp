// C09: registration covariances are assembled from all correspondences by the documented formulas, for every model.
// @sources: pointcloud_tools/src/point_types.cpp
// @libs: -lpcl_common -lpcl_search -lpcl_kdtree -llz4 -lflann
// @flags: -U__SSE2__ -DPCL_NO_PRECOMPILE -DEIGEN_GEMM_TO_COEFFBASED_THRESHOLD=1000000000
// @bounded: {"n":1,"m":1,"c":1}
// @bounded: {"n":2,"m":1,"c":2}
#include "vp_model.hpp"
CONTRACT(least_squares) {
    Scene s;
    int count = -1;
    const double variance = vp_real("variance");
    const M6 got = serpent::lls_iid_covariance<AnyModel, float>(s.r, variance, count);
    vp_ieq(count, s.c, "correspondence-count");
    same(got, variance * s.hessian().inverse(), "variance-times-inverse-hessian");
}
CONTRACT(censi_iid) {
    Scene s;
    int count = -1;
    const double variance = vp_real("variance");
    const M6 got = serpent::censi_iid_covariance<AnyModel, float>(s.r, variance, count);
    vp_ieq(count, s.c, "correspondence-count");
    Eigen::Matrix<double, 6, Eigen::Dynamic> all(6, 6 * s.c);   // the derivatives of all correspondences side by side
    for (long i = 0; i < s.c; ++i) {
        M6 d;
        AnyModel::measurement(s.sx(i), s.tx(i), s.w, d);
        all.block(0, 6 * i, 6, 6) = d;
    }
    const M6 middle = all * all.transpose();
    const M6 inverse = s.hessian().inverse();
    M6 want;
    for (int a = 0; a < 6; ++a)
        for (int b = 0; b < 6; ++b) {
            double t = 0;
            for (int k = 0; k < 6; ++k) for (int l = 0; l < 6; ++l) t += inverse(a, k) * middle(k, l) * inverse(l, b);
            want(a, b) = variance * t;
        }
    same(got, want, "censi-covariance");
}

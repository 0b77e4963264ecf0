// C10: registration correspondences pair every source point with its nearest target point within the distance limit.
// @sources: pointcloud_tools/src/point_types.cpp
// @libs: -lpcl_common -lpcl_search -lpcl_kdtree -llz4 -lflann
// @flags: -U__SSE2__ -DPCL_NO_PRECOMPILE
// @bounded: {"n":1,"m":2,"s":1}
// @bounded: {"n":2,"m":1,"s":3}
#include "vp_registration.hpp"
#include "pointcloud_tools/point_types.hpp"
#include "pointcloud_tools/registration_utilities.hpp"
using P = PointNormalUnit;
using Cloud = pcl::PointCloud<P>;
static float v(const char* n, long i) { return float(vp_real_near_i(n, i, -3, 3)); }
static Cloud::Ptr cloud(const char* x, const char* y, const char* z, long n) {
    Cloud::Ptr c = std::make_shared<Cloud>();
    for (long i = 0; i < n; ++i) {
        P p;
        p.x = v(x, i); p.y = v(y, i); p.z = v(z, i); p.data[3] = 1.f;
        c->points.push_back(p);
    }
    return c;
}
static Eigen::Matrix4f transform() {
    Eigen::Matrix4f t = Eigen::Matrix4f::Identity();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) t(i, j) = v("T", 4 * i + j);
    return t;
}
static P at(float x, float y, float z) { P p; p.x = x; p.y = y; p.z = z; return p; }
static P moved(const Eigen::Matrix4f& t, const P& p) {
    return at(t(0, 0) * p.x + t(0, 1) * p.y + t(0, 2) * p.z + t(0, 3), t(1, 0) * p.x + t(1, 1) * p.y + t(1, 2) * p.z + t(1, 3), t(2, 0) * p.x + t(2, 1) * p.y + t(2, 2) * p.z + t(2, 3));
}
static void same(const pcl::Correspondences& got, const pcl::Correspondences& want) {
    vp_ieq(long(got.size()), long(want.size()), "number-of-correspondences");
    if (want.size() == 0) return;
    vp_cover("some correspondence");
    const long j = vp_any_index("j", long(want.size()));
    vp_ieq(got[j].index_query, want[j].index_query, "source-point");
    vp_ieq(got[j].index_match, want[j].index_match, "target-point");
    vp_eqf(got[j].distance, want[j].distance, "distance");
}
struct Scene {
    long n, m;
    Cloud::Ptr source, target;
    Eigen::Matrix4f t;
    double limit;
    VpRegistration<P> r;
    Scene() : n(vp_len("n", 1, 6)), m(vp_len("m", 1, 6)), source(cloud("sx", "sy", "sz", n)), target(cloud("tx", "ty", "tz", m)), t(transform()), limit(vp_real_near("limit", 0, 6)) {
        vp_assume(limit >= 0);
        r.setInputSource(source);
        r.setInputTarget(target);
        r.set_final(t);
        r.setMaxCorrespondenceDistance(limit);
        r.setSearchMethodTarget(std::make_shared<VpSearch<P>>(target, nullptr), true);
    }
};
// any selection of source points (indices into the source cloud)
static pcl::IndicesPtr selection(long s, long n) {
    pcl::IndicesPtr k = std::make_shared<pcl::Indices>();
    for (long i = 0; i < s; ++i) k->push_back(int(vp_int_i("k", i, 0, n - 1)));
    return k;
}
static pcl::Correspondences to_target(const Scene& s, const pcl::Indices& k) {
    pcl::Correspondences want;
    for (std::size_t i = 0; i < k.size(); ++i) {
        const Nearest b = nearest(moved(s.t, s.source->points[k[i]]), *s.target);
        if (double(b.sq_dist) <= s.limit * s.limit) want.emplace_back(k[i], int(b.index), std::sqrt(b.sq_dist));
    }
    return want;
}
CONTRACT(nearest_target) {
    Scene s;
    const pcl::IndicesPtr k = selection(vp_len("s", 1, 6), s.n);
    s.r.setIndices(k);
    const pcl::CorrespondencesPtr got = pct::compute_registration_correspondences(s.r);
    same(*got, to_target(s, *k));
}
CONTRACT(nearest_target_explicitly) {
    Scene s;
    const pcl::IndicesPtr k = selection(vp_len("s", 1, 6), s.n);
    s.r.setIndices(k);
    const pcl::CorrespondencesPtr got = pct::compute_registration_correspondences(s.r, false);
    same(*got, to_target(s, *k));
}
// the other way round: every target point, moved back, with its nearest selected source point
CONTRACT(nearest_source) {
    Scene s;
    const pcl::IndicesPtr k = selection(vp_len("s", 1, 6), s.n);
    s.r.setIndices(k);
    s.r.setSearchMethodSource(std::make_shared<VpSearch<P>>(s.source, k), true);
    const pcl::CorrespondencesPtr got = pct::compute_registration_correspondences(s.r, true);
    const Eigen::Matrix4f inverse = s.t.inverse();
    pcl::Correspondences want;
    for (std::size_t i = 0; i < s.target->points.size(); ++i) {
        const Nearest b = nearest(moved(inverse, s.target->points[i]), *s.source, *k);
        if (double(b.sq_dist) <= s.limit * s.limit) want.emplace_back(int(b.index), int(i), std::sqrt(b.sq_dist));
    }
    same(*got, want);
}
// a search over anything but the selected source points is refused
CONTRACT(unrestricted_source_search) {
    Scene s;
    const pcl::IndicesPtr k = selection(vp_len("s", 1, 6), s.n);
    s.r.setIndices(k);
    s.r.setSearchMethodSource(std::make_shared<VpSearch<P>>(s.source, vp_bool("other subset") ? selection(1, s.n) : nullptr), true);
    bool refused = false;
    try {
        pct::compute_registration_correspondences(s.r, true);
    } catch (const std::runtime_error&) {
        refused = true;
    }
    vp_ensure(refused, "unrestricted-source-search-refused");
}

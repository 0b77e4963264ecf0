// A registration with arbitrary clouds, index subset, transform and distance limit, and exact nearest-neighbour search.
// The search overrides PCL's kd-tree: its result (first nearest point of the searched subset, squared distance) is the contract assumed of PCL.
#pragma once
#include "vp_eigen.hpp"
#include <cmath>
#include <limits>
#include <memory>
#include <vector>
#include <pcl/registration/registration.h>
struct Nearest { long index; float sq_dist; };
template <typename P>
static float squared_distance(const P& a, const P& b) {
    return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z);
}
template <typename P>
static Nearest nearest(const P& p, const pcl::PointCloud<P>& cloud) {
    if (!vp_native()) {   // some point of the cloud, determined by the query; which one is left open
        const long j = vp_ifn3("nearest", p.x, p.y, p.z, 0, long(cloud.points.size()) - 1);
        return {j, squared_distance(p, cloud.points[j])};
    }
    Nearest r{0, squared_distance(p, cloud.points[0])};
    for (std::size_t j = 1; j < cloud.points.size(); ++j) {
        const float d = squared_distance(p, cloud.points[j]);
        if (d < r.sq_dist) { r.index = long(j); r.sq_dist = d; }
    }
    return r;
}
template <typename P>
static Nearest nearest(const P& p, const pcl::PointCloud<P>& cloud, const pcl::Indices& subset) {
    if (!vp_native()) {
        const long j = subset[vp_ifn3("nearest_of_subset", p.x, p.y, p.z, 0, long(subset.size()) - 1)];
        return {j, squared_distance(p, cloud.points[j])};
    }
    Nearest r{long(subset[0]), squared_distance(p, cloud.points[subset[0]])};
    for (std::size_t j = 1; j < subset.size(); ++j) {
        const float d = squared_distance(p, cloud.points[subset[j]]);
        if (d < r.sq_dist) { r.index = long(subset[j]); r.sq_dist = d; }
    }
    return r;
}
template <typename P>
class VpSearch : public pcl::search::KdTree<P> {
public:
    typename pcl::PointCloud<P>::ConstPtr cloud;
    pcl::IndicesConstPtr subset;
    VpSearch(typename pcl::PointCloud<P>::ConstPtr c, pcl::IndicesConstPtr s) : cloud(c), subset(s) { this->input_ = c; this->indices_ = s; }
    int nearestKSearch(const P& point, int k, pcl::Indices& index, std::vector<float>& sq_dist) const override {
        if (k < 1 || cloud->points.size() == 0 || (subset && subset->size() == 0)) return 0;
        const Nearest n = subset ? nearest(point, *cloud, *subset) : nearest(point, *cloud);
        index.resize(1);
        sq_dist.resize(1);
        index[0] = int(n.index);
        sq_dist[0] = n.sq_dist;
        return 1;
    }
};
template <typename P>
class VpRegistration : public pcl::Registration<P, P, float> {
public:
    void set_final(const Eigen::Matrix4f& t) { this->final_transformation_ = t; }
    void computeTransformation(pcl::PointCloud<P>&, const Eigen::Matrix4f&) override {}
};

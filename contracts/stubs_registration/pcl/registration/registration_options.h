// Stand-in for the registration classes of PCL and fast_gicp: the methods keep the options they are given.
#pragma once
#include <memory>
namespace pcl {
enum Method { REGISTRATION, ICP, GICP, NDT, LSQ, FAST_GICP, FAST_GICP_ST, FAST_VGICP };
enum Option { MAXIMUM_ITERATIONS, RANSAC_ITERATIONS, RANSAC_THRESHOLD, MAX_DISTANCE, EPSILON, ROTATION_EPSILON_BASE, FITNESS_EPSILON, RECIPROCAL,
    ROTATION_EPSILON, RANDOMNESS, OPTIMISER_ITERATIONS, TRANSLATION_TOLERANCE, ROTATION_TOLERANCE, LAMBDA, DEBUG, THREADS, REGULARISATION, RESOLUTION, ACCUMULATION, NEIGHBOURS, STEP, OUTLIERS, OPTIONS };
template <typename S, typename T, typename Scalar = float>
struct Registration {
    using Ptr = std::shared_ptr<Registration>;
    Method method = REGISTRATION;
    bool given[OPTIONS] = {};
    double value[OPTIONS] = {};
    void set(Option o, double v) { given[o] = true; value[o] = v; }
    void setMaximumIterations(int v) { set(MAXIMUM_ITERATIONS, v); }
    void setRANSACIterations(int v) { set(RANSAC_ITERATIONS, v); }
    void setRANSACOutlierRejectionThreshold(double v) { set(RANSAC_THRESHOLD, v); }
    void setMaxCorrespondenceDistance(double v) { set(MAX_DISTANCE, v); }
    void setTransformationEpsilon(double v) { set(EPSILON, v); }
    void setTransformationRotationEpsilon(double v) { set(ROTATION_EPSILON_BASE, v); }
    void setEuclideanFitnessEpsilon(double v) { set(FITNESS_EPSILON, v); }
};
template <typename S, typename T, typename Scalar = float>
struct IterativeClosestPoint : Registration<S, T, Scalar> {
    using Ptr = std::shared_ptr<IterativeClosestPoint>;
    IterativeClosestPoint() { this->method = ICP; }
    void setUseReciprocalCorrespondences(bool v) { this->set(RECIPROCAL, v); }
};
template <typename S, typename T, typename Scalar = float>
struct GeneralizedIterativeClosestPoint : IterativeClosestPoint<S, T, Scalar> {
    using Ptr = std::shared_ptr<GeneralizedIterativeClosestPoint>;
    GeneralizedIterativeClosestPoint() { this->method = GICP; }
    void setRotationEpsilon(double v) { this->set(ROTATION_EPSILON, v); }
    void setCorrespondenceRandomness(int v) { this->set(RANDOMNESS, v); }
    void setMaximumOptimizerIterations(int v) { this->set(OPTIMISER_ITERATIONS, v); }
    void setTranslationGradientTolerance(double v) { this->set(TRANSLATION_TOLERANCE, v); }
    void setRotationGradientTolerance(double v) { this->set(ROTATION_TOLERANCE, v); }
};
template <typename S, typename T, typename Scalar = float>
struct NormalDistributionsTransform : Registration<S, T, Scalar> {
    using Ptr = std::shared_ptr<NormalDistributionsTransform>;
    NormalDistributionsTransform() { this->method = NDT; }
    void setResolution(float v) { this->set(RESOLUTION, v); }
    void setStepSize(double v) { this->set(STEP, v); }
    void setOulierRatio(double v) { this->set(OUTLIERS, v); }
    void setOutlierRatio(double v) { this->set(OUTLIERS, v); }
};
}
namespace fast_gicp {
enum class RegularizationMethod { NONE, MIN_EIG, NORMALIZED_MIN_EIG, PLANE, FROBENIUS };
enum class NeighborSearchMethod { DIRECT27, DIRECT7, DIRECT1, DIRECT_RADIUS };
enum class VoxelAccumulationMode { ADDITIVE, ADDITIVE_WEIGHTED, MULTIPLICATIVE };
template <typename S, typename T>
struct LsqRegistration : pcl::Registration<S, T, float> {
    LsqRegistration() { this->method = pcl::LSQ; }
    void setRotationEpsilon(double v) { this->set(pcl::ROTATION_EPSILON, v); }
    void setInitialLambdaFactor(double v) { this->set(pcl::LAMBDA, v); }
    void setDebugPrint(bool v) { this->set(pcl::DEBUG, v); }
};
template <typename S, typename T>
struct FastGICP : LsqRegistration<S, T> {
    FastGICP() { this->method = pcl::FAST_GICP; }
    void setNumThreads(int v) { this->set(pcl::THREADS, v); }
    void setCorrespondenceRandomness(int v) { this->set(pcl::RANDOMNESS, v); }
    void setRegularizationMethod(RegularizationMethod v) { this->set(pcl::REGULARISATION, int(v)); }
};
template <typename S, typename T>
struct FastGICPSingleThread : FastGICP<S, T> {
    FastGICPSingleThread() { this->method = pcl::FAST_GICP_ST; }
};
template <typename S, typename T>
struct FastVGICP : FastGICP<S, T> {
    FastVGICP() { this->method = pcl::FAST_VGICP; }
    void setResolution(double v) { this->set(pcl::RESOLUTION, v); }
    void setVoxelAccumulationMode(VoxelAccumulationMode v) { this->set(pcl::ACCUMULATION, int(v)); }
    void setNeighborSearchMethod(NeighborSearchMethod v) { this->set(pcl::NEIGHBOURS, int(v)); }
};
}

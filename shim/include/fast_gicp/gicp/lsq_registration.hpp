// fast_gicp is not installed: the classes exist (derived from pcl::Registration) so that the code compiles, and identity alignment
// is all they do.  Nothing the checks decide depends on them (the checks select other registration methods).
#pragma once
#include <pcl/registration/registration.h>
namespace fast_gicp {
enum class RegularizationMethod { NONE, MIN_EIG, NORMALIZED_MIN_EIG, PLANE, FROBENIUS };
enum class NeighborSearchMethod { DIRECT27, DIRECT7, DIRECT1, DIRECT_RADIUS };
enum class VoxelAccumulationMode { ADDITIVE, ADDITIVE_WEIGHTED, MULTIPLICATIVE };
enum class LSQ_OPTIMIZER_TYPE { GaussNewton, LevenbergMarquardt };
template<class A, class B> struct LsqRegistration : pcl::Registration<A, B, float> {
    using Base = pcl::Registration<A, B, float>;
    using Ptr = std::shared_ptr<LsqRegistration<A, B>>;
    void setRotationEpsilon(double) {}
    void setInitialLambdaFactor(double) {}
    void setDebugPrint(bool) {}
    void computeTransformation(typename Base::PointCloudSource& o, const typename Base::Matrix4& g) override { this->final_transformation_ = g; this->converged_ = true; pcl::transformPointCloud(o, o, g); }
};
template<class A, class B> struct FastGICP : LsqRegistration<A, B> {
    using Ptr = std::shared_ptr<FastGICP<A, B>>;
    void setNumThreads(int) {}
    void setCorrespondenceRandomness(int) {}
    void setRegularizationMethod(RegularizationMethod) {}
};
template<class A, class B> struct FastGICPSingleThread : FastGICP<A, B> { using Ptr = std::shared_ptr<FastGICPSingleThread<A, B>>; };
template<class A, class B> struct FastVGICP : FastGICP<A, B> {
    using Ptr = std::shared_ptr<FastVGICP<A, B>>;
    void setResolution(double) {}
    void setVoxelAccumulationMode(VoxelAccumulationMode) {}
    void setNeighborSearchMethod(NeighborSearchMethod) {}
};
}

// Stand-in for the external fast_gicp package: same configuration surface; the alignment itself is PCL's ICP.
#pragma once
#include <pcl/registration/gicp.h>
#include <pcl/registration/icp.h>
#include <pcl/registration/ndt.h>
#include <ros/ros.h>

namespace fast_gicp {
enum class RegularizationMethod { NONE, MIN_EIG, NORMALIZED_MIN_EIG, PLANE, FROBENIUS };
enum class VoxelAccumulationMode { ADDITIVE, ADDITIVE_WEIGHTED, MULTIPLICATIVE };
enum class NeighborSearchMethod { DIRECT27, DIRECT7, DIRECT1, DIRECT_RADIUS };

template<typename S, typename T>
class LsqRegistration : public pcl::IterativeClosestPoint<S, T> {
public:
    void setRotationEpsilon(double v) { rotation_epsilon = v; }
    void setInitialLambdaFactor(double v) { initial_lambda_factor = v; }
    void setDebugPrint(bool v) { debug_print = v; }
    double rotation_epsilon{-1}, initial_lambda_factor{-1};
    bool debug_print{false};
};
template<typename S, typename T>
class FastGICP : public LsqRegistration<S, T> {
public:
    void setNumThreads(int v) { num_threads = v; }
    void setCorrespondenceRandomness(int v) { correspondence_randomness = v; }
    void setRegularizationMethod(RegularizationMethod v) { regularization_method = v; }
    int num_threads{-1}, correspondence_randomness{-1};
    RegularizationMethod regularization_method{RegularizationMethod::NONE};
};
template<typename S, typename T>
class FastGICPSingleThread : public FastGICP<S, T> {};
template<typename S, typename T>
class FastVGICP : public FastGICP<S, T> {
public:
    void setResolution(double v) { resolution = v; }
    void setVoxelAccumulationMode(VoxelAccumulationMode v) { voxel_mode = v; }
    void setNeighborSearchMethod(NeighborSearchMethod v) { search_method = v; }
    double resolution{-1};
    VoxelAccumulationMode voxel_mode{VoxelAccumulationMode::MULTIPLICATIVE};
    NeighborSearchMethod search_method{NeighborSearchMethod::DIRECT_RADIUS};
};
}
#define SHIM_COMMA ,
SHIM_STD_MADE(template<typename S SHIM_COMMA typename T>, fast_gicp::FastGICP<S, T>)
SHIM_STD_MADE(template<typename S SHIM_COMMA typename T>, fast_gicp::FastGICPSingleThread<S, T>)
SHIM_STD_MADE(template<typename S SHIM_COMMA typename T>, fast_gicp::FastVGICP<S, T>)
SHIM_STD_MADE(template<typename S SHIM_COMMA typename T SHIM_COMMA typename F>, pcl::IterativeClosestPoint<S, T, F>)
SHIM_STD_MADE(template<typename S SHIM_COMMA typename T SHIM_COMMA typename F>, pcl::GeneralizedIterativeClosestPoint<S, T, F>)
SHIM_STD_MADE(template<typename S SHIM_COMMA typename T SHIM_COMMA typename F>, pcl::NormalDistributionsTransform<S, T, F>)

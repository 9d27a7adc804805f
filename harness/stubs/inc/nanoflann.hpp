// the installed nanoflann under the names of the release the project uses (SearchParams, index)
#pragma once
#define KDTreeEigenMatrixAdaptor KDTreeEigenMatrixAdaptorInstalled
#include_next <nanoflann.hpp>
#undef KDTreeEigenMatrixAdaptor
namespace nanoflann {
struct SearchParams : SearchParameters {SearchParams(int = 32, float eps = 0, bool sorted = true) : SearchParameters(eps, sorted) {}};
template<class M, int32_t DIM = -1, class D = metric_L2, bool rm = true>
struct KDTreeEigenMatrixAdaptor : KDTreeEigenMatrixAdaptorInstalled<M, DIM, D, rm> {
  using Base = KDTreeEigenMatrixAdaptorInstalled<M, DIM, D, rm>;
  using Base::Base;
  typename Base::index_t * index = this->index_;
};
}

// Minimal exact stand-in for libnabo (not installed here): brute-force k-NN
// with the part of the interface that registrators/icp_fast.* uses.
#ifndef VERIF_STUB_NABO_H_
#define VERIF_STUB_NABO_H_

#include <Eigen/Core>
#include <algorithm>
#include <limits>
#include <utility>
#include <vector>

namespace Nabo {

template <typename T, typename Cloud = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>>
struct NearestNeighbourSearch {
  typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> Matrix;
  typedef Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic> IndexMatrix;
  enum SearchType { BRUTE_FORCE = 0, KDTREE_LINEAR_HEAP, KDTREE_TREE_HEAP };
  enum SearchOptionFlags { ALLOW_SELF_MATCH = 1, SORT_RESULTS = 2 };
  static constexpr T InvalidValue = std::numeric_limits<T>::infinity();
  static constexpr int InvalidIndex = -1;

  static NearestNeighbourSearch* create(const Matrix& cloud, int dim, SearchType) {
    return new NearestNeighbourSearch(cloud, dim);
  }
  template <typename... Args>
  unsigned long knn(const Matrix& query, IndexMatrix& indices, Matrix& dists2, int k,
                    T = 0, unsigned = 0, T max_radius = std::numeric_limits<T>::infinity()) const {
    for (int q = 0; q < query.cols(); ++q) {
      std::vector<std::pair<T, int>> all;
      all.reserve(cloud_.cols());
      for (int i = 0; i < cloud_.cols(); ++i) {
        const T d = (cloud_.col(i).head(dim_) - query.col(q).head(dim_)).squaredNorm();
        if (d <= max_radius * max_radius) all.push_back(std::make_pair(d, i));
      }
      std::sort(all.begin(), all.end());
      for (int j = 0; j < k; ++j) {
        const bool ok = j < static_cast<int>(all.size());
        dists2(j, q) = ok ? all[j].first : InvalidValue;
        indices(j, q) = ok ? all[j].second : InvalidIndex;
      }
    }
    return 0;
  }

 private:
  NearestNeighbourSearch(const Matrix& cloud, int dim) : cloud_(cloud), dim_(dim) {}
  const Matrix cloud_;
  const int dim_;
};
template <typename T, typename C>
constexpr T NearestNeighbourSearch<T, C>::InvalidValue;
template <typename T, typename C>
constexpr int NearestNeighbourSearch<T, C>::InvalidIndex;

typedef NearestNeighbourSearch<double> NNSearchD;
typedef NearestNeighbourSearch<float> NNSearchF;
}  // namespace Nabo
#endif

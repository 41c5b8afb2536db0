// libpointmatcher is not installed here. registrators/icp_pointmatcher.cc is
// replaced by harness/fake_pointmatcher.cc, so only the header name is needed.
#ifndef VERIF_STUB_POINTMATCHER_H_
#define VERIF_STUB_POINTMATCHER_H_
#include <Eigen/Core>
template <typename T>
struct PointMatcher {};
#endif

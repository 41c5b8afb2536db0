// Stand-in for the scan registration: the alignment result is scripted by the driver.
#ifndef VERIF_FAKE_MATCHER_H_
#define VERIF_FAKE_MATCHER_H_
#include <Eigen/Dense>
#include <functional>
#include "registrators/interface.h"

namespace vfake {
using CloudPtr = static_map::registrator::Interface::InnerCloudPtr;
struct AlignCall {
  int type;  // registrator::Type requested in the options; -1 = constructed directly
  CloudPtr source;
  CloudPtr target;
  Eigen::Matrix4d guess;
};
// Returns the result of Align; sets the pose and the score.
extern std::function<bool(const AlignCall&, Eigen::Matrix4d* result, double* score)> g_align;
}  // namespace vfake
#endif

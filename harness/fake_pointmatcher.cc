#include "fake_matcher.h"
#include "registrators/icp_pointmatcher.h"

namespace static_map {
namespace registrator {
struct IcpUsingPointMatcherMem {};
IcpUsingPointMatcher::IcpUsingPointMatcher(const std::string&) : inner_(new IcpUsingPointMatcherMem) {
  type_ = kIcpPM;
  final_score_ = 0;
}
IcpUsingPointMatcher::~IcpUsingPointMatcher() {}
void IcpUsingPointMatcher::SetInputSource(InnerCloudPtr cloud) { source_cloud_ = cloud; }
void IcpUsingPointMatcher::SetInputTarget(InnerCloudPtr cloud) { target_cloud_ = cloud; }
bool IcpUsingPointMatcher::Align(const Eigen::Matrix4d& guess, Eigen::Matrix4d& result) {
  vfake::AlignCall call{-1, source_cloud_, target_cloud_, guess};
  Eigen::Matrix4d out = guess;
  double score = 0;
  const bool ok = vfake::g_align ? vfake::g_align(call, &out, &score) : false;
  result = out;
  final_score_ = score;
  return ok;
}
void IcpUsingPointMatcher::loadDefaultConfig() {}
void IcpUsingPointMatcher::loadConfig(const std::string&) {}
}  // namespace registrator
}  // namespace static_map

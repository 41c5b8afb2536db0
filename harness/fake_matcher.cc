#include "fake_matcher.h"

namespace vfake {
std::function<bool(const AlignCall&, Eigen::Matrix4d*, double*)> g_align;
}

namespace static_map {
namespace registrator {
namespace {
class FakeMatcher : public Interface {
 public:
  explicit FakeMatcher(Type type) {
    type_ = type;
    final_score_ = 0;
  }
  bool Align(const Eigen::Matrix4d& guess, Eigen::Matrix4d& result) override {
    vfake::AlignCall call{static_cast<int>(type_), source_cloud_, target_cloud_, guess};
    Eigen::Matrix4d out = guess;
    double score = 0;
    const bool ok = vfake::g_align ? vfake::g_align(call, &out, &score) : false;
    result = out;
    final_score_ = score;
    return ok;
  }
};
}  // namespace

std::shared_ptr<Interface> CreateMatcher(const MatcherOptions& options, bool) {
  return std::make_shared<FakeMatcher>(options.type);
}
}  // namespace registrator
}  // namespace static_map

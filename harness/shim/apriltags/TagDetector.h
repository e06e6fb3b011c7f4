// Stand-in for the AprilTags library: the tags "seen" in an image are scripted.
#ifndef VERIF_SHIM_TAG_DETECTOR_H_
#define VERIF_SHIM_TAG_DETECTOR_H_
#include <functional>
#include <utility>
#include <vector>

#include <opencv2/core/core.hpp>

#ifndef CV_GRAY2RGB
#define CV_GRAY2RGB cv::COLOR_GRAY2RGB
#define CV_FONT_HERSHEY_SIMPLEX cv::FONT_HERSHEY_SIMPLEX
#define CV_RGB(r, g, b) cv::Scalar((b), (g), (r), 0)
#define CV_TERMCRIT_EPS cv::TermCriteria::EPS
#define CV_TERMCRIT_ITER cv::TermCriteria::MAX_ITER
inline int cvStartWindowThread() { return 0; }
#endif

namespace AprilTags {
struct TagDetection {
  bool good = true;
  int id = 0;
  std::pair<float, float> p[4];
  void draw(cv::Mat&) const {}
  static bool sortByIdCompare(const TagDetection& a, const TagDetection& b) { return a.id < b.id; }
};
struct TagCodes { int family = 0; };
struct Script {
  std::function<std::vector<TagDetection>(const cv::Mat&)> tags;
  static Script& get() { static Script s; return s; }
};
struct TagDetector {
  TagDetector(const TagCodes& codes, size_t border) : codes_(codes), border_(border) {}
  std::vector<TagDetection> extractTags(const cv::Mat& image) { return Script::get().tags(image); }
  TagCodes codes_;
  size_t border_;
};
}  // namespace AprilTags
#endif

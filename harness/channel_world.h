// Channel groups under test and their observation; shared by the sequential and the concurrent driver.
#ifndef VERIF_CHANNEL_WORLD_H_
#define VERIF_CHANNEL_WORLD_H_
#include <algorithm>
#include <sstream>

#include <aslam/common/channel.h>
#include <aslam/common/channel-definitions.h>

#include "seq/seq.h"

namespace cw {
namespace ch = aslam::channels;
typedef std::vector<Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic>> Descriptors;

// type codes: 1 double, 2 VectorXd, 3 Matrix2Xd, 4 VectorXi, 5 Descriptors, 6 cv::Mat
inline std::vector<int> enc(double v) { return {1, static_cast<int>(v)}; }
template <typename M> std::vector<int> mat(int code, const M& m) {
  std::vector<int> r = {code, static_cast<int>(m.rows()), static_cast<int>(m.cols())};
  for (int c = 0; c < m.cols(); ++c) for (int i = 0; i < m.rows(); ++i) r.push_back(static_cast<int>(m(i, c)));
  return r;
}
inline std::vector<int> enc(const Eigen::VectorXd& v) { return mat(2, v); }
inline std::vector<int> enc(const Eigen::Matrix2Xd& v) { return mat(3, v); }
inline std::vector<int> enc(const Eigen::VectorXi& v) { return mat(4, v); }
inline std::vector<int> enc(const Descriptors& v) {
  std::vector<int> r = {5, static_cast<int>(v.size())};
  for (const auto& m : v) { const std::vector<int> x = mat(0, m); r.insert(r.end(), x.begin(), x.end()); }
  return r;
}
inline std::vector<int> enc(const cv::Mat& m) {
  std::vector<int> r = {6, m.rows, m.cols, m.depth(), m.channels()};
  const size_t n = m.elemSize1() ? m.elemSize() / m.elemSize1() : 0;
  for (int i = 0; i < m.rows; ++i)
    for (int c = 0; c < m.cols; ++c)
      for (size_t k = 0; k < n; ++k) {
        const uchar* p = m.ptr(i) + c * m.elemSize() + k * m.elemSize1();
        switch (m.depth()) {
          case CV_8U: r.push_back(*p); break;
          case CV_16U: r.push_back(*reinterpret_cast<const uint16_t*>(p)); break;
          case CV_32S: r.push_back(*reinterpret_cast<const int*>(p)); break;
          case CV_32F: r.push_back(static_cast<int>(*reinterpret_cast<const float*>(p))); break;
          case CV_64F: r.push_back(static_cast<int>(*reinterpret_cast<const double*>(p))); break;
          default: r.push_back(-1);
        }
      }
  return r;
}
inline std::vector<int> enc(const ch::ChannelBase& b) {
  if (auto p = dynamic_cast<const ch::Channel<double>*>(&b)) return enc(p->value_);
  if (auto p = dynamic_cast<const ch::Channel<Eigen::VectorXd>*>(&b)) return enc(p->value_);
  if (auto p = dynamic_cast<const ch::Channel<Eigen::Matrix2Xd>*>(&b)) return enc(p->value_);
  if (auto p = dynamic_cast<const ch::Channel<Eigen::VectorXi>*>(&b)) return enc(p->value_);
  if (auto p = dynamic_cast<const ch::Channel<Descriptors>*>(&b)) return enc(p->value_);
  if (auto p = dynamic_cast<const ch::Channel<cv::Mat>*>(&b)) return enc(p->value_);
  return {-1};
}
inline std::string jlist(const std::vector<int>& v) { seq::J j; j.list("b", v); const std::string s = j.str(); return s.substr(5, s.size() - 6); }

inline std::string contents(const ch::ChannelGroup& g) {
  std::vector<std::pair<std::string, std::string>> v;
  for (const auto& p : g.channels_) v.emplace_back(p.first, p.second ? jlist(enc(*p.second)) : "[-2]");
  std::sort(v.begin(), v.end());
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? ",{\"n\":" : "{\"n\":") + seq::quote(v[i].first) + ",\"v\":" + v[i].second + "}";
  return s + "]";
}

// A value of the given type from a small domain.
inline void make(int k, double* v) { *v = k % 5; }
inline void make(int k, Eigen::VectorXd* v) { v->resize(k % 3); for (int i = 0; i < v->size(); ++i) (*v)(i) = (k / 3 + i) % 4; }
inline void make(int k, Eigen::Matrix2Xd* v) { v->resize(2, k % 3); for (int i = 0; i < v->size(); ++i) (*v)(i % 2, i / 2) = (k / 3 + i) % 4; }
inline void make(int k, Eigen::VectorXi* v) { v->resize(k % 3); for (int i = 0; i < v->size(); ++i) (*v)(i) = (k / 3 + i) % 4 - 1; }
inline void make(int k, Descriptors* v) {
  v->clear();
  v->resize(k % 3);
  for (size_t b = 0; b < v->size(); ++b) {
    (*v)[b].resize(1 + (k / 3) % 2, (k / 6 + b) % 3);
    for (int i = 0; i < (*v)[b].size(); ++i) (*v)[b](i % (*v)[b].rows(), i / (*v)[b].rows()) = (k / 2 + i) % 4;
  }
}
inline void make(int k, cv::Mat* v) {
  static const int types[] = {CV_8UC1, CV_8UC3, CV_16UC1, CV_32SC1, CV_32FC2, CV_64FC1};
  if (k % 7 == 6) { *v = cv::Mat(); return; }
  const int type = types[k % 7 % 6];
  cv::Mat m = cv::Mat::zeros((k / 7) % 3, 1 + (k / 21) % 2, type);
  if (m.total() > 0) {
    const size_t n = m.total() * m.channels(), at = (k / 5) % n;
    uchar* p = m.data + at * m.elemSize1();
    const int val = 1 + k % 3;
    switch (m.depth()) {
      case CV_8U: *p = val; break;
      case CV_16U: *reinterpret_cast<uint16_t*>(p) = 256 * val; break;
      case CV_32S: *reinterpret_cast<int*>(p) = -val; break;
      case CV_32F: *reinterpret_cast<float*>(p) = val; break;
      case CV_64F: *reinterpret_cast<double*>(p) = val; break;
    }
  }
  *v = m;
}
template <typename T> std::vector<int> made(int k) { T t; make(k, &t); return enc(t); }

// The typed accessors exist for some names.
struct Named {
  bool (*has)(const ch::ChannelGroup&);
  void (*remove)(ch::ChannelGroup*);
  int type;
};
inline const Named* named(const std::string& n) {
  static const Named m = {ch::has_VISUAL_KEYPOINT_MEASUREMENTS_Channel, ch::remove_VISUAL_KEYPOINT_MEASUREMENTS_Channel, 3};
  static const Named s = {ch::has_VISUAL_KEYPOINT_SCALES_Channel, ch::remove_VISUAL_KEYPOINT_SCALES_Channel, 2};
  static const Named t = {ch::has_TRACK_IDS_Channel, ch::remove_TRACK_IDS_Channel, 4};
  static const Named d = {ch::has_DESCRIPTORS_Channel, ch::remove_DESCRIPTORS_Channel, 5};
  static const Named i = {ch::has_RAW_IMAGE_Channel, ch::remove_RAW_IMAGE_Channel, 6};
  if (n == "VISUAL_KEYPOINT_MEASUREMENTS") return &m;
  if (n == "VISUAL_KEYPOINT_SCALES") return &s;
  if (n == "TRACK_IDS") return &t;
  if (n == "DESCRIPTORS") return &d;
  if (n == "RAW_IMAGE") return &i;
  return nullptr;
}
template <typename T> T& addTyped(const std::string& n, ch::ChannelGroup* g, bool) { return ch::addChannel<T>(n, g); }
template <> inline Eigen::Matrix2Xd& addTyped(const std::string& n, ch::ChannelGroup* g, bool typed) {
  return typed && n == "VISUAL_KEYPOINT_MEASUREMENTS" ? ch::add_VISUAL_KEYPOINT_MEASUREMENTS_Channel(g) : ch::addChannel<Eigen::Matrix2Xd>(n, g); }
template <> inline Eigen::VectorXd& addTyped(const std::string& n, ch::ChannelGroup* g, bool typed) {
  return typed && n == "VISUAL_KEYPOINT_SCALES" ? ch::add_VISUAL_KEYPOINT_SCALES_Channel(g) : ch::addChannel<Eigen::VectorXd>(n, g); }
template <> inline Eigen::VectorXi& addTyped(const std::string& n, ch::ChannelGroup* g, bool typed) {
  return typed && n == "TRACK_IDS" ? ch::add_TRACK_IDS_Channel(g) : ch::addChannel<Eigen::VectorXi>(n, g); }
template <> inline Descriptors& addTyped(const std::string& n, ch::ChannelGroup* g, bool typed) {
  return typed && n == "DESCRIPTORS" ? ch::add_DESCRIPTORS_Channel(g) : ch::addChannel<Descriptors>(n, g); }
template <> inline cv::Mat& addTyped(const std::string& n, ch::ChannelGroup* g, bool typed) {
  return typed && n == "RAW_IMAGE" ? ch::add_RAW_IMAGE_Channel(g) : ch::addChannel<cv::Mat>(n, g); }
template <typename T> T& getTyped(const std::string& n, const ch::ChannelGroup& g, bool) { return ch::getChannelData<T>(n, g); }
template <> inline Eigen::Matrix2Xd& getTyped(const std::string& n, const ch::ChannelGroup& g, bool typed) {
  return typed && n == "VISUAL_KEYPOINT_MEASUREMENTS" ? ch::get_VISUAL_KEYPOINT_MEASUREMENTS_Data(g) : ch::getChannelData<Eigen::Matrix2Xd>(n, g); }
template <> inline Eigen::VectorXd& getTyped(const std::string& n, const ch::ChannelGroup& g, bool typed) {
  return typed && n == "VISUAL_KEYPOINT_SCALES" ? ch::get_VISUAL_KEYPOINT_SCALES_Data(g) : ch::getChannelData<Eigen::VectorXd>(n, g); }
template <> inline Eigen::VectorXi& getTyped(const std::string& n, const ch::ChannelGroup& g, bool typed) {
  return typed && n == "TRACK_IDS" ? ch::get_TRACK_IDS_Data(g) : ch::getChannelData<Eigen::VectorXi>(n, g); }
template <> inline Descriptors& getTyped(const std::string& n, const ch::ChannelGroup& g, bool typed) {
  return typed && n == "DESCRIPTORS" ? ch::get_DESCRIPTORS_Data(g) : ch::getChannelData<Descriptors>(n, g); }
template <> inline cv::Mat& getTyped(const std::string& n, const ch::ChannelGroup& g, bool typed) {
  return typed && n == "RAW_IMAGE" ? ch::get_RAW_IMAGE_Data(g) : ch::getChannelData<cv::Mat>(n, g); }

// Calls f with a null pointer of the type with the given code.
template <typename F> auto dispatch(int code, F f) -> decltype(f(static_cast<double*>(nullptr))) {
  switch (code) {
    case 1: return f(static_cast<double*>(nullptr));
    case 2: return f(static_cast<Eigen::VectorXd*>(nullptr));
    case 3: return f(static_cast<Eigen::Matrix2Xd*>(nullptr));
    case 4: return f(static_cast<Eigen::VectorXi*>(nullptr));
    case 5: return f(static_cast<Descriptors*>(nullptr));
    default: return f(static_cast<cv::Mat*>(nullptr));
  }
}
inline std::vector<std::string> printed(const ch::ChannelGroup& g) {
  std::ostringstream o;
  g.printParameters(o);
  std::istringstream in(o.str());
  std::vector<std::string> names;
  for (std::string l; std::getline(in, l);) if (l.compare(0, 5, "   - ") == 0) names.push_back(l.substr(5));
  std::sort(names.begin(), names.end());
  return names;
}
inline std::string jnames(const std::vector<std::string>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + seq::quote(v[i]);
  return s + "]";
}
}  // namespace cw
#endif

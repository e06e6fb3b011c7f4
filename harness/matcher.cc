// Drives aslam::GyroTwoFrameMatcher.  A token is one matching: m:type:bytes:height:small:large:dt:<frame k+1>:<frame k>,
// a frame being a list of keypoints x.y.hex, x.y.ok.hex in frame k (the predicted position and whether it was predicted);
// coordinates in quarters of a pixel.  dt: by how much frame k+1 is later.
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/gyro-two-frame-matcher.h>

#include <gflags/gflags.h>

#include <sstream>

#include "seq/probe.h"
#include "seq/seq.h"

DECLARE_int32(gyro_matcher_small_search_distance_px);
DECLARE_int32(gyro_matcher_large_search_distance_px);

namespace {
using aslam::VisualFrame;
using seq::J;
typedef std::vector<int> Ints;

std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> v;
  std::stringstream ss(s);
  for (std::string x; std::getline(ss, x, c);) v.push_back(x);
  return v;
}
struct Keypoint { int x, y, ok; std::vector<unsigned char> d; };
std::vector<Keypoint> parse(const std::string& s, bool k, int bytes) {
  std::vector<Keypoint> v;
  for (const std::string& t : split(s, ',')) {
    const std::vector<std::string> p = split(t, '.');
    Keypoint q{std::stoi(p[0]), std::stoi(p[1]), k ? std::stoi(p[2]) : 1, {}};
    const std::string& h = p.back();
    for (int i = 0; i < bytes; ++i) q.d.push_back(static_cast<unsigned char>(std::stoi(h.substr(2 * i, 2), nullptr, 16)));
    v.push_back(q);
  }
  return v;
}
// Block `type` holds the keypoints; blocks before it hold others.
void fill(VisualFrame* f, const std::vector<Keypoint>& kp, int type, int bytes, bool at) {
  for (int t = 0; t <= type; ++t) {
    const int n = t == type ? kp.size() : 2;
    Eigen::Matrix2Xd m(2, n);
    VisualFrame::DescriptorsT d(t == type ? bytes : 3, n);
    d.setConstant(170);
    for (int i = 0; i < n; ++i) {
      m.col(i).setConstant(5);
      if (t < type) continue;
      if (at) m.col(i) << kp[i].x / 4.0, kp[i].y / 4.0;
      for (int b = 0; b < bytes; ++b) d(b, i) = kp[i].d[b];
    }
    if (t == 0) {
      f->setKeypointMeasurements(m);
      f->setDescriptors(d, 0);
    } else {
      f->extendKeypointMeasurements(m);
      f->extendDescriptors(d, t);
    }
  }
}
std::string show(const std::vector<Keypoint>& kp) {
  std::vector<std::string> v;
  for (const Keypoint& q : kp) {
    Ints bits;
    for (size_t b = 0; b < q.d.size() * 8; ++b) if (q.d[b / 8] >> (b % 8) & 1) bits.push_back(b);
    v.push_back(J().i("x", q.x).i("y", q.y).b("ok", q.ok).list("d", bits).str());
  }
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
  return s + "]";
}
void body(const std::string& line) {
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> p = split(tok, ':');
    p.resize(9);
    auto I = [&](int k) { return std::stoi(p[k]); };
    const int type = I(1), bytes = I(2);
    const std::vector<Keypoint> a = parse(p[7], false, bytes), b = parse(p[8], true, bytes);
    VisualFrame now, before;
    before.setTimestampNanoseconds(1000000);
    now.setTimestampNanoseconds(1000000 + I(6));
    fill(&now, a, type, bytes, true);
    fill(&before, b, type, bytes, false);
    Eigen::Matrix2Xd predicted(2, b.size());
    std::vector<unsigned char> ok;
    for (size_t i = 0; i < b.size(); ++i) {
      predicted.col(i) << b[i].x / 4.0, b[i].y / 4.0;
      ok.push_back(b[i].ok);
    }
    FLAGS_gyro_matcher_small_search_distance_px = I(4);
    FLAGS_gyro_matcher_large_search_distance_px = I(5);
    aslam::FrameToFrameMatches m(3);
    const aslam::Quaternion q;
    const bool accepted = seq::acceptedHere([&] {
      aslam::GyroTwoFrameMatcher matcher(q, now, before, type, I(3), predicted, ok, &m);
      matcher.match();
    });
    std::vector<std::string> pairs;
    if (accepted) for (const auto& x : m) pairs.push_back("[" + std::to_string(x.getKeypointIndexInFrameA() + 1) + "," + std::to_string(x.getKeypointIndexInFrameB() + 1) + "]");
    seq::emit(J().s("e", "match").i("bits", bytes * 8).i("h", I(3)).i("small", I(4)).i("large", I(5)).i("dt", I(6)).raw("now", show(a)).raw("before", show(b))
                  .b("ok", accepted).objs("res", pairs));
    if (!accepted) return;
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

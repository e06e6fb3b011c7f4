// Frames with small-number keypoints and track identifiers, for the track drivers.
#ifndef VERIF_TRACKS_WORLD_H_
#define VERIF_TRACKS_WORLD_H_
#include <aslam/frames/visual-frame.h>
#include <aslam/tracker/track-manager.h>

#include <cmath>
#include <memory>
#include <string>
#include <vector>

#include "seq/seq.h"

namespace tracks {
using aslam::VisualFrame;
using seq::J;
typedef std::vector<int> Ints;
const int kBad = -999999;

inline Ints ints(const std::string& s) {
  Ints v;
  std::string x;
  for (char c : s + ",") if (c == ',') { if (!x.empty()) v.push_back(std::stoi(x)); x.clear(); } else x += c;
  return v;
}
// "i-j,k-l"
inline aslam::FrameToFrameMatches matches(const std::string& s, std::vector<std::string>* json) {
  aslam::FrameToFrameMatches m;
  std::string x;
  for (char c : s + ",") {
    if (c != ',') { x += c; continue; }
    if (x.empty()) continue;
    const size_t at = x.find('-', 1);
    m.emplace_back(std::stoi(x.substr(0, at)), std::stoi(x.substr(at + 1)));
    json->push_back("[" + std::to_string(m.back().first) + "," + std::to_string(m.back().second) + "]");
    x.clear();
  }
  return m;
}
// Keypoints are told apart by their positions.
inline std::unique_ptr<VisualFrame> makeFrame(const Ints& codes, bool has, const Ints& ids) {
  std::unique_ptr<VisualFrame> f(new VisualFrame);
  Eigen::Matrix2Xd m(2, codes.size());
  for (size_t i = 0; i < codes.size(); ++i) m.col(i) << codes[i], codes[i] + 1000;
  f->setKeypointMeasurements(m);
  if (has) {
    Eigen::VectorXi t(ids.size());
    for (size_t i = 0; i < ids.size(); ++i) t(i) = ids[i];
    f->setTrackIds(t);
  }
  return f;
}
inline std::string show(const VisualFrame& f) {
  Ints kp, track, unc;
  int full = 0;
  if (f.hasKeypointMeasurements()) {
    const Eigen::Matrix2Xd& m = f.getKeypointMeasurements();
    for (int i = 0; i < m.cols(); ++i) kp.push_back(m(1, i) == m(0, i) + 1000 && m(0, i) == std::floor(m(0, i)) ? static_cast<int>(m(0, i)) : kBad);
  }
  if (f.hasTrackIds()) for (int i = 0; i < f.getTrackIds().size(); ++i) track.push_back(f.getTrackIds()(i));
  const int n = kp.size();
  const int has = f.hasKeypointOrientations() + f.hasKeypointScales() + f.hasKeypointScores() + f.hasKeypointMeasurementUncertainties() + f.hasDescriptors();
  if (has == 5) {
    full = 1;
    const auto& d = f.getDescriptors();
    const auto &o = f.getKeypointOrientations(), &s = f.getKeypointScales(), &r = f.getKeypointScores(), &u = f.getKeypointMeasurementUncertainties();
    if (o.size() != n || s.size() != n || r.size() != n || u.size() != n || d.cols() != n) full = kBad;
    for (int i = 0; i < n && full == 1; ++i) {
      if (o(i) != kp[i] + 0.25 || s(i) != kp[i] + 0.5 || r(i) != kp[i] + 0.75) full = kBad;
      for (int b = 0; b < d.rows(); ++b) if (d(b, i) != static_cast<unsigned char>(kp[i] + 7 * b)) full = kBad;
      unc.push_back(static_cast<int>(u(i) * 4));
    }
  } else if (has) {
    full = has * -100;
  }
  return J().list("kp", kp).b("has", f.hasTrackIds()).list("track", track).i("full", full).list("unc", unc).str();
}
inline std::string shown(int k, const VisualFrame& f) { return J().i("f", k).raw("v", show(f)).str(); }
}  // namespace tracks
#endif

// Drives aslam::GyroTracker over a sequence of frames.  Optical flow and the extractor of descriptors do as the program says.
//   s:ratio:maxlen:threshold:border   settings; the ratio in quarters
//   d:kps:flow:turn:bad               the next frame (turn: by quarters), its detected keypoints feat.x.y (half pixels); flow: for keypoints of the frame
//                                     before, by default they are where they are expected, i.x.y (moves there), i.0 (lost), i.x.y.f (extracted as feature f, f = 0: dropped)
//   m:i,...                           apply the matches except those of these keypoints of the frame before
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/tracker/feature-tracker-gyro.h>
#include <aslam/tracker/track-manager.h>

#include <gflags/gflags.h>
#include <opencv2/video/tracking.hpp>

#include <map>

#include "seq/probe.h"
#include "seq/seq.h"

DECLARE_double(gyro_lk_candidate_ratio);
DECLARE_uint64(gyro_lk_max_status_track_length);
DECLARE_uint64(gyro_lk_track_detected_threshold);

using seq::J;
typedef std::vector<int> Ints;
namespace {
const int kW = 400, kH = 300, kBytes = 16, kBad = -999999;
struct Flow { bool ok; int x, y, f; };
std::map<std::pair<int, int>, int> g_index;          // position -> keypoint of the frame before
std::map<int, Flow> g_flow;
std::map<std::pair<int, int>, int> g_extracted;      // position -> feature
std::vector<std::string> g_asked;
bool g_images;

int half(double x) { return x * 2 == std::floor(x * 2) ? static_cast<int>(x * 2) : kBad; }
int near(double x) { return static_cast<int>(std::floor(x * 2 + 0.5)); }
unsigned char code(int f, int b) { unsigned x = f * 2654435761u + b * 40503u; x ^= x >> 13; x *= 2246822519u; return static_cast<unsigned char>((x >> 11) ^ (x >> 21)); }
int feature(const unsigned char* d) {
  for (int f = 1; f < 100; ++f) { bool same = true; for (int b = 0; b < kBytes; ++b) same = same && d[b] == code(f, b); if (same) return f; }
  return kBad;
}

class Extractor : public cv::Feature2D {
 public:
  void compute(cv::InputArray, std::vector<cv::KeyPoint>& kp, cv::OutputArray d) override {
    std::vector<cv::KeyPoint> kept;
    Ints f;
    for (const cv::KeyPoint& k : kp) {
      auto x = g_extracted.find({half(k.pt.x), half(k.pt.y)});
      const int v = x == g_extracted.end() ? 99 : x->second;
      if (!v) continue;
      kept.push_back(k);
      f.push_back(v);
    }
    kp.swap(kept);
    if (f.empty()) { d.release(); return; }
    cv::Mat m(f.size(), kBytes, CV_8UC1);
    for (size_t i = 0; i < f.size(); ++i) for (int b = 0; b < kBytes; ++b) m.at<uchar>(i, b) = code(f[i], b);
    m.copyTo(d);
  }
};

std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> v;
  std::stringstream ss(s);
  for (std::string x; std::getline(ss, x, c);) v.push_back(x);
  return v;
}
std::string show(const aslam::VisualFrame& f) {
  std::vector<std::string> v;
  const auto& m = f.getKeypointMeasurements();
  const auto& d = f.getDescriptors();
  const auto &o = f.getKeypointOrientations(), &s = f.getKeypointScales(), &r = f.getKeypointScores(), &u = f.getKeypointMeasurementUncertainties();
  const int n = m.cols();
  if (d.cols() != n || o.size() != n || s.size() != n || r.size() != n || u.size() != n || f.getTrackIds().size() != n) return "[0]";
  for (int i = 0; i < n; ++i) {
    const int k = static_cast<int>(s(i) - 0.5);
    v.push_back(J().i("f", feature(d.data() + i * d.rows())).i("x", half(m(0, i))).i("y", half(m(1, i)))
                    .i("n", s(i) == k + 0.5 && o(i) == k + 0.25 && r(i) == k + 0.75 ? k : kBad).i("u", std::lround(u(i) * 10)).i("t", f.getTrackIds()(i)).str());
  }
  std::string t;
  for (size_t i = 0; i < v.size(); ++i) t += (i ? "," : "") + v[i];
  return "[" + t + "]";
}

void body(const std::string& line) {
  aslam::Distortion::UniquePtr none(new aslam::NullDistortion), none2(new aslam::NullDistortion);
  Eigen::VectorXd par(4);
  par << 256, 256, 200, 150;
  std::shared_ptr<aslam::PinholeCamera> camera(new aslam::PinholeCamera(par, kW, kH, none)), stranger(new aslam::PinholeCamera(par, kW, kH, none2));
  aslam::CameraId id;
  aslam::generateId(&id);
  camera->setId(id);
  aslam::generateId(&id);
  stranger->setId(id);
  cv::Ptr<cv::Feature2D> extractor(new Extractor);
  aslam::SimpleTrackManager manager;
  std::unique_ptr<aslam::GyroTracker> tracker;
  std::unique_ptr<aslam::VisualFrame> old, now;
  aslam::FrameToFrameMatches matches;
  int serial = 0, time = 1000;
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> p = split(tok, ':');
    p.resize(7);
    auto I = [&](int k) { return p[k].empty() ? 0 : std::stoi(p[k]); };
    if (p[0] == "s") {
      FLAGS_gyro_lk_candidate_ratio = I(1) / 4.0;
      FLAGS_gyro_lk_max_status_track_length = I(2);
      FLAGS_gyro_lk_track_detected_threshold = I(3);
      const bool ok = seq::acceptedHere([&] { tracker.reset(new aslam::GyroTracker(*camera, I(4), extractor)); });
      seq::emit(J().s("e", "settings").i("ratio", I(1)).i("most", I(2)).i("least", I(3)).i("border", 2 * I(4)).i("w", 2 * kW).i("h", 2 * kH).b("ok", ok));
      if (!ok) return;
      continue;
    }
    if (p[0] == "m") {
      std::vector<bool> drop(1000, false);
      for (const std::string& s : split(p[1], ',')) drop[std::stoi(s)] = true;
      aslam::FrameToFrameMatches kept;
      for (const auto& m : matches) if (!drop[m.getKeypointIndexInFrameB()]) kept.push_back(m);
      manager.applyMatchesToFrames(kept, now.get(), old.get());
      seq::emit(J().s("e", "apply").raw("now", show(*now)));
      continue;
    }
    // The next frame.
    old = std::move(now);
    now.reset(new aslam::VisualFrame);
    const int bad = I(4);
    const std::vector<std::string> kps = split(p[1], ',');
    const int n = kps.size();
    Eigen::Matrix2Xd m(2, n);
    Eigen::VectorXd o(n), s(n), r(n), u(n);
    Eigen::VectorXi t(n);
    aslam::VisualFrame::DescriptorsT d(kBytes, n);
    for (int i = 0; i < n; ++i) {
      const std::vector<std::string> q = split(kps[i], '.');
      m.col(i) << std::stoi(q[1]) / 2.0, std::stoi(q[2]) / 2.0;
      ++serial;
      s(i) = serial + 0.5, o(i) = serial + 0.25, r(i) = serial + 0.75, u(i) = 1.0, t(i) = -1;
      for (int b = 0; b < kBytes; ++b) d(b, i) = code(std::stoi(q[0]), b);
    }
    now->setTimestampNanoseconds(time += bad == 1 ? 0 : bad == 2 ? -1 : 7);
    now->setCameraGeometry(bad == 3 ? stranger : camera);
    now->setKeypointMeasurements(m);
    now->setKeypointMeasurementUncertainties(u);
    if (bad != 4) now->setKeypointOrientations(o);
    if (bad != 5) now->setKeypointScales(s);
    if (bad != 6) now->setKeypointScores(r);
    if (bad != 7) now->setTrackIds(t);
    if (bad != 8) now->setDescriptors(d);
    if (bad != 9) now->setRawImage(cv::Mat(kH, kW, CV_8UC1, cv::Scalar(time % 251)));
    if (!old) { seq::emit(J().s("e", "first").raw("now", show(*now))); continue; }
    // What flow and extraction will do.
    g_index.clear(), g_flow.clear(), g_extracted.clear(), g_asked.clear();
    g_images = true;
    const auto& om = old->getKeypointMeasurements();
    for (int i = 0; i < om.cols(); ++i) g_index[{half(om(0, i)), half(om(1, i))}] = i;
    for (const std::string& x : split(p[2], ',')) {
      const std::vector<std::string> q = split(x, '.');
      Flow& f = g_flow[std::stoi(q[0])];
      f = Flow{q.size() > 2, 0, 0, -1};
      if (f.ok) f.x = std::stoi(q[1]), f.y = std::stoi(q[2]);
      if (q.size() > 3) f.f = std::stoi(q[3]);
    }
    std::vector<std::string> flow;
    const auto& od = old->getDescriptors();
    for (int i = 0; i < om.cols(); ++i) {
      if (!g_flow.count(i)) {
        const int dx = half(om(0, i)) - kW, dy = half(om(1, i)) - kH, turn[4][2] = {{dx, dy}, {-dy, dx}, {-dx, -dy}, {dy, -dx}};
        g_flow[i] = Flow{true, kW + turn[I(3)][0], kH + turn[I(3)][1], -1};
      }
      Flow& f = g_flow[i];
      if (f.f < 0) f.f = feature(od.data() + i * od.rows());
      flow.push_back(J().b("ok", f.ok).i("x", f.x).i("y", f.y).i("f", f.f).str());
    }
    const std::string det = bad ? "[]" : show(*now);
    const std::string before = show(*old);
    aslam::Quaternion q;
    const double h = std::sqrt(0.5);
    if (I(3) == 1) q = aslam::Quaternion(h, 0, 0, h);
    if (I(3) == 2) q = aslam::Quaternion(0, 0, 0, 1);
    if (I(3) == 3) q = aslam::Quaternion(h, 0, 0, -h);
    matches.assign(2, aslam::FrameToFrameMatch(7, 7));
    const bool ok = seq::acceptedHere([&] { tracker->track(q, *old, now.get(), &matches); });
    std::vector<std::string> res;
    if (ok) for (const auto& x : matches) res.push_back("[" + std::to_string(x.getKeypointIndexInFrameA() + 1) + "," + std::to_string(x.getKeypointIndexInFrameB() + 1) + "]");
    seq::emit(J().s("e", "track").i("bad", bad).raw("det", det).objs("flow", flow).i("turned", I(3)).b("ok", ok).objs("res", res).objs("asked", g_asked)
                  .b("images", g_images).b("same", ok && show(*old) == before).raw("now", ok ? show(*now) : "[]"));
    if (!ok) return;
  }
}
}  // namespace

namespace cv {
void calcOpticalFlowPyrLK(InputArray a, InputArray b, InputArray from, InputOutputArray to, OutputArray status, OutputArray err, Size, int, TermCriteria, int flags, double) {
  const Mat pa = from.getMat(), pb = to.getMat();
  const int n = pa.checkVector(2, CV_32F);
  status.create(n, 1, CV_8U, -1, true);
  err.create(n, 1, CV_32F, -1, true);
  // Consecutive images, in order.
  g_images = g_images && (b.getMat().at<uchar>(0, 0) - a.getMat().at<uchar>(0, 0) + 251) % 251 == 7 && (flags & OPTFLOW_USE_INITIAL_FLOW);
  for (int i = 0; i < n; ++i) {
    const Point2f p = pa.ptr<Point2f>()[i];
    Point2f& to_i = const_cast<Point2f*>(pb.ptr<Point2f>())[i];
    auto x = g_index.find({half(p.x), half(p.y)});
    const int k = x == g_index.end() ? -1 : x->second;
    g_asked.push_back(J().i("k", k + 1).i("x", near(to_i.x)).i("y", near(to_i.y)).str());
    status.getMat().ptr<uchar>()[i] = k >= 0 && g_flow[k].ok;
    if (k < 0 || !g_flow[k].ok) continue;
    to_i = Point2f(g_flow[k].x / 2.0f, g_flow[k].y / 2.0f);
    g_extracted[{g_flow[k].x, g_flow[k].y}] = g_flow[k].f;
  }
}
}  // namespace cv

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

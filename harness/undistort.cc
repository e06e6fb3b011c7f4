// Drives the pipeline of one camera (aslam::VisualPipeline) and the undistorters.  Cameras 1: 4x3, 2: 5x2, 3: 4x3; 0: none.
//   P:kind:in:out:copy    kind 0: without processing, 1: recording what it is given, 2: with an undistorter before, 3: with none
//   I:w:h:fill:time       an image (pixel x, y has the value fill + x + 10 y), changed after it was processed
//   M:in:out:w:h:us:vs    an undistorter with these maps (w x h)       R:w:h:fill:interpolation is part of M's images:
//   A:w:h:fill            put an image through it
//   U:kind:dist:w:h:scale:alpha:how   make an undistorter; scale in eighths, alpha in quarters; how 0: as its class, 1: as a camera, 2: to a pinhole camera
#include <aslam/pipeline/undistorter-mapped.h>
#include <aslam/pipeline/visual-pipeline-null.h>
#include <aslam/pipeline/visual-pipeline.h>

#include <sstream>

#include "camera_world.h"
#include "seq/probe.h"

namespace {
using namespace world;
typedef std::vector<int> Ints;
using aslam::Camera;
using aslam::MappedUndistorter;
using aslam::Undistorter;
using aslam::VisualFrame;
using aslam::VisualPipeline;

Ints ints(const std::string& s) {
  Ints r;
  std::stringstream ss(s);
  for (std::string x; std::getline(ss, x, ',');) r.push_back(std::stoi(x));
  return r;
}
cv::Mat image(int w, int h, int fill) {
  cv::Mat m(h, w, CV_8UC1);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.at<uchar>(y, x) = static_cast<uchar>(fill + x + 10 * y);
  return m;
}
std::string pixels(const cv::Mat& m) {
  std::vector<std::string> rows;
  if (m.type() != CV_8UC1) return "[\"type\"]";
  for (int y = 0; y < m.rows; ++y) { Ints r; for (int x = 0; x < m.cols; ++x) r.push_back(m.at<uchar>(y, x)); std::string s = "["; for (size_t i = 0; i < r.size(); ++i) s += (i ? "," : "") + std::to_string(r[i]); rows.push_back(s + "]"); }
  std::string s = "[";
  for (size_t i = 0; i < rows.size(); ++i) s += (i ? "," : "") + rows[i];
  return s + "]";
}

struct Recording : public VisualPipeline {
  Recording(const Camera::ConstPtr& in, const Camera::ConstPtr& out, bool copy) : VisualPipeline(in, out, copy) {}
  Recording(std::unique_ptr<Undistorter>& u, bool copy) : VisualPipeline(u, copy) {}
  void processFrameImpl(const cv::Mat& image, VisualFrame* frame) const override {
    seen = image.clone();
    time = frame->getTimestampNanoseconds();
    geometry = frame->getCameraGeometry();
    frame->setKeypointMeasurements(Eigen::Matrix2Xd::Constant(2, 3, 1));
    ++calls;
  }
  mutable cv::Mat seen;
  mutable int64_t time = -1;
  mutable Camera::ConstPtr geometry;
  mutable int calls = 0;
};
// Turns every pixel over and adds one.
struct Flip : public Undistorter {
  Flip(Camera::Ptr in, Camera::Ptr out) : Undistorter(in, out) {}
  void processImage(const cv::Mat& in, cv::Mat* out) const override {
    cv::Mat m(static_cast<int>(output_camera_->imageHeight()), static_cast<int>(output_camera_->imageWidth()), CV_8UC1);
    for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) m.at<uchar>(y, x) = static_cast<uchar>(in.at<uchar>((y + 1) % in.rows, (x + 1) % in.cols) + 1);
    *out = m;
  }
};

struct World {
  Camera::Ptr cam[4];
  Ids<aslam::CameraId> cids;
  Ids<aslam::FrameId> fids;
  std::unique_ptr<VisualPipeline> pipe;
  Recording* rec = nullptr;
  std::unique_ptr<Undistorter> map;
  World() {
    const int size[][2] = {{0, 0}, {4, 3}, {5, 2}, {4, 3}};
    for (int i = 1; i < 4; ++i) { cam[i].reset(new aslam::PinholeCamera(4, 4, 2, 1, size[i][0], size[i][1])); cam[i]->setId(cids.id(i)); }
  }
  int which(const Camera* c) const { for (int i = 1; i < 4; ++i) if (cam[i].get() == c) return i; return c ? kBad : 0; }
};

// How a map sends pixels: in 32nds of a pixel.
void mapAt(const cv::Mat& u, const cv::Mat& v, int x, int y, int* mu, int* mv) {
  const cv::Vec2s p = u.at<cv::Vec2s>(y, x);
  const ushort f = v.at<ushort>(y, x);
  *mu = 32 * p[0] + f % 32;
  *mv = 32 * p[1] + f / 32;
}

void body(const std::string& line) {
  World w;
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> p;
    std::stringstream ss(tok + ":");
    for (std::string x; std::getline(ss, x, ':');) p.push_back(x);
    p.resize(10);
    auto I = [&](int k) { return p[k].empty() ? 0 : std::stoi(p[k]); };
    J j;
    bool ok = true;
    j.s("e", p[0]);
    switch (p[0][0]) {
      case 'P': {
        const Camera::Ptr a = w.cam[I(2)], b = w.cam[I(3)];
        const bool copy = I(4);
        w.rec = nullptr;
        ok = seq::acceptedHere([&] {
          std::unique_ptr<Undistorter> u;
          if (I(1) == 2) u.reset(new Flip(a, b));
          if (I(1) == 0) { w.pipe.reset(new aslam::NullVisualPipeline(a, copy)); return; }
          Recording* r = I(1) == 1 ? new Recording(a, b, copy) : new Recording(u, copy);
          w.rec = r;
          w.pipe.reset(r);
        });
        j.i("kind", I(1)).i("in", I(2)).i("out", I(3)).b("copy", copy);
        if (ok) {
          const VisualPipeline& c = *w.pipe;
          j.list("cams", Ints{w.which(c.getInputCameraShared().get()), w.which(c.getOutputCameraShared().get()), w.which(&c.getInputCamera()), w.which(&c.getOutputCamera())});
        }
        break;
      }
      case 'I': {
        cv::Mat m = image(I(1), I(2), I(3));
        const int64_t t = static_cast<int64_t>(I(4)) * 1000000007ll;
        VisualFrame::Ptr f;
        ok = seq::acceptedHere([&] { f = w.pipe->processImage(m, t); });
        j.i("w", I(1)).i("h", I(2)).i("fill", I(3)).i("time", I(4));
        if (ok) {
          const std::string before = pixels(f->getRawImage());
          m.setTo(99);
          j.i("id", w.fids.number(f->getId())).b("timed", f->getTimestampNanoseconds() == t).b("valid", f->isValid())
              .i("raw", w.which(f->getRawCameraGeometry().get())).i("cam", w.which(f->getCameraGeometry().get()))
              .raw("before", before).raw("after", pixels(f->getRawImage())).b("points", f->hasKeypointMeasurements())
              .i("calls", w.rec ? w.rec->calls : 0).raw("seen", w.rec ? pixels(w.rec->seen) : "[]")
              .b("told", !w.rec || (w.rec->time == t && w.rec->geometry == f->getCameraGeometry()));
        }
        break;
      }
      case 'M': {
        const Ints u = ints(p[5]), v = ints(p[6]);
        cv::Mat mu(I(4), I(3), CV_32FC1), mv(I(4), I(3), CV_32FC1);
        for (int y = 0; y < I(4); ++y) for (int x = 0; x < I(3); ++x) { mu.at<float>(y, x) = u.at(y * I(3) + x); mv.at<float>(y, x) = v.at(y * I(3) + x); }
        if (p[7] == "short") mv = mv.rowRange(0, I(4) - 1).clone();
        ok = seq::acceptedHere([&] { w.map.reset(new MappedUndistorter(w.cam[I(1)], w.cam[I(2)], mu, mv, aslam::InterpolationMethod::NearestNeighbor)); });
        j.i("in", I(1)).i("out", I(2)).i("w", I(3)).i("h", I(4)).b("short", p[7] == "short").list("u", u).list("v", v);
        if (ok) {
          const auto* m = static_cast<MappedUndistorter*>(w.map.get());
          j.list("cams", Ints{w.which(w.map->getInputCameraShared().get()), w.which(w.map->getOutputCameraShared().get()), w.which(&w.map->getInputCamera()), w.which(&w.map->getOutputCamera())})
              .b("kept", cv::countNonZero(m->getUndistortMapU() != mu) == 0 && cv::countNonZero(m->getUndistortMapV() != mv) == 0);
        }
        break;
      }
      case 'A': {
        cv::Mat out;
        ok = seq::acceptedHere([&] { w.map->processImage(image(I(1), I(2), I(3)), &out); });
        j.i("w", I(1)).i("h", I(2)).i("fill", I(3));
        if (ok) j.raw("out", pixels(out));
        break;
      }
      case 'U': {
        const int kind = I(1), W = I(3), H = I(4), how = I(7);
        Eigen::VectorXd k = intrinsics(kind, 0);
        if (kind < 2) { const int o = kind == 1; k(o) = W; k(o + 1) = W * 0.75; k(o + 2) = W / 2.0 - 1; k(o + 3) = H / 2.0 + 1; if (o) k(0) = 0.5; }
        aslam::Distortion::UniquePtr d(distortion(0));
        if (I(2) == 1) { Eigen::VectorXd c(4); c << -0.1, 0.02, 0.001, -0.001; d.reset(new aslam::RadTanDistortion(c)); }
        if (I(2) == 2) { Eigen::VectorXd c(4); c << 0.05, -0.01, 0.002, 0.001; d.reset(new aslam::EquidistantDistortion(c)); }
        if (I(2) == 3) { Eigen::VectorXd c(1); c << 0.6; d.reset(new aslam::FisheyeDistortion(c)); }
        Camera::Ptr c;
        if (kind == 0) c.reset(new aslam::PinholeCamera(k, W, H, d));
        if (kind == 1) c.reset(new aslam::UnifiedProjectionCamera(k, W, H, d));
        if (kind == 2) { c.reset(new aslam::Camera3DLidar(k, W, H)); c->setDistortion(d); }
        c->setId(w.cids.id(9));
        const float scale = I(5) / 8.f, alpha = I(6) / 4.f;
        std::unique_ptr<MappedUndistorter> u;
        ok = seq::acceptedHere([&] {
          const auto m = aslam::InterpolationMethod::Linear;
          if (how == 1) u = aslam::createMappedUndistorter<Camera>(*c, alpha, scale, m);
          else if (kind == 0) u = aslam::createMappedUndistorter(static_cast<const aslam::PinholeCamera&>(*c), alpha, scale, m);
          else if (how == 2) u = aslam::createMappedUndistorterToPinhole(static_cast<const aslam::UnifiedProjectionCamera&>(*c), alpha, scale, m);
          else u = aslam::createMappedUndistorter(static_cast<const aslam::UnifiedProjectionCamera&>(*c), alpha, scale, m);
        });
        j.i("kind", kind).i("dist", I(2)).i("w", W).i("h", H).i("scale", I(5)).i("alpha", I(6)).i("how", how);
        if (ok) {
          const Camera &a = u->getInputCamera(), &b = u->getOutputCamera();
          const int ow = b.imageWidth(), oh = b.imageHeight();
          const cv::Mat &mu = u->getUndistortMapU(), &mv = u->getUndistortMapV();
          int off = 0, lo[2] = {1 << 30, 1 << 30}, hi[2] = {-(1 << 30), -(1 << 30)};
          const bool sizes = mu.cols == ow && mu.rows == oh && mv.size() == mu.size() && mu.type() == CV_16SC2 && mv.type() == CV_16UC1;
          for (int y = 0; sizes && y < oh; ++y) for (int x = 0; x < ow; ++x) {
            int m[2];
            mapAt(mu, mv, x, y, &m[0], &m[1]);
            Eigen::Vector3d ray;
            Eigen::Vector2d q;
            b.backProject3(Eigen::Vector2d(x, y), &ray);
            a.project3(ray, &q);
            for (int i = 0; i < 2; ++i) {
              if (std::abs(m[i] - 32 * q(i)) > 1) ++off;
              lo[i] = std::min(lo[i], m[i]);
              hi[i] = std::max(hi[i], m[i]);
            }
          }
          // Pixels of the input that the output camera does not see.
          int lost = 0;
          for (int y = 1; y < H; ++y) for (int x = 1; x < W; ++x) {
            Eigen::Vector3d ray;
            Eigen::Vector2d q;
            a.backProject3(Eigen::Vector2d(x, y), &ray);
            b.project3(ray, &q);
            if (q(0) < -1 || q(1) < -1 || q(0) > ow || q(1) > oh) ++lost;
          }
          // The intrinsics of the output in thousandths.
          Ints kb;
          for (int i = 0; i < b.getParameters().size(); ++i) kb.push_back(static_cast<int>(std::round(1000 * b.getParameters()(i))));
          j.b("copied", a == *c && &a != c.get()).i("type", b.getType() == Camera::Type::kPinhole ? 0 : b.getType() == Camera::Type::kUnifiedProjection ? 1 : 2)
              .b("plain", b.getDistortion().getType() == aslam::Distortion::Type::kNoDistortion).i("ow", ow).i("oh", oh).b("sizes", sizes).i("off", off).list("lo", Ints{lo[0], lo[1]})
              .list("hi", Ints{hi[0], hi[1]}).i("lost", lost).list("k", kb);
        }
        break;
      }
    }
    j.b("ok", ok);
    seq::emit(j);
    if (!ok) return;
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

// Drives aslam::VisualNPipeline.
// A program: "<cameras> <workers> <tolerance> <main script> [<client script>...]"; a script is a comma separated list:
//   S<c>.<t>     submit an image of camera c and time t
//   B<c>.<t>.<m> submit, blocking while m or more sets wait      D<c>.<t>.<m> submit, dropping the oldest of m or more
//   n next  N next, blocking  l latest  L latest, blocking  c complete  p in process  w wait for all work  x shut down
//   q wait until nothing moves  y yield
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/pipeline/visual-npipeline.h>

#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <thread>

#include "detsched/explore.h"

namespace {

std::string num(long v) { return std::to_string(v); }
std::string me() { return "\"t\":" + num(ds::self()); }

void call(const std::string& o, const std::string& rest = "") {
  ds::NoPreempt np;
  ds::log("{\"e\":\"c\"," + me() + ",\"o\":\"" + o + "\"" + rest + "}");
  ds::beginOp("{\"e\":\"p\"," + me() + "}");
}
void ret(const std::string& o, const std::string& rest = "") {
  ds::NoPreempt np;
  ds::endOp();
  ds::log("{\"e\":\"r\"," + me() + ",\"o\":\"" + o + "\"" + rest + "}");
}

const int kSize = 4;

struct Processor : public aslam::VisualPipeline {
  Processor(const aslam::Camera::ConstPtr& in, const aslam::Camera::ConstPtr& out, int c, bool copy)
      : aslam::VisualPipeline(in, out, copy), cam(c) {}
  void processFrameImpl(const cv::Mat& image, aslam::VisualFrame* frame) const override {
    {
      ds::NoPreempt np;
      ds::endOp();
      ds::log("{\"e\":\"s\"," + me() + ",\"k\":" + num(image.at<uchar>(1, 2)) + ",\"cam\":" + num(cam + 1) + ",\"ts\":" +
              num(frame->getTimestampNanoseconds()) + "}");
    }
    ds::yield();
  }
  int cam;
};

struct World {
  std::shared_ptr<aslam::NCamera> in, out;
  std::unique_ptr<aslam::VisualNPipeline> p;
  int next = 1;

  explicit World(int n, int workers, int tol) {
    auto rig = [n](int size) {
      std::vector<aslam::Camera::Ptr> cams;
      aslam::TransformationVector T(n);
      for (int i = 0; i < n; ++i) {
        cams.emplace_back(new aslam::PinholeCamera(3.0, 3.0, 2.0, 2.0, size, size));
        aslam::CameraId id;
        aslam::generateId(&id);
        cams.back()->setId(id);
      }
      aslam::NCameraId id;
      aslam::generateId(&id);
      return std::shared_ptr<aslam::NCamera>(new aslam::NCamera(id, T, cams, "rig"));
    };
    in = rig(kSize);
    out = rig(kSize + 1);
    std::vector<aslam::VisualPipeline::Ptr> ps;
    for (int i = 0; i < n; ++i) {
      ps.emplace_back(new Processor(in->getCameraShared(i), out->getCameraShared(i), i, i % 2));
    }
    p.reset(new aslam::VisualNPipeline(workers, ps, in, out, tol));
  }

  // The images in the set, per camera: tag, time and whether the frame belongs to this camera of the rig.
  std::string show(const std::shared_ptr<aslam::VisualNFrame>& s) {
    if (!s) return "[]";
    std::string r = "[";
    for (size_t i = 0; i < s->getNumFrames(); ++i) {
      if (i) r += ",";
      if (!s->isFrameSet(i)) { r += "[0,0,0]"; continue; }
      const aslam::VisualFrame& f = s->getFrame(i);
      const cv::Mat& m = f.getRawImage();
      bool same = s->getNCameraShared() == out && f.getCameraGeometry() == out->getCameraShared(i) &&
                  f.getRawCameraGeometry() == in->getCameraShared(i) && m.cols == kSize && m.rows == kSize;
      for (int y = 0; same && y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) same = same && m.at<uchar>(y, x) == m.at<uchar>(0, 0);
      r += "[" + num(m.at<uchar>(1, 2)) + "," + num(f.getTimestampNanoseconds()) + "," + (same ? "1" : "0") + "]";
    }
    return r + "]";
  }
};

void step(World* w, const std::string& tok) {
  int a[3] = {0, 0, 0};
  { std::istringstream in(tok.substr(1)); std::string x; for (int i = 0; std::getline(in, x, '.'); ++i) a[i] = std::stoi(x); }
  auto submit = [&](const std::string& o) {
    int k;
    { ds::NoPreempt np; k = w->next++; }
    cv::Mat m(kSize, kSize, CV_8UC1, cv::Scalar(k));
    call(o, ",\"k\":" + num(k) + ",\"cam\":" + num(a[0] + 1) + ",\"ts\":" + num(a[1]) + ",\"max\":" + num(a[2]));
    return m;
  };
  auto flag = [](bool b) { return std::string(",\"ok\":") + (b ? "true" : "false"); };
  std::shared_ptr<aslam::VisualNFrame> s;
  switch (tok[0]) {
    case 'S': { cv::Mat m = submit("put"); w->p->processImage(a[0], m, a[1]); ret("put"); break; }
    case 'B': { cv::Mat m = submit("putb"); const bool b = w->p->processImageBlockingIfFull(a[0], m, a[1], a[2]); ret("putb", flag(b)); break; }
    case 'D': { cv::Mat m = submit("putd"); const bool b = w->p->processImageNonBlockingDroppingOldestNFrameIfFull(a[0], m, a[1], a[2]); ret("putd", flag(b)); break; }
    case 'n': { call("next"); s = w->p->getNext(); ret("next", flag(!!s) + ",\"res\":" + w->show(s)); break; }
    case 'l': { call("latest"); s = w->p->getLatestAndClear(); ret("latest", flag(!!s) + ",\"res\":" + w->show(s)); break; }
    case 'N': { call("nextb"); const bool b = w->p->getNextBlocking(&s); ret("nextb", flag(b) + ",\"res\":" + w->show(s)); break; }
    case 'L': { call("latestb"); const bool b = w->p->getLatestAndClearBlocking(&s); ret("latestb", flag(b) + ",\"res\":" + w->show(s)); break; }
    case 'c': { call("done"); const size_t v = w->p->getNumFramesComplete(); ret("done", ",\"v\":" + num(v)); break; }
    case 'p': { call("open"); const size_t v = w->p->getNumFramesProcessing(); ret("open", ",\"v\":" + num(v)); break; }
    case 'w': call("wait"); w->p->waitForAllWorkToComplete(); ret("wait"); break;
    case 'x': call("shut"); w->p->shutdown(); ret("shut"); break;
    case 'q': ds::waitQuiescent(); ds::log("{\"e\":\"q\"}"); break;
    case 'y': ds::yield(); break;
  }
}

void script(World* w, const std::string& s) {
  std::istringstream in(s);
  for (std::string t; std::getline(in, t, ',');) if (t != "-") step(w, t);
}

void body(const std::string& line) {
  std::istringstream in(line);
  int cams, workers, tol;
  std::string main_script, s;
  in >> cams >> workers >> tol >> main_script;
  World w(cams, workers, tol);
  std::vector<std::thread> th;
  while (in >> s) th.emplace_back([&w, s] { script(&w, s); });
  script(&w, main_script);
  for (std::thread& t : th) t.join();
  call("dtor");
  w.p.reset();
  ret("dtor");
}

ex::Program make(const std::string& line) {
  ex::Program p;
  p.desc = line;
  std::istringstream in(line);
  std::string n, workers, tol;
  in >> n >> workers >> tol;
  p.extra = "\"cams\":" + n + ",\"workers\":" + workers + ",\"tol\":" + tol;
  p.body = [line] { body(line); };
  return p;
}

}  // namespace

#include "detsched/driver_main.h"

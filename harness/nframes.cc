// Drives aslam::VisualNFrame over objects 0..2.  Cameras 1..5; rigs 1: 1,2  2: 3,4 (a clone of 1)  3: 1,5  4: 1  5: 1,2,5  6: none.
//   N:n:id:num  A:n:id:rig  B:n:rig  Z:n:rig:time  construct    f:cam:time  new frame (numbered from 1)   F:o:field:v  change a frame
//   s:n:i:o  set   u:n:i  unset   k/K:n:m  assign, copy construct   I:n:id   S:n:rig   W:n:i:field:v  change a frame in a slot
//   e:n:m  compare   m:n  times and completeness   r:n  release images   c:n  clear keypoints   x:n:i  access by index
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>

#include <limits>
#include <sstream>

#include "camera_world.h"
#include "seq/probe.h"

namespace {
using aslam::NCamera;
using aslam::VisualFrame;
using aslam::VisualNFrame;
using namespace world;
typedef std::vector<int> Ints;

const int64_t kTimes[] = {std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::min() + 1, -5, 0, 1, 5000000000ll, 5000000001ll, std::numeric_limits<int64_t>::max() - 1,
                          std::numeric_limits<int64_t>::max()};
int rank(int64_t t) { for (int i = 0; i < 9; ++i) if (kTimes[i] == t) return i; return kBad; }

struct World {
  Cameras cams;
  Ids<aslam::NFramesId> ids;
  Ids<aslam::FrameId> fids;
  NCamera::Ptr rigs[7];
  std::vector<VisualFrame::ConstPtr> frames;
  std::unique_ptr<VisualNFrame> n[3];

  NCamera::Ptr rig(int id, const Ints& c) {
    std::vector<aslam::Camera::Ptr> v;
    aslam::TransformationVector T;
    for (int o : c) { v.push_back(cams.at(o)); T.push_back(transformation(o)); }
    return NCamera::Ptr(new NCamera(Ids<aslam::NCameraId>().id(id), T, v, ""));
  }
  World() {
    for (int i = 1; i < 3; ++i) cams.number(makeCamera(0, 0, 0, 1, cams.ids.id(i)));
    rigs[1] = rig(1, {1, 2});
    rigs[2] = rigs[1]->cloneToShared();
    for (int i = 0; i < 2; ++i) cams.number(rigs[2]->getCameraShared(i));
    cams.number(makeCamera(0, 1, 0, 1, cams.ids.id(2)));
    rigs[3] = rig(1, {1, 5});
    rigs[4] = rig(4, {1});
    rigs[5] = rig(5, {1, 2, 5});
    rigs[6] = rig(6, {});
  }
  int number(const VisualFrame::ConstPtr& f) {
    if (!f) return 0;
    for (size_t i = 0; i < frames.size(); ++i) if (frames[i] == f) return static_cast<int>(i) + 1;
    frames.push_back(f);
    return static_cast<int>(frames.size());
  }
  VisualFrame::Ptr at(int o) { return o ? std::const_pointer_cast<VisualFrame>(frames.at(o - 1)) : nullptr; }
  int which(const NCamera::ConstPtr& c) const { for (int i = 1; i < 7; ++i) if (rigs[i] == c) return i; return c ? kBad : 0; }
  std::string show(const VisualFrame& f) {
    int kp = -1, shape = 0;
    if (f.hasKeypointMeasurements()) kp = static_cast<int>(f.getNumKeypointMeasurements());
    const bool has[] = {f.hasKeypointMeasurements(), f.hasKeypointMeasurementUncertainties(), f.hasKeypointOrientations(), f.hasKeypointScores(), f.hasKeypointScales(),
                        f.hasKeypoint3DPositions(), f.hasKeypointTimeOffsets(), f.hasTrackIds(), f.hasDescriptors(), f.hasChannel("DESCRIPTOR_TYPES")};
    for (int i = 0; i < 10; ++i) shape |= has[i] << i;
    if (has[7] && f.getTrackIds().size() != kp) kp = kBad;
    const int ch = f.hasChannel("free") ? f.getChannelData<Eigen::VectorXi>("free")(0) : 0;
    return J().i("time", rank(f.getTimestampNanoseconds())).b("valid", f.isValid()).i("cam", cams.number(f.getCameraGeometry())).i("id", fids.number(f.getId()))
        .i("ch", ch).i("img", f.hasRawImage() ? f.getRawImage().at<uchar>(0, 0) : 0).i("kp", kp).i("shape", shape).str();
  }
  std::string show(VisualNFrame* x) {
    if (!x) return J().b("on", false).str();
    const VisualNFrame& y = *x;
    Ints s;
    bool agree = y.getNCameraShared() == x->getNCameraShared();
    if (y.getNCameraShared()) agree = agree && &y.getNCamera() == y.getNCameraShared().get();
    for (size_t i = 0; i < y.getNumFrames(); ++i) {
      const VisualFrame::ConstPtr f = y.getFrameShared(i);
      agree = agree && f == x->getFrameShared(i) && y.isFrameSet(i) == (f != nullptr) && (!f || (f.get() == &y.getFrame(i) && y.isFrameValid(i) == f->isValid()));
      s.push_back(number(f));
    }
    return J().b("on", true).i("id", ids.number(y.getId())).i("rig", which(y.getNCameraShared())).list("slots", s).b("agree", agree).str();
  }
  void all(J* j) {
    std::vector<std::string> v, f;
    for (auto& x : n) v.push_back(show(x.get()));
    for (size_t i = 0; i < frames.size(); ++i) f.push_back(show(*frames[i]));
    j->objs("n", v).objs("frames", f);
  }
};

void change(World* w, VisualFrame* f, const std::string& what, int v) {
  if (what == "time") f->setTimestampNanoseconds(kTimes[v]);
  if (what == "valid") f->setValid(v);
  if (what == "cam") f->setCameraGeometry(w->cams.at(v));
  if (what == "id") f->setId(w->fids.id(v));
  if (what == "ch") f->setChannelData<Eigen::VectorXi>("free", Eigen::VectorXi::Constant(1, v));
  if (what == "img") f->setRawImage(cv::Mat(1, 1, CV_8UC1, cv::Scalar(v)));
  if (what == "kp") { f->setKeypointMeasurements(Eigen::Matrix2Xd::Constant(2, v, 7)); if (!f->hasTrackIds()) f->setTrackIds(Eigen::VectorXi::Constant(v, 3)); else f->getTrackIdsMutable()->setConstant(v, 3); }
}

void body(const std::string& line) {
  World w;
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> p;
    std::stringstream ss(tok + ":");
    for (std::string x; std::getline(ss, x, ':');) p.push_back(x);
    p.resize(8);
    auto I = [&](int k) { return p[k].empty() ? 0 : std::stoi(p[k]); };
    J j;
    bool ok = true;
    const char op = p[0][0];
    std::unique_ptr<VisualNFrame>& n = w.n[op == 'f' || op == 'F' ? 0 : I(1)];
    auto made = [&](const std::function<void()>& f) { ok = seq::acceptedHere(f); };
    switch (op) {
      case 'N': made([&] { n.reset(new VisualNFrame(w.ids.id(I(2)), static_cast<unsigned>(I(3)))); }); j.s("e", "plain").i("o", I(1)).i("id", I(2)).i("num", I(3)); break;
      case 'A': made([&] { n.reset(new VisualNFrame(w.ids.id(I(2)), w.rigs[I(3)])); }); j.s("e", "rigged").i("o", I(1)).i("id", I(2)).i("rig", I(3)); break;
      case 'B': made([&] { n.reset(new VisualNFrame(w.rigs[I(2)])); }); j.s("e", "rigged").i("o", I(1)).i("id", -1).i("rig", I(2)); break;
      case 'Z': made([&] { auto x = VisualNFrame::createEmptyTestVisualNFrame(w.rigs[I(2)], kTimes[I(3)]); for (size_t i = 0; i < x->getNumFrames(); ++i) w.number(x->getFrameShared(i));
                           n.reset(new VisualNFrame(x->getId(), x->getNCameraShared())); for (size_t i = 0; i < x->getNumFrames(); ++i) n->setFrame(i, x->getFrameShared(i)); });
                j.s("e", "test").i("o", I(1)).i("rig", I(2)).i("time", I(3)); break;
      case 'f': {
        VisualFrame::Ptr f(new VisualFrame);
        f->setCameraGeometry(w.cams.at(I(1)));
        f->setTimestampNanoseconds(kTimes[I(2)]);
        j.s("e", "frame").i("f", w.number(f)).i("cam", I(1)).i("time", I(2));
        break;
      }
      case 'F': change(&w, w.at(I(1)).get(), p[2], I(3)); j.s("e", "change").i("o", I(1)).s("f", p[2]).i("v", I(3)); break;
      case 'W': ok = seq::acceptedHere([&] { auto f = n->getFrameShared(I(2)); CHECK(f); change(&w, f.get(), p[3], I(4)); });
                j.s("e", "write").i("o", I(1)).i("i", I(2) + 1).s("f", p[3]).i("v", I(4)); break;
      case 's': ok = seq::acceptedHere([&] { n->setFrame(I(2), w.at(I(3))); }); j.s("e", "set").i("o", I(1)).i("i", I(2) + 1).i("f", I(3)); break;
      case 'u': ok = seq::acceptedHere([&] { n->unSetFrame(I(2)); }); j.s("e", "unset").i("o", I(1)).i("i", I(2) + 1); break;
      case 'k': *w.n[I(2)] = *n; j.s("e", "copy").i("o", I(1)).i("g", I(2)); break;
      case 'K': w.n[I(2)].reset(new VisualNFrame(*n)); j.s("e", "copy").i("o", I(1)).i("g", I(2)); break;
      case 'I': n->setId(w.ids.id(I(2))); j.s("e", "setid").i("o", I(1)).i("id", I(2)); break;
      case 'S': ok = seq::acceptedHere([&] { n->setNCameras(w.rigs[I(2)]); }); j.s("e", "setrig").i("o", I(1)).i("rig", I(2)); break;
      case 'e': {
        bool q = false, nocam = false;
        ok = seq::acceptedHere([&] { q = *n == *w.n[I(2)]; nocam = n->compareWithoutCameraSystem(*w.n[I(2)]); });
        j.s("e", "equal").i("o", I(1)).i("g", I(2)).b("res", q).b("nocam", nocam);
        break;
      }
      case 'm': {
        int64_t lo = 0, hi = 0;
        bool img = false, all = false;
        const bool a = seq::acceptedHere([&] { lo = n->getMinTimestampNanoseconds(); });
        const bool b = seq::acceptedHere([&] { hi = n->getMaxTimestampNanoseconds(); });
        const bool c = seq::acceptedHere([&] { img = n->hasRawImagesInAllFrames(); });
        all = n->areAllFramesSet();
        j.s("e", "summary").i("o", I(1)).i("min", a ? rank(lo) : -1).i("max", b ? rank(hi) : -1).b("all", all).i("img", c ? img : -1).i("num", n->getNumFrames());
        break;
      }
      case 'r': ok = seq::acceptedHere([&] { n->releaseRawImagesOfAllFrames(); }); j.s("e", "release").i("o", I(1)); break;
      case 'c': ok = seq::acceptedHere([&] { n->clearKeypointChannelsOfAllFrames(); }); j.s("e", "clear").i("o", I(1)); break;
      case 'x': {
        const size_t i = I(2);
        const VisualNFrame& y = *n;
        Ints a, c;
        a.push_back(seq::acceptedHere([&] { y.isFrameSet(i); }));
        a.push_back(seq::acceptedHere([&] { n->getFrameShared(i); }));
        a.push_back(seq::acceptedHere([&] { y.getFrameShared(i); }));
        a.push_back(seq::acceptedHere([&] { y.getFrame(i); }));
        a.push_back(seq::acceptedHere([&] { y.isFrameValid(i); }));
        int num = -1, id = -1, has = -1, idx = -1, cam = -1, T = -1, none = -1;
        seq::acceptedHere([&] { num = y.getNumCameras(); });
        seq::acceptedHere([&] { for (int k = 1; k < 6; ++k) if (&y.getCamera(i) == w.cams.at(k).get()) cam = k; });
        seq::acceptedHere([&] { id = w.cams.ids.number(y.getCameraId(i)); });
        seq::acceptedHere([&] { T = Transformations().number(y.get_T_C_B(i)); });
        seq::acceptedHere([&] { has = y.hasCameraWithId(w.cams.ids.id(2)); });
        seq::acceptedHere([&] { idx = static_cast<int>(y.getCameraIndex(w.cams.ids.id(2))) + 1; });
        seq::acceptedHere([&] { none = static_cast<int>(y.getCameraIndex(w.cams.ids.id(9))) + 1; });
        j.s("e", "access").i("o", I(1)).i("i", I(2) + 1).list("a", a).list("c", Ints{num, cam, id, T, has, idx, none});
        break;
      }
    }
    j.b("ok", ok);
    if (ok) w.all(&j);
    seq::emit(j);
    if (!ok) return;
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

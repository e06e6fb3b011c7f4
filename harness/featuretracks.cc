// Drives aslam::FeatureTrack and KeypointIdentifier over tracks 0..2.  Multi-camera frames 0..2 of one rig of two cameras
// (the last one lacks the frame of the second camera); frame 3 does not exist.
//   K:n:f:i:x:y  place a keypoint (quarters of a pixel)   D:n:f:i:v  its descriptor     N:n:id  rename a frame
//   F:n:f:num:id:x  put a frame of num other keypoints in the place of frame f
//   t:s:id:room  new track   a:s:n:f:i  add   o:s  drop the last   c:s:g  copy   l:s:g  compare   b:s  extent
//   C:a:b:n:f:i  two continued tracks
#include <aslam/frames/feature-track.h>
#include <aslam/frames/visual-nframe.h>

#include <sstream>

#include "camera_world.h"
#include "seq/probe.h"

namespace {
using aslam::FeatureTrack;
using aslam::KeypointIdentifier;
using aslam::VisualFrame;
using aslam::VisualNFrame;
using namespace world;
const int kPoints = 3;

int quarters(double x) {
  const double y = x * 4;
  return std::abs(y) < 1e8 && y == std::round(y) ? static_cast<int>(y) : kBad;
}

struct World {
  Cameras cams;
  aslam::NCamera::Ptr rig;
  Ids<aslam::NFramesId> ids;
  Ids<aslam::FrameId> fids;
  std::shared_ptr<VisualNFrame> n[4];
  std::unique_ptr<FeatureTrack> track[3];

  World() {
    std::vector<aslam::Camera::Ptr> v;
    aslam::TransformationVector T;
    for (int i = 1; i < 3; ++i) {
      cams.number(makeCamera(0, 0, 0, 1, cams.ids.id(i)));
      v.push_back(cams.at(i));
      T.push_back(transformation(i));
    }
    rig.reset(new aslam::NCamera(Ids<aslam::NCameraId>().id(1), T, v, ""));
    for (int k = 0; k < 3; ++k) {
      n[k].reset(new VisualNFrame(ids.id(k + 1), rig));
      for (int f = 0; f < (k == 2 ? 1 : 2); ++f) {
        VisualFrame::Ptr x(new VisualFrame);
        x->setId(fids.id(10 * (k + 1) + f));
        x->setCameraGeometry(cams.at(f + 1));
        const int num = kPoints - (f == 1 ? k : 0);
        Eigen::Matrix2Xd m(2, num);
        VisualFrame::DescriptorsT d(2, num);
        for (int i = 0; i < num; ++i) {
          m.col(i) << 100 * k + 10 * f + i, 50 * f + 2 * i;
          d.col(i) << 20 * k + 5 * f + i, 7;
        }
        x->setKeypointMeasurements(m);
        x->setDescriptors(d);
        n[k]->setFrame(f, x);
      }
    }
  }
  std::string show(const KeypointIdentifier& k) {
    int which = kBad;
    for (int i = 0; i < 3; ++i) if (&k.getNFrame() == n[i].get()) which = i;
    const auto p = k.getKeypointMeasurement();
    int cam = kBad;
    for (int i = 1; i < 3; ++i) if (k.getCamera() == cams.at(i)) cam = i;
    const bool same = &k.getFrame() == &k.getNFrame().getFrame(k.getFrameIndex()) && &k.getNCamera() == rig.get() && k.getDescriptor()[1] == 7;
    return J().i("n", which).i("f", k.getFrameIndex()).i("i", k.getKeypointIndex()).i("nid", ids.number(k.getNFrameId())).i("fid", fids.number(k.getFrameId()))
        .i("x", quarters(p(0))).i("y", quarters(p(1))).i("d", k.getDescriptor()[0]).i("cam", cam).i("T", Transformations().number(k.get_T_C_B())).b("same", same).str();
  }
  std::string show(FeatureTrack* t) {
    if (!t) return J().b("on", false).str();
    std::vector<std::string> v;
    for (const auto& k : t->getKeypointIdentifiers()) v.push_back(show(k));
    std::string first = "[]", last = "[]";
    if (!seq::acceptedHere([&] { first = show(t->getFirstKeypointIdentifier()); })) first = "[\"refused\"]";
    if (!seq::acceptedHere([&] { last = show(t->getLastKeypointIdentifier()); })) last = "[\"refused\"]";
    return J().b("on", true).i("id", t->getTrackId()).i("len", t->getTrackLength()).b("has", t->hasObservations()).objs("keys", v).raw("first", first).raw("last", last).str();
  }
};

void body(const std::string& line) {
  World w;
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> p;
    std::stringstream ss(tok + ":");
    for (std::string x; std::getline(ss, x, ':');) p.push_back(x);
    p.resize(8);
    auto I = [&](int k) { return p[k].empty() ? 0 : std::stoi(p[k]); };
    J j;
    bool ok = true;
    j.s("e", p[0]);
    const char op = p[0][0];
    std::unique_ptr<FeatureTrack>& t = w.track[std::string("taoclb").find(op) != std::string::npos ? I(1) : 0];
    switch (op) {
      case 'K':
        (*w.n[I(1)]->getFrameShared(I(2))->getKeypointMeasurementsMutable()).col(I(3)) << I(4) / 4.0, I(5) / 4.0;
        j.i("n", I(1)).i("f", I(2)).i("i", I(3)).i("x", I(4)).i("y", I(5));
        break;
      case 'D':
        (*w.n[I(1)]->getFrameShared(I(2))->getDescriptorsMutable())(0, I(3)) = static_cast<unsigned char>(I(4));
        j.i("n", I(1)).i("f", I(2)).i("i", I(3)).i("v", I(4));
        break;
      case 'F': {
        VisualFrame::Ptr y(new VisualFrame);
        y->setId(w.fids.id(I(4)));
        y->setCameraGeometry(w.cams.at(I(2) + 1));
        Eigen::Matrix2Xd m(2, I(3));
        VisualFrame::DescriptorsT d(2, I(3));
        for (int i = 0; i < I(3); ++i) {
          m.col(i) << I(5) / 4.0 + i, 2 * i - I(5) / 4.0;
          d.col(i) << 100 + i, 7;
        }
        y->setKeypointMeasurements(m);
        y->setDescriptors(d);
        w.n[I(1)]->setFrame(I(2), y);
        j.i("n", I(1)).i("f", I(2)).i("num", I(3)).i("id", I(4)).i("x", I(5));
        break;
      }
      case 'N': w.n[I(1)]->setId(w.ids.id(I(2))); j.i("n", I(1)).i("id", I(2)); break;
      case 't':
        if (I(3)) t.reset(new FeatureTrack(I(2), I(3)));
        else t.reset(new FeatureTrack(I(2)));
        j.i("s", I(1)).i("id", I(2));
        break;
      case 'a':
        ok = seq::acceptedHere([&] { t->addKeypointObservationAtBack(w.n[I(2)], I(3), I(4)); });
        j.i("s", I(1)).i("n", I(2)).i("f", I(3)).i("i", I(4));
        break;
      case 'o': t->popLastKeypointIdentifier(); j.i("s", I(1)); break;
      case 'c': w.track[I(2)].reset(new FeatureTrack(*t)); j.i("s", I(1)).i("g", I(2)); break;
      case 'l': {
        const FeatureTrack &a = *t, &b = *w.track[I(2)];
        j.i("s", I(1)).i("g", I(2)).b("lt", a < b).b("gt", a > b);
        break;
      }
      case 'b': {
        double d = 0;
        ok = seq::acceptedHere([&] { d = t->getDiagonalSqOfDisparityBoundingBox(); });
        j.i("s", I(1)).i("d", ok ? quarters(4 * d) : 0);
        break;
      }
      case 'C': {
        bool lt = false, gt = false, kept = false;
        ok = seq::acceptedHere([&] {
          const KeypointIdentifier k = KeypointIdentifier::create(w.n[I(3)], I(4), I(5));
          const aslam::ContinuedFeatureTrack a(I(1), k), b(I(2), k);
          lt = a < b;
          gt = a > b;
          kept = a.track_id == I(1) && b.track_id == I(2) && w.show(a.keypoint_identifier) == w.show(k);
        });
        j.i("a", I(1)).i("b", I(2)).i("n", I(3)).i("f", I(4)).i("i", I(5)).b("lt", lt).b("gt", gt).b("kept", kept);
        break;
      }
    }
    j.b("ok", ok);
    if (ok) {
      std::vector<std::string> v;
      for (auto& x : w.track) v.push_back(w.show(x.get()));
      j.objs("now", v);
    }
    seq::emit(j);
    if (!ok) return;
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

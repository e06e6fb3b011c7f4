// Drives aslam::NCamera over rigs 0..2.  Tokens:
//   c:kind:par:w:dist:id  new camera (numbered from 1)     C:o:field:v  change a camera
//   n:r:id:cams:exts:cov  construct     D:r  default       G:r:n:kind  test rigs      R:r  random
//   s:r:i:o  set camera   t:r:i:T  T:r:i:T  U:r:id:T  set, write an extrinsic by index, by id
//   x:r:i  access by index  q:r:id  look up    k:r:g:how  copy   e:r:g  compare   v:r:c  covariance   w:r:f:v  id, topic, description
//   y:r:g:how  write, read    Y:g:k  read a malformed document
#include <aslam/cameras/random-camera-generator.h>

#include <sstream>
#include <unistd.h>

#include "camera_world.h"
#include "seq/probe.h"

namespace {
using aslam::NCamera;
using namespace world;
typedef std::vector<int> Ints;

struct World {
  Cameras cams;
  Ids<aslam::NCameraId> ids;
  Transformations ext;
  NCamera::Ptr r[3];

  std::string lookUp(NCamera& x, int id) {
    const aslam::CameraId c = cams.ids.id(id);
    int idx = kBad, T = kBad, Tm = kBad;
    bool has = false;
    const bool h = seq::acceptedHere([&] { has = x.hasCameraWithId(c); });
    const bool i = seq::acceptedHere([&] { idx = x.getCameraIndex(c); });
    const bool t = seq::acceptedHere([&] { T = ext.number(static_cast<const NCamera&>(x).get_T_C_B(c)); });
    const bool m = seq::acceptedHere([&] { Tm = ext.number(x.get_T_C_B_Mutable(c)); });
    return J().i("id", id).b("ok", h && i && h == i).b("has", has).i("idx", idx + 1).b("tok", t).i("T", t == m && T == Tm ? T : kBad).str();
  }
  std::string show(NCamera* x) {
    if (!x) return J().b("on", false).str();
    const NCamera& y = *x;
    Ints c, e;
    bool agree = y.getNumCameras() == y.numCameras() && y.getCameraVector().size() == y.numCameras() && y.getTransformationVector().size() == y.numCameras();
    for (size_t i = 0; agree && i < y.numCameras(); ++i) {
      const aslam::Camera::ConstPtr p = y.getCameraVector()[i];
      agree = p && p == y.getCameraShared(i) && p == x->getCameraShared(i) && p.get() == &y.getCamera(i) && p.get() == &x->getCameraMutable(i) &&
              y.getCameraId(i) == p->getId() && &y.get_T_C_B(i) == &y.getTransformationVector()[i] && &x->get_T_C_B_Mutable(i) == &y.getTransformationVector()[i];
      c.push_back(cams.number(p));
      e.push_back(ext.number(y.get_T_C_B(i)));
      cams.ids.number(p->getId());
    }
    aslam::TransformationCovariance v;
    v.setConstant(-1);
    const bool has = y.get_T_G_B_fixed_localization_covariance(&v);
    return J().b("on", true).i("id", ids.number(y.getId())).i("topic", ofText(y.getTopic())).i("desc", y.getDescription().size() > 9 ? 99 : ofText(y.getDescription()))
        .list("cams", c).list("ext", e).i("cov", has ? static_cast<int>(v(0, 0)) : 0)
        .b("agree", agree && has == y.has_T_G_B_fixed_localization_covariance() && (!has || v == v(0, 0) * aslam::TransformationCovariance::Identity()) &&
                        y.getSensorType() == aslam::kNCamera && y.isValid()).str();
  }
  void all(J* j) {
    std::vector<std::string> v, l;
    for (auto& x : r) v.push_back(show(x.get()));
    for (auto& x : r) {
      std::vector<std::string> k;
      if (x) {
        for (int id = 1; id < 7; ++id) k.push_back(lookUp(*x, id));
        for (size_t id = 0; id < cams.ids.order.size(); ++id) k.push_back(lookUp(*x, 100 + static_cast<int>(id)));
      }
      l.push_back(J().objs("l", k).str());
    }
    const std::string c = cams.show();
    j->raw("cams", c).objs("rigs", v).objs("look", l);
  }
};

const char* const kMalformed[] = {
  "cameras: ~", "cameras: []", "cameras: 3", "cameras: {a: 1}", "cameras: [3]", "cameras: [~]", "cameras: [{T_B_C: ~}]",
  "cameras: [{camera: {type: nosuch}}]", "cameras: [{camera: {type: pinhole, image_width: 640}}]",
  "cameras: [{camera: {type: pinhole, image_width: 640, image_height: 480, intrinsics: {rows: 4, cols: 1, data: [400, 300, 320, 240]}}}]", "{}",
  "cameras: [{camera: {type: pinhole, image_width: 640, image_height: 480, intrinsics: {rows: 4, cols: 1, data: [400, 300, 320, 240]}}, T_B_C: {rows: 4, cols: 4, data: [1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1]}}, {camera: 3}]",
  "cameras: [{camera: {type: pinhole, image_width: 640, image_height: 480, intrinsics: {rows: 4, cols: 1, data: [-1, 300, 320, 240]}}, T_B_C: {rows: 4, cols: 4, data: [1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1]}}]"};

void body(const std::string& line) {
  World w;
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> p;
    std::stringstream ss(tok + ":");
    for (std::string x; std::getline(ss, x, ':');) p.push_back(x);
    p.resize(8);
    auto I = [&](int k) { return p[k].empty() ? 0 : std::stoi(p[k]); };
    auto L = [&](int k) { Ints v; std::stringstream s(p[k]); for (std::string x; std::getline(s, x, ',');) v.push_back(std::stoi(x)); return v; };
    J j;
    bool ok = true;
    const char op = p[0][0];
    NCamera::Ptr& r = w.r[op == 'c' || op == 'C' ? 0 : I(1)];
    // A refused call is abandoned; the programs that make one end there.
    switch (op) {
      case 'c': {
        const aslam::Camera::Ptr c = makeCamera(I(1), I(2), I(3), I(4), w.cams.ids.id(I(5)));
        j.s("e", "cam").i("o", w.cams.number(c));
        break;
      }
      case 'C': {
        const aslam::Camera::Ptr c = w.cams.at(I(1));
        const std::string f = p[2];
        const int v = I(3);
        if (f == "delay") c->setLineDelayNanoSeconds(v);
        if (f == "comp") c->setCompressedImages(v);
        if (f == "mask") { if (v && c->hasMask()) const_cast<cv::Mat&>(c->getMask()).setTo(v); else if (v) c->setMask(cv::Mat(c->imageHeight(), c->imageWidth(), CV_8UC1, cv::Scalar(v))); else c->clearMask(); }
        if (f == "topic") c->setTopic(text("t", v));
        if (f == "desc") c->setDescription(text("d", v));
        if (f == "par") { const Eigen::VectorXd x = intrinsics(c->getType() == aslam::Camera::Type::kPinhole ? 0 : c->getType() == aslam::Camera::Type::kUnifiedProjection ? 1 : 2, v);
                          std::copy(x.data(), x.data() + x.size(), c->getParametersMutable()); }
        if (f == "dist") {
          aslam::Distortion::UniquePtr d(distortion(v));
          if (d->getType() == c->getDistortion().getType() && v) c->getDistortionMutable()->setParameters(d->getParameters());
          else if (v) c->setDistortion(d);
          else c->removeDistortion();
        }
        j.s("e", "change").i("o", I(1)).s("f", f).i("v", v);
        break;
      }
      case 'n': {
        std::vector<aslam::Camera::Ptr> cams;
        aslam::TransformationVector T;
        for (int o : L(3)) cams.push_back(w.cams.at(o));
        for (int k : L(4)) T.push_back(transformation(k));
        NCamera::Ptr made;
        ok = seq::acceptedHere([&] {
          if (I(5)) made.reset(new NCamera(w.ids.id(I(2)), T, aslam::TransformationCovariance(I(5) * aslam::TransformationCovariance::Identity()), cams, text("d", 1)));
          else made.reset(new NCamera(w.ids.id(I(2)), T, cams, text("d", 1)));
        });
        if (ok) r = made;
        j.s("e", "new").i("r", I(1)).i("id", I(2)).list("c", L(3)).list("T", L(4)).i("cov", I(5));
        break;
      }
      case 'D': r.reset(new NCamera); j.s("e", "default").i("r", I(1)); break;
      case 'G': r = I(3) == 0 ? aslam::createTestNCamera(I(2)) : aslam::createSurroundViewTestNCamera(); j.s("e", "made").i("r", I(1)).i("n", I(3) == 0 ? I(2) : 4); break;
      case 'R': r->setRandom(); j.s("e", "random").i("r", I(1)); break;
      case 's': ok = seq::acceptedHere([&] { r->setCamera(I(2), w.cams.at(I(3))); }); j.s("e", "setcam").i("r", I(1)).i("i", I(2) + 1).i("o", I(3)); break;
      case 't': case 'T':
        ok = seq::acceptedHere([&] { if (op == 't') r->set_T_C_B(I(2), transformation(I(3))); else r->get_T_C_B_Mutable(I(2)) = transformation(I(3)); });
        j.s("e", "setext").i("r", I(1)).i("i", I(2) + 1).i("T", I(3));
        break;
      case 'U':
        ok = seq::acceptedHere([&] { r->get_T_C_B_Mutable(w.cams.ids.id(I(2))) = transformation(I(3)); });
        j.s("e", "setextid").i("r", I(1)).i("id", I(2)).i("T", I(3));
        break;
      case 'x': {
        Ints a;
        const size_t i = I(2);
        const NCamera& y = *r;
        a.push_back(seq::acceptedHere([&] { y.get_T_C_B(i); }));
        a.push_back(seq::acceptedHere([&] { r->get_T_C_B_Mutable(i); }));
        a.push_back(seq::acceptedHere([&] { y.getCamera(i); }));
        a.push_back(seq::acceptedHere([&] { r->getCameraMutable(i); }));
        a.push_back(seq::acceptedHere([&] { r->getCameraShared(i); }));
        a.push_back(seq::acceptedHere([&] { y.getCameraShared(i); }));
        a.push_back(seq::acceptedHere([&] { y.getCameraId(i); }));
        j.s("e", "access").i("r", I(1)).i("i", I(2) + 1).list("a", a);
        break;
      }
      case 'q': j.s("e", "query").i("r", I(1)).raw("res", w.lookUp(*r, I(2))); break;
      case 'k': {
        NCamera::Ptr g;
        const int how = I(3);
        ok = seq::acceptedHere([&] {
          switch (how) {
            case 0: g.reset(r->clone()); break;
            case 1: g = r->cloneToShared(); break;
            case 2: g = std::dynamic_pointer_cast<NCamera>(r->cloneAsSensor()); break;
            case 3: g = aligned_shared<NCamera>(static_cast<const NCamera&>(*r)); break;
            case 4: g.reset(r->cloneWithNewIds()); break;
            case 5: g = r->cloneRigWithoutDistortion(); break;
          }
        });
        if (ok) w.r[I(2)] = g;
        j.s("e", "clone").i("r", I(1)).i("g", I(2)).i("how", how);
        break;
      }
      case 'e': {
        const NCamera &a = *r, &b = *w.r[I(2)];
        bool q = false, e = false, n = false;
        ok = seq::acceptedHere([&] { e = a == b; n = a != b; q = a.isEqual(b, false); });
        j.s("e", "equal").i("r", I(1)).i("g", I(2)).list("res", Ints{e, !n, q});
        break;
      }
      case 'v': r->set_T_G_B_fixed_localization_covariance(I(2) * aslam::TransformationCovariance::Identity()); j.s("e", "cov").i("r", I(1)).i("v", I(2)); break;
      case 'w': {
        if (p[2] == "id") ok = seq::acceptedHere([&] { r->setId(w.ids.id(I(3))); });
        if (p[2] == "topic") r->setTopic(text("t", I(3)));
        if (p[2] == "desc") r->setDescription(text("d", I(3)));
        j.s("e", "label").i("r", I(1)).s("f", p[2]).i("v", I(3));
        break;
      }
      case 'y': {
        bool read = false;
        ok = seq::acceptedHere([&] {
          YAML::Node n;
          r->serialize(&n);
          NCamera& g = *w.r[I(2)];
          if (I(3) == 1) n = YAML::Load(YAML::Dump(n));
          if (I(3) == 3) {
            // Mounted the other way round.
            for (auto c : n["cameras"]) {
              Eigen::Matrix4d T;
              if (!YAML::safeGet(c, "T_B_C", &T)) continue;
              const Eigen::Matrix4d inverse = T.inverse();
              c.remove("T_B_C");
              c["T_C_B"] = inverse;
            }
          }
          if (I(3) == 2) {
            const std::string file = "/tmp/vrig." + std::to_string(getpid()) + ".yaml";
            r->serializeToFile(file); read = g.deserializeFromFile(file);
            unlink(file.c_str());
          } else {
            read = g.deserialize(n);
          }
        });
        j.s("e", "yaml").i("r", I(1)).i("g", I(2)).b("read", read);
        break;
      }
      case 'Y': {
        bool read = true;
        YAML::Node n = YAML::Load(kMalformed[I(2)]);
        n["id"] = Ids<aslam::NCameraId>::text(9);
        n["topic"] = r->getTopic();
        n["description"] = r->getDescription();
        ok = seq::acceptedHere([&] { read = r->deserialize(n); });
        j.s("e", "garbage").i("r", I(1)).b("read", read);
        break;
      }
    }
    j.b("ok", ok);
    if (ok) w.all(&j);
    seq::emit(j);
    if (!ok) return;
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

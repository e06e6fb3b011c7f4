// Drives aslam::VisualFrame.  A program: tokens op:f:... over frames 0..2, values being comma separated integers.
//   s/w/x:f:c:vals[:default]      set, swap, extend a channel          m:f:c:i:v  write one entry
//   S/W:f:block:type:rows:vals    set, swap a descriptor block          X:f:type:rows:vals  extend
//   T:f:types  write the types    t:f:type  read by type                i:f  read all        M:f:type:i:v  write a track id by type
//   b:f:type:indices  directions  d:f  discard untracked  c:f  clear    k/K:f:g  assign, copy construct into g
//   e:f:g  compare   a:f:time:valid:id   g:f:cam:raw  cameras           z:f:g  serialise and read into g
//   r:f  release image   h:f:c  has   n:f:time:cam  new test frame
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/common/unique-id.h>
#include <aslam/frames/visual-frame.h>

#include <cmath>
#include <functional>
#include <memory>
#include <map>
#include <sstream>

#include "seq/probe.h"
#include "seq/seq.h"

#define COMMA ,
namespace {
using aslam::VisualFrame;
using seq::J;
typedef std::vector<int> Ints;
const int kBad = -999999;

template <int R> Eigen::Matrix<double, R, Eigen::Dynamic> columns(const Ints& v) {
  Eigen::Matrix<double, R, Eigen::Dynamic> m(R, v.size());
  for (size_t i = 0; i < v.size(); ++i) for (int r = 0; r < R; ++r) m(r, i) = v[i] + 1000 * r;
  return m;
}
Eigen::VectorXd doubles(const Ints& v) { Eigen::VectorXd m(v.size()); for (size_t i = 0; i < v.size(); ++i) m(i) = v[i] + 0.25; return m; }
Eigen::VectorXi integers(const Ints& v) { Eigen::VectorXi m(v.size()); for (size_t i = 0; i < v.size(); ++i) m(i) = v[i]; return m; }
cv::Mat image(const Ints& v) { cv::Mat m(1, v.size(), CV_8UC1); for (size_t i = 0; i < v.size(); ++i) m.at<uchar>(0, i) = v[i]; return m; }
VisualFrame::DescriptorsT block(int rows, const Ints& v) {
  VisualFrame::DescriptorsT m(rows, v.size());
  for (size_t i = 0; i < v.size(); ++i) for (int r = 0; r < rows; ++r) m(r, i) = static_cast<unsigned char>(v[i] + 7 * r);
  return m;
}

// What was put in: the inverse of the above.
int value(double x) { return x == std::floor(x) + 0.25 ? static_cast<int>(std::floor(x)) : x == std::floor(x) ? static_cast<int>(x) + 100000 : kBad; }
template <typename C> int column(const C& c) {
  const int v = static_cast<int>(c(0));
  for (int r = 0; r < c.rows(); ++r) if (c(r) != v + 1000.0 * r) return c(0) == c(r) ? v + 100000 : kBad;
  return v;
}
int bytes(const unsigned char* p, int rows) {
  for (int r = 0; r < rows; ++r) if (p[r] != static_cast<unsigned char>(p[0] + 7 * r)) return kBad;
  return p[0];
}
template <typename M> Ints ofColumns(const M& m) { Ints v; for (int i = 0; i < m.cols(); ++i) v.push_back(column(m.col(i))); return v; }
template <typename M> Ints ofDoubles(const M& m) { Ints v; for (int i = 0; i < m.size(); ++i) v.push_back(value(m(i))); return v; }
template <typename M> Ints ofInts(const M& m) { Ints v; for (int i = 0; i < m.size(); ++i) v.push_back(m(i)); return v; }
Ints ofImage(const cv::Mat& m) { Ints v; for (int i = 0; i < m.cols; ++i) v.push_back(m.rows == 1 ? m.at<uchar>(0, i) : kBad); return v; }
std::string blockJson(const VisualFrame::DescriptorsT& d) {
  Ints v;
  for (int i = 0; i < d.cols(); ++i) v.push_back(d.rows() ? bytes(d.data() + i * d.rows(), d.rows()) : 0);
  return J().i("r", d.rows()).list("v", v).str();
}

// One entry each, and the whole, must agree.
Ints agree(Ints v, const std::function<int(size_t)>& at) { for (size_t i = 0; i < v.size(); ++i) if (at(i) != v[i]) v[i] = kBad; return v; }

struct Channel {
  std::function<bool(const VisualFrame&)> has;
  std::function<Ints(const VisualFrame&)> get;                       // whole, compared with entry by entry
  std::function<void(VisualFrame*, const Ints&)> set;
  std::function<Ints(VisualFrame*, const Ints&)> swap;
  std::function<void(VisualFrame*, const Ints&, int)> extend;        // null where there is none
  std::function<void(VisualFrame*, int, int)> write;
  std::function<Ints(const VisualFrame&, int)> ofType;               // null where there is none
};
#define PER_KEYPOINT(NAME, SINGLE, MAKE, OF, ONE, DEFAULT) Channel{ \
  [](const VisualFrame& f) { return f.has##NAME(); }, \
  [](const VisualFrame& f) { return agree(OF(f.get##NAME()), [&](size_t i) { return ONE(f.get##SINGLE(i)); }); }, \
  [](VisualFrame* f, const Ints& v) { f->set##NAME(MAKE(v)); }, \
  [](VisualFrame* f, const Ints& v) { auto m = MAKE(v); f->swap##NAME(&m); return OF(m); }, \
  [](VisualFrame* f, const Ints& v, int d) { (void)d; f->extend##NAME(MAKE(v) DEFAULT); }, \
  [](VisualFrame* f, int i, int v) { auto m = MAKE(Ints{v}); auto* all = f->get##NAME##Mutable(); WRITE(all, i, m); }, \
  [](const VisualFrame& f, int t) { \
    return agree(OF(f.get##NAME##OfType(t)), [&](size_t i) { return ONE(f.get##SINGLE##OfType(i, t)); }); }}
#define WRITE(ALL, I, M) put(ALL, I, M)
template <typename M, typename N> void put(M* all, int i, const N& m) { if (all->cols() == 1 && m.rows() == 1) (*all)(i) = m(0); else all->col(i) = m.col(0); }
template <> void put(Eigen::VectorXd* all, int i, const Eigen::VectorXd& m) { (*all)(i) = m(0); }
template <> void put(Eigen::VectorXi* all, int i, const Eigen::VectorXi& m) { (*all)(i) = m(0); }
template <typename C> int col1(const C& c) { return column(c); }
int same(int x) { return x; }

const std::map<std::string, Channel>& channels() {
  static const std::map<std::string, Channel> all{
      {"meas", PER_KEYPOINT(KeypointMeasurements, KeypointMeasurement, columns<2>, ofColumns, column, )},
      {"unc", PER_KEYPOINT(KeypointMeasurementUncertainties, KeypointMeasurementUncertainty, doubles, ofDoubles, value, COMMA d + 0.25)},
      {"ori", PER_KEYPOINT(KeypointOrientations, KeypointOrientation, doubles, ofDoubles, value, COMMA d + 0.25)},
      {"score", PER_KEYPOINT(KeypointScores, KeypointScore, doubles, ofDoubles, value, COMMA d + 0.25)},
      {"scale", PER_KEYPOINT(KeypointScales, KeypointScale, doubles, ofDoubles, value, COMMA d + 0.25)},
      {"pos", PER_KEYPOINT(Keypoint3DPositions, Keypoint3DPosition, columns<3>, ofColumns, column, COMMA d)},
      {"toff", PER_KEYPOINT(KeypointTimeOffsets, KeypointTimeOffset, integers, ofInts, same, COMMA d)},
      {"track", PER_KEYPOINT(TrackIds, TrackId, integers, ofInts, same, COMMA d)},
      {"img", Channel{[](const VisualFrame& f) { return f.hasRawImage(); }, [](const VisualFrame& f) { return ofImage(f.getRawImage()); },
                      [](VisualFrame* f, const Ints& v) { f->setRawImage(image(v)); },
                      [](VisualFrame* f, const Ints& v) {
                        const Ints old = f->hasRawImage() ? ofImage(f->getRawImage()) : Ints();
                        if (!f->hasRawImage()) f->setRawImage(image(v)); else *f->getRawImageMutable() = image(v);
                        return old; },
                      nullptr,
                      [](VisualFrame* f, int i, int v) { cv::Mat m = f->getRawImageMutable()->clone(); if (i >= m.cols) LOG(FATAL); m.at<uchar>(0, i) = v; f->setRawImage(m); },
                      nullptr}},
      {"free", Channel{[](const VisualFrame& f) { return f.hasChannel("free"); },
                       [](const VisualFrame& f) { return ofInts(f.getChannelData<Eigen::VectorXi>("free")); },
                       [](VisualFrame* f, const Ints& v) { f->setChannelData<Eigen::VectorXi>("free", integers(v)); },
                       [](VisualFrame* f, const Ints& v) { Eigen::VectorXi m = integers(v); f->swapChannelData<Eigen::VectorXi>("free", &m); return ofInts(m); },
                       nullptr, [](VisualFrame* f, int i, int v) { (*f->getChannelDataMutable<Eigen::VectorXi>("free"))(i) = v; }, nullptr}}};
  return all;
}

struct World {
  std::unique_ptr<VisualFrame> f[3];
  aslam::Camera::ConstPtr cam[4];
  World() {
    for (auto& x : f) { x.reset(new VisualFrame); x->setTimestampNanoseconds(0); }
    aslam::Camera::Ptr c[3];
    for (int i = 0; i < 2; ++i) {
      c[i].reset(new aslam::PinholeCamera(300.0 + i, 301.0, 160.0, 120.0, 320, 240));
      aslam::CameraId id;
      generateId(&id);
      c[i]->setId(id);
    }
    c[2].reset(c[0]->clone());
    for (int i = 0; i < 3; ++i) cam[i + 1] = c[i];
  }
  int which(const aslam::Camera::ConstPtr& c) const { for (int i = 0; i < 4; ++i) if (cam[i] == c) return i; return kBad; }
  // Identifiers given by the program are small numbers; generated ones are not.
  static int number(const aslam::FrameId& id) {
    if (!id.isValid()) return 0;
    const std::string h = id.hexString();
    if (h.substr(0, 26) != std::string(26, '0')) return 1000000 + static_cast<int>(std::hash<std::string>()(h) % 1000000000);
    return static_cast<int>(std::stol(h.substr(26), nullptr, 16));
  }
  std::string show(const VisualFrame& x) const {
    std::vector<std::string> ch, blk;
    for (const auto& c : channels()) if (c.second.has(x)) ch.push_back(J().s("n", c.first).list("v", c.second.get(x)).str());
    const bool on = x.hasDescriptors(), typed = x.hasChannel("DESCRIPTOR_TYPES");
    if (on) {
      const auto& all = x.getChannelData<std::vector<VisualFrame::DescriptorsT>>("DESCRIPTORS");
      for (size_t i = 0; i < all.size(); ++i) blk.push_back(blockJson(x.getDescriptors(i)));
    }
    return J().objs("ch", ch).b("on", on).objs("blk", blk).b("typed", typed)
        .list("typ", typed ? ofInts(x.getDescriptorTypes()) : Ints())
        .raw("at", J().i("time", x.getTimestampNanoseconds()).b("valid", x.isValid()).i("id", number(x.getId())).str())
        .i("cam", which(x.getCameraGeometry())).i("raw", which(x.getRawCameraGeometry())).str();
  }
};

// Where the call is refused on a copy (which keeps the locks it took) it is not made.
bool tried(VisualFrame* f, const std::function<void(VisualFrame*)>& call) {
  VisualFrame* copy = new VisualFrame(*f);
  if (!seq::acceptedHere([&] { call(copy); })) return false;
  delete copy;
  call(f);
  return true;
}

void body(const std::string& line) {
  World w;
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> p;
    std::stringstream ss(tok + ":");
    for (std::string x; std::getline(ss, x, ':');) p.push_back(x);
    p.resize(8);
    auto I = [&](int k) { return p[k].empty() ? 0 : std::stoi(p[k]); };
    auto L = [&](int k) { Ints v; std::stringstream s(p[k]); for (std::string x; std::getline(s, x, ',');) v.push_back(std::stoi(x)); return v; };
    const int fi = I(1);
    std::unique_ptr<VisualFrame>& f = w.f[fi];
    J j;
    bool ok = true;
    j.i("f", fi);
    const char op = p[0][0];
    switch (op) {
      case 's': case 'w': case 'x': {
        const Channel& c = channels().at(p[2]);
        const Ints v = L(3);
        Ints old;
        j.s("e", op == 's' ? "set" : op == 'w' ? "swap" : "ext").s("c", p[2]).list("v", v);
        if (op == 's') ok = tried(f.get(), [&](VisualFrame* f) { c.set(f, v); });
        if (op == 'w') { ok = tried(f.get(), [&](VisualFrame* f) { old = c.swap(f, v); }); j.list("old", old); }
        if (op == 'x') { ok = tried(f.get(), [&](VisualFrame* f) { c.extend(f, v, I(4)); }); j.i("d", p[2] == "pos" ? I(4) + 100000 : I(4)); }
        break;
      }
      case 'm': {
        ok = tried(f.get(), [&](VisualFrame* f) { channels().at(p[2]).write(f, I(3), I(4)); });
        j.s("e", "write").s("c", p[2]).i("i", I(3) + 1).i("v", I(4));
        break;
      }
      case 'S': case 'W': {
        VisualFrame::DescriptorsT m = block(I(4), L(5)), n;
        j.s("e", op == 'S' ? "place" : "swapb").i("k", I(2) + 1).i("ty", I(3)).raw("b", blockJson(m));
        int old = 0;
        if (op == 'S') ok = tried(f.get(), [&](VisualFrame* f) {
          if (I(6)) f->setDescriptors(Eigen::Map<const VisualFrame::DescriptorsT>(m.data(), m.rows(), m.cols()), I(2), I(3));
          else f->setDescriptors(m, I(2), I(3));
        });
        else ok = tried(f.get(), [&](VisualFrame* f) { n = m; old = f->swapDescriptors(&n, I(2), I(3)); });
        if (op == 'W') j.raw("old", blockJson(n)).i("oty", old);
        break;
      }
      case 'X': {
        VisualFrame::DescriptorsT m = block(I(3), L(4));
        j.s("e", "extb").i("ty", I(2)).raw("b", blockJson(m));
        ok = tried(f.get(), [&](VisualFrame* f) {
          if (I(5)) f->extendDescriptors(Eigen::Map<const VisualFrame::DescriptorsT>(m.data(), m.rows(), m.cols()), I(2));
          else f->extendDescriptors(m, I(2));
        });
        break;
      }
      case 'T': {
        j.s("e", "retype").list("v", L(2));
        ok = tried(f.get(), [&](VisualFrame* f) { f->setDescriptorTypes(integers(L(2))); });
        break;
      }
      case 't': {
        const int t = I(2);
        std::vector<std::string> ch;
        for (const auto& c : channels()) {
          if (!c.second.ofType) continue;
          Ints v;
          const bool fine = tried(f.get(), [&](VisualFrame* f) { v = c.second.ofType(*f, t); });
          ch.push_back(J().s("n", c.first).b("ok", fine).list("v", v).str());
        }
        const bool has = f->hasDescriptorType(t);
        size_t num = 777, blk = 0, start = 777, size = 777;
        std::string desc = "{\"r\":0,\"v\":[]}";
        if (!tried(f.get(), [&](VisualFrame* f) { num = f->getNumKeypointMeasurementsOfType(t); })) num = 888;
        if (!tried(f.get(), [&](VisualFrame* f) { blk = f->getDescriptorTypeBlock(t) + 1; })) blk = 0;
        if (has) {
          if (!tried(f.get(), [&](VisualFrame* f) { f->getDescriptorBlockTypeStartAndSize(t, &start, &size); })) start = 888;
          tried(f.get(), [&](VisualFrame* f) {
            desc = blockJson(f->getDescriptorsOfType(t));
            if (f->getDescriptorTypeSizeBytes(t) != static_cast<size_t>(f->getDescriptorsOfType(t).rows()) ||
                f->getDescriptorSizeBytes(blk - 1) != f->getDescriptorTypeSizeBytes(t) || f->getDescriptorBlockType(blk - 1) != t)
              desc = "{\"r\":-1,\"v\":[]}";
          });
        }
        j.s("e", "type").i("ty", t).raw("res", J().b("has", has).i("num", num).i("block", blk).i("start", start).i("size", size)
                                                   .raw("desc", desc).objs("ch", ch).str());
        break;
      }
      case 'i': {
        const size_t n = f->getNumDescriptors();
        Ints d, t;
        const bool typed = f->hasChannel("DESCRIPTOR_TYPES");
        size_t rows = 0, b = 0, left = 0;
        for (size_t i = 0; i < n; ++i) {
          while (!left) { left = f->getDescriptors(b).cols(); rows = f->getDescriptors(b).rows(); ++b; }
          --left;
          int v = kBad, ty = kBad;
          tried(f.get(), [&](VisualFrame* f) { v = bytes(f->getDescriptor(i), rows); });
          d.push_back(v);
          if (typed) { tried(f.get(), [&](VisualFrame* f) { ty = f->getDescriptorType(i); }); t.push_back(ty); }
        }
        const bool past = f->hasDescriptors() && tried(f.get(), [&](VisualFrame* f) { f->getDescriptor(n); });
        j.s("e", "index").raw("res", J().i("num", n).list("desc", d).list("types", t).b("past", past).str());
        break;
      }
      case 'M': {
        j.s("e", "writet").i("ty", I(2)).i("i", I(3) + 1).i("v", I(4));
        ok = tried(f.get(), [&](VisualFrame* f) { f->getTrackIdsOfTypeMutable(I(2))(I(3)) = I(4); });
        break;
      }
      case 'b': {
        std::vector<size_t> ks;
        for (int x : L(3)) ks.push_back(x);
        std::vector<unsigned char> good(3, 7);
        Eigen::Matrix3Xd r;
        Ints res;
        ok = tried(f.get(), [&](VisualFrame* f) { r = f->getNormalizedBearingVectors(ks, I(2), &good); });
        if (ok) {
          if (good.size() != ks.size()) res.push_back(kBad);
          const aslam::Camera::ConstPtr cam = f->getCameraGeometry();
          for (int i = 0; i < r.cols(); ++i) {
            int v = kBad;
            for (int k = 0; k < static_cast<int>(f->getNumKeypointMeasurements()); ++k) {
              Eigen::Vector3d x;
              const bool can = cam->backProject3(f->getKeypointMeasurement(k), &x);
              if (i < static_cast<int>(good.size()) && can == static_cast<bool>(good[i]) && (x.normalized() - r.col(i)).norm() < 1e-12) v = column(f->getKeypointMeasurement(k));
            }
            res.push_back(v);
          }
        }
        j.s("e", "dirs").i("ty", I(2)).list("i", L(3)).list("res", res);
        break;
      }
      case 'd': {
        std::vector<size_t> gone(2, 99);
        ok = tried(f.get(), [&](VisualFrame* f) { f->discardUntrackedObservations(&gone); });
        j.s("e", "discard").list("res", gone);
        break;
      }
      case 'c': ok = tried(f.get(), [&](VisualFrame* f) { f->clearKeypointChannels(); }); j.s("e", "clear"); break;
      case 'k': *w.f[I(2)] = *f; j.s("e", "copy").i("g", I(2)); break;
      case 'K': w.f[I(2)].reset(new VisualFrame(*f)); j.s("e", "copy").i("g", I(2)); break;
      case 'e': {
        j.s("e", "equal").i("g", I(2)).b("res", *f == *w.f[I(2)]).b("nocam", f->compareWithoutCameraGeometry(*w.f[I(2)]));
        break;
      }
      case 'a': {
        f->setTimestampNanoseconds(I(2));
        if (I(3) == 0) f->invalidate(); else if (I(3) == 1) f->validate(); else f->setValid(I(3) == 2);
        aslam::FrameId id;
        char hex[40];
        snprintf(hex, sizeof hex, "%032x", I(4));
        if (I(4)) id.fromHexString(hex);
        f->setId(id);
        j.s("e", "attr").raw("v", J().i("time", I(2)).b("valid", I(3) == 1 || I(3) == 2).i("id", I(4)).str());
        break;
      }
      case 'g': f->setCameraGeometry(w.cam[I(2)]); f->setRawCameraGeometry(w.cam[I(3)]); j.s("e", "cams").i("v", I(2)).i("w", I(3)); break;
      case 'z': {
        std::string s = "left over";
        ok = tried(f.get(), [&](VisualFrame* f) { f->serializeDescriptorsToString(&s); }) &&
             tried(w.f[I(2)].get(), [&](VisualFrame* g) { g->deserializeDescriptorsFromString(s); });
        j.s("e", "move").i("g", I(2));
        break;
      }
      case 'r': ok = tried(f.get(), [&](VisualFrame* f) { f->releaseRawImage(); }); j.s("e", "drop").s("c", "img"); break;
      case 'h': j.s("e", "has").s("c", p[2]).b("res", channels().at(p[2]).has(*f)); break;
      case 'n': {
        w.f[fi].reset();
        auto made = VisualFrame::createEmptyTestVisualFrame(w.cam[I(3)], I(2));
        w.f[fi].reset(new VisualFrame(*made));
        j.s("e", "new").i("v", I(2)).i("cam", I(3));
        break;
      }
    }
    j.b("ok", ok);
    if (ok) j.raw("all", "[" + w.show(*w.f[0]) + "," + w.show(*w.f[1]) + "," + w.show(*w.f[2]) + "]");
    seq::emit(j);
    if (!ok) return;
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

// Cameras, identifiers and transformations as small numbers.
#ifndef VERIF_CAMERA_WORLD_H_
#define VERIF_CAMERA_WORLD_H_
#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/common/unique-id.h>

#include <map>
#include <memory>
#include <vector>

#include "seq/seq.h"

namespace world {
using seq::J;
const int kBad = -999999;

// Identifiers given by the program are small numbers; others are numbered from 100 as they turn up.
template <typename Id> struct Ids {
  std::map<std::string, int> seen;
  std::vector<std::string> order;
  static std::string text(int n) { char h[40]; snprintf(h, sizeof h, "%032x", n); return h; }
  Id id(int n) const {
    Id id;
    if (n >= 100) id.fromHexString(order.at(n - 100));
    else if (n) id.fromHexString(text(n));
    return id;
  }
  int number(const Id& id) {
    if (!id.isValid()) return 0;
    const std::string h = id.hexString();
    if (h.substr(0, 30) == std::string(30, '0')) return static_cast<int>(std::stol(h.substr(26), nullptr, 16));
    auto x = seen.emplace(h, 100 + static_cast<int>(order.size()));
    if (x.second) order.push_back(h);
    return x.first->second;
  }
};

// Number k < 20: close to one another in one respect each.
inline aslam::Transformation transformation(int k) {
  static const double t[][3] = {{0, 0, 0}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 0, -1}, {1, 2, 3}, {1, 2, 3.0001}, {1, 2, 2.9999}, {5, 5, 5}};
  aslam::Quaternion q;
  if (k >= 10) q = k < 14 ? aslam::Quaternion(0.5, 0.5, -0.5, 0.5) : aslam::Quaternion(0.5, -0.5, 0.5, 0.5);
  return aslam::Transformation(q, aslam::Position3D(t[k % 10][0], t[k % 10][1], t[k % 10][2]));
}
struct Transformations {
  std::vector<aslam::Transformation> other;
  static bool like(const aslam::Transformation& a, const aslam::Transformation& b) {
    return (a.getTransformationMatrix() - b.getTransformationMatrix()).cwiseAbs().maxCoeff() < 1e-7;
  }
  int number(const aslam::Transformation& T) {
    for (int k = 0; k < 20; ++k) if (like(T, transformation(k))) return k;
    for (size_t k = 0; k < other.size(); ++k) if (like(T, other[k])) return 100 + static_cast<int>(k);
    other.push_back(T);
    return 99 + static_cast<int>(other.size());
  }
  aslam::Transformation of(int n) const { return n < 100 ? transformation(n) : other.at(n - 100); }
};

inline Eigen::VectorXd intrinsics(int kind, int variant) {
  Eigen::VectorXd v(kind == 1 ? 5 : 4);
  if (kind == 0) v << 400, 300, 320, 240;
  if (kind == 1) v << 0.9, 400, 300, 320, 240;
  if (kind == 2) v << 0.01, 0.02, 0.5, 0.25;
  if (variant > 0 && variant <= v.size()) v(variant - 1) += kind == 2 ? 0.005 : 0.05;
  return v;
}
inline aslam::Distortion* distortion(int k) {
  Eigen::VectorXd v(4);
  v << -0.3, 0.15, 0.0005, 0.001;
  if (k == 2) v(3) = 0.0011;
  if (k == 3) v(0) = 0.3;
  switch (k) {
    case 0: return new aslam::NullDistortion;
    case 1: case 2: case 3: return new aslam::RadTanDistortion(v);
    case 4: return new aslam::EquidistantDistortion(v);
    case 5: case 6: { Eigen::VectorXd w(1); w << (k == 5 ? 0.9 : 0.8); return new aslam::FisheyeDistortion(w); }
  }
  return nullptr;
}
inline int width(int w) { return w == 1 ? 641 : 640; }
inline int height(int w) { return w == 2 ? 481 : 480; }
inline std::string text(const char* c, int n) { return n ? c + std::to_string(n) : ""; }
inline int ofText(const std::string& s) { return s.empty() ? 0 : std::stoi(s.substr(1)); }

inline aslam::Camera::Ptr makeCamera(int kind, int par, int w, int dist, const aslam::CameraId& id) {
  aslam::Camera::Ptr c;
  aslam::Distortion::UniquePtr d(distortion(dist));
  if (kind == 0) c.reset(new aslam::PinholeCamera(intrinsics(0, par), width(w), height(w), d));
  if (kind == 1) c.reset(new aslam::UnifiedProjectionCamera(intrinsics(1, par), width(w), height(w), d));
  if (kind == 2) { c.reset(new aslam::Camera3DLidar(intrinsics(2, par), width(w), height(w))); c->setDistortion(d); }
  c->setId(id);
  return c;
}
// Distortions of one kind differ in parameters only; others are told from their type.
inline int numberOf(const aslam::Distortion& d) {
  for (int k = 0; k < 7; ++k) {
    std::unique_ptr<aslam::Distortion> x(distortion(k));
    if (x->getType() == d.getType() && x->getParameters().size() == d.getParameters().size() && x->getParameters() == d.getParameters()) return k;
  }
  return kBad;
}

struct Cameras {
  Ids<aslam::CameraId> ids;
  std::vector<aslam::Camera::ConstPtr> all;   // kept, so that addresses are not used again
  int number(const aslam::Camera::ConstPtr& c) {
    if (!c) return 0;
    for (size_t i = 0; i < all.size(); ++i) if (all[i] == c) return static_cast<int>(i) + 1;
    all.push_back(c);
    return static_cast<int>(all.size());
  }
  aslam::Camera::Ptr at(int o) const { return o ? std::const_pointer_cast<aslam::Camera>(all.at(o - 1)) : nullptr; }
  std::string show(const aslam::Camera& c) {
    const int kind = c.getType() == aslam::Camera::Type::kPinhole ? 0 : c.getType() == aslam::Camera::Type::kUnifiedProjection ? 1 : 2;
    int par = kBad, w = kBad;
    for (int p = 0; p < 6; ++p) if (par == kBad && c.getParameters().size() == intrinsics(kind, p).size() && (c.getParameters() - intrinsics(kind, p)).norm() < 1e-9) par = p;
    for (int k = 0; k < 3; ++k) if (static_cast<int>(c.imageWidth()) == width(k) && static_cast<int>(c.imageHeight()) == height(k)) w = k;
    return J().i("id", ids.number(c.getId())).i("kind", kind).i("par", par).i("w", w).i("dist", numberOf(c.getDistortion()))
        .i("delay", c.getLineDelayNanoSeconds()).i("comp", c.hasCompressedImages()).i("mask", c.hasMask() ? c.getMask().at<uchar>(0, 0) : 0)
        .i("topic", ofText(c.getTopic())).i("desc", ofText(c.getDescription())).str();
  }
  std::string show() {
    std::vector<std::string> v;
    for (size_t i = 0; i < all.size(); ++i) v.push_back(show(*all[i]));
    return "[" + [&] { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r; }() + "]";
  }
};
}  // namespace world
#endif

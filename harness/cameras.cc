// Drives cameras as objects.  Numbers of calibrations are eighths, of keypoints quarters; delays have two digits to base 10^6.  Slots 0..2.
//   n:s:kind:intrinsics:w:h:dist:coefficients:id:how   new camera (how: 0 constructor, 1 from numbers, 2 factory, 3 construct<>)
//   c:s:g copy    e:s:g equal    a:s:field:value[:value]    p:s:intrinsics    P:s:i:value    d:s:dist:coef    D:s:coef    Q:s:i:value    x:s no distortion
//   m:s:w:h:type:bits mask    M:s:x:y:v change the mask in place    k:s no mask    q:s:x:y:margin questions    r:s random
//   y:s:g:how:edit     write, edit the document, read (how: 0 as a new camera, 1 into g, 2 by text as new, 3 by file into g)
#include <aslam/cameras/camera-factory.h>
#include <unistd.h>

#include <fstream>

#include "camera_world.h"
#include "seq/probe.h"

using namespace aslam;
using seq::J;
typedef Eigen::VectorXd VX;

namespace {
const int kBad = -999999, kSlots = 3;
std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r;
  std::stringstream ss(s);
  for (std::string x; std::getline(ss, x, c);) r.push_back(x);
  return r;
}
std::vector<int> ints(const std::string& s) { std::vector<int> r; for (const auto& x : split(s, ',')) r.push_back(std::stoi(x)); return r; }
VX vec(const std::vector<int>& v) { VX r(v.size()); for (size_t i = 0; i < v.size(); ++i) r(i) = v[i] / 8.0; return r; }
int eighths(double v) { return v * 8 == std::floor(v * 8) && std::abs(v) < 1e6 ? static_cast<int>(v * 8) : kBad; }
std::vector<int> eighths(const VX& v) { std::vector<int> r; for (int i = 0; i < v.size(); ++i) r.push_back(eighths(v(i))); return r; }
const long long kBase = 1000000;
std::vector<int> digits(long long v) {
  long long hi = v / kBase, lo = v % kBase;
  if (lo < 0) lo += kBase, --hi;
  return {std::abs(hi) < 2000000000 ? static_cast<int>(hi) : kBad, static_cast<int>(lo)};
}
std::unique_ptr<Distortion> distortionOf(int kind, const VX& c) {
  switch (kind) {
    case 1: return std::unique_ptr<Distortion>(new RadTanDistortion(c));
    case 2: return std::unique_ptr<Distortion>(new EquidistantDistortion(c));
    case 3: return std::unique_ptr<Distortion>(new FisheyeDistortion(c));
  }
  return std::unique_ptr<Distortion>(new NullDistortion);
}
int kindOf(const Camera& c) { return dynamic_cast<const PinholeCamera*>(&c) ? 0 : dynamic_cast<const UnifiedProjectionCamera*>(&c) ? 1 : 2; }
int kindOf(const Distortion& d) {
  if (dynamic_cast<const RadTanDistortion*>(&d)) return 1;
  if (dynamic_cast<const EquidistantDistortion*>(&d)) return 2;
  if (dynamic_cast<const FisheyeDistortion*>(&d)) return 3;
  return dynamic_cast<const NullDistortion*>(&d) ? 0 : kBad;
}
template <typename C> typename C::Ptr constructed(const VX& i, int w, int h, int dist, const VX& c) {
  switch (dist) {
    case 1: return Camera::construct<C, RadTanDistortion>(i, w, h, c);
    case 2: return Camera::construct<C, EquidistantDistortion>(i, w, h, c);
    case 3: return Camera::construct<C, FisheyeDistortion>(i, w, h, c);
  }
  return typename C::Ptr(new C(i, w, h));
}

Camera::Ptr cam[kSlots];
world::Ids<CameraId> ids;

Camera::Ptr make(int kind, const VX& i, int w, int h, int dist, const VX& c, const CameraId& id, int how) {
  Camera::Ptr r;
  if (how == 2) {
    static const Distortion::Type dt[] = {Distortion::Type::kNoDistortion, Distortion::Type::kRadTan, Distortion::Type::kEquidistant, Distortion::Type::kFisheye};
    return createCamera(id, i, w, h, c, static_cast<Camera::Type>(kind), dt[dist]);
  }
  if (how == 3 && kind != 2) {
    if (kind == 0) r = constructed<PinholeCamera>(i, w, h, dist, c);
    if (kind == 1) r = constructed<UnifiedProjectionCamera>(i, w, h, dist, c);
  } else {
    Distortion::UniquePtr d(distortionOf(dist, c).release());
    if (kind == 0 && how == 1) {
      r.reset(dist ? new PinholeCamera(i(0), i(1), i(2), i(3), w, h, d) : new PinholeCamera(i(0), i(1), i(2), i(3), w, h));
    } else if (kind == 1 && how == 1) {
      r.reset(dist ? new UnifiedProjectionCamera(i(0), i(1), i(2), i(3), i(4), w, h, d) : new UnifiedProjectionCamera(i(0), i(1), i(2), i(3), i(4), w, h));
    } else if (kind == 0) {
      r.reset(dist ? new PinholeCamera(i, w, h, d) : new PinholeCamera(i, w, h));
    } else if (kind == 1) {
      r.reset(dist ? new UnifiedProjectionCamera(i, w, h, d) : new UnifiedProjectionCamera(i, w, h));
    } else {
      r.reset(new Camera3DLidar(i, w, h));
      if (dist) r->setDistortion(d);
    }
  }
  if (id.isValid()) r->setId(id);
  return r;
}

// The document, changed.
void edit(const std::string& e, YAML::Node* n) {
  YAML::Node d;
  auto params = [&](std::vector<double> v) { d["parameters"] = VX(Eigen::Map<VX>(v.data(), v.size())); };
  auto drop = [&](const char* k) { n->remove(k); };
  if (e == "noid") drop("id");
  if (e == "notype") drop("type");
  if (e == "badtype") (*n)["type"] = "fish";
  if (e == "nowidth") drop("image_width");
  if (e == "noheight") drop("image_height");
  if (e == "badheight") (*n)["image_height"] = "tall";
  if (e == "nointr") drop("intrinsics");
  if (e == "badintr") (*n)["intrinsics"] = "wide";
  if (e == "shortintr") { VX v = (*n)["intrinsics"].as<VX>(); (*n)["intrinsics"] = VX(v.head(v.size() - 1)); }
  if (e == "longintr") { VX v = (*n)["intrinsics"].as<VX>(); VX u(v.size() + 1); u << v, 1; (*n)["intrinsics"] = u; }
  if (e == "zerointr") { VX v = (*n)["intrinsics"].as<VX>(); v(1) = 0; (*n)["intrinsics"] = v; }
  if (e == "nodelay") drop("line-delay-nanoseconds");
  if (e == "baddelay") (*n)["line-delay-nanoseconds"] = "late";
  if (e == "nocomp") drop("compressed");
  if (e == "badcomp") (*n)["compressed"] = "perhaps";
  if (e == "nodist") drop("distortion");
  if (e == "nulldist") (*n)["distortion"] = YAML::Node(YAML::NodeType::Null);
  if (e == "textdist") (*n)["distortion"] = "some";
  if (e == "extra") (*n)["extra"] = "more";
  if (e == "notopic") drop("topic");
  if (e == "distnotype") params({0, 0, 0, 0});
  if (e == "distbadtype") d["type"] = "barrel", params({0, 0, 0, 0});
  if (e == "distnoparams") d["type"] = "fisheye";
  if (e == "distnone") d["type"] = "none", params({1, 2});
  if (e == "distshort") d["type"] = "radial-tangential", params({.5, .5, .5});
  if (e == "distlong") d["type"] = "equidistant", params({.5, .5, .5, .5, .5});
  if (e == "distfar") d["type"] = "fisheye", params({9});
  if (e == "distfish") d["type"] = "fisheye", params({1.25});
  if (e == "distradtan") d["type"] = "radial-tangential", params({.125, .25, .375, .5});
  if (e == "distequi") d["type"] = "equidistant", params({.125, .25, .375, .5});
  if (e.substr(0, 4) == "dist") (*n)["distortion"] = d;
}

std::string show(int s) {
  const Camera* c = cam[s].get();
  if (!c) return "{\"on\":false}";
  std::vector<std::string> rows;
  for (int y = 0; c->hasMask() && y < c->getMask().rows; ++y) {
    std::string r;
    for (int x = 0; x < c->getMask().cols; ++x) r += (x ? "," : "") + std::to_string(c->getMask().at<uchar>(y, x));
    rows.push_back("[" + r + "]");
  }
  std::stringstream name;
  name << c->getType();
  return J().b("on", true).i("id", ids.number(c->getId())).i("topic", world::ofText(c->getTopic())).i("desc", world::ofText(c->getDescription()))
      .i("kind", kindOf(*c)).list("intr", eighths(c->getParameters())).i("w", c->imageWidth()).i("h", c->imageHeight())
      .i("dist", kindOf(c->getDistortion())).list("coef", eighths(c->getDistortion().getParameters())).list("delay", digits(c->getLineDelayNanoSeconds()))
      .b("comp", c->hasCompressedImages()).objs("mask", rows)
      .raw("says", J().i("type", static_cast<int>(c->getType())).i("size", c->getParameterSize()).b("dist", c->hasDistortion())
          .i("dtype", static_cast<int>(c->getDistortion().getType())).i("dsize", c->getDistortion().getParameterSize()).b("mask", c->hasMask()).i("lines", c->getNumberOfLines())
          .b("rows", c->getLineDelayMode() == Camera::LineDelayMode::kRows).list("max", digits(c->maxRollingShutterDelayNanoSeconds()))
          .b("valid", c->isValid()).s("name", name.str()).s("sensor", c->getSensorTypeString()).i("stype", c->getSensorType()).str())
      .str();
}

void body(const std::string& line) {
  for (auto& c : cam) c.reset();
  std::stringstream in(line);
  for (std::string tok; in >> tok;) {
    const std::vector<std::string> p = split(tok, ':');
    const char op = p[0][0];
    auto I = [&](size_t k) { return k < p.size() ? std::atoi(p[k].c_str()) : 0; };
    auto V = [&](size_t k) { return k < p.size() ? ints(p[k]) : std::vector<int>(); };
    auto P = [&](size_t k) { return k < p.size() ? p[k] : std::string(); };
    const int s = I(1), g = I(2);
    if (op != 'n' && !cam[s]) continue;
    Camera* c = cam[s].get();
    bool ok = true;
    J j;
    j.s("e", std::string(1, op)).i("s", s);
    switch (op) {
      case 'n': {
        cam[s].reset();
        const int how = I(9);
        ok = seq::acceptedHere([&] { cam[s] = make(I(2), vec(V(3)), I(4), I(5), I(6), vec(V(7)), ids.id(I(8)), how); });
        j.i("kind", I(2)).list("intr", V(3)).i("w", I(4)).i("h", I(5)).i("dist", I(6)).list("coef", V(7)).i("id", I(8)).i("how", how);
        break;
      }
      case 'c': cam[g].reset(c->clone()); j.i("g", g); break;
      case 'e': {
        if (!cam[g]) continue;
        j.i("g", g).list("eq", std::vector<int>{*c == *cam[g], !(*c != *cam[g]), c->isEqual(*cam[g]), *cam[g] == *c});
        break;
      }
      case 'a': {
        const std::string f = P(2);
        if (f == "w") c->setImageWidth(I(3));
        if (f == "h") c->setImageHeight(I(3));
        if (f == "delay") c->setLineDelayNanoSeconds(I(3) * static_cast<uint64_t>(kBase) + I(4));
        if (f == "comp") c->setCompressedImages(I(3));
        if (f == "id") c->setId(ids.id(I(3)));
        if (f == "topic") c->setTopic(world::text("t", I(3)));
        if (f == "desc") c->setDescription(world::text("d", I(3)));
        j.s("field", f).list("v", std::vector<int>{I(3), I(4)});
        break;
      }
      case 'p': ok = seq::acceptedHere([&] { c->setParameters(vec(V(2))); }); j.list("intr", V(2)); break;
      case 'P': if (I(2) >= c->getParameterSize()) continue; c->getParametersMutable()[I(2)] = I(3) / 8.0; j.i("i", I(2) + 1).i("v", I(3)); break;
      case 'd': {
        Distortion::UniquePtr d;
        ok = seq::acceptedHere([&] { d.reset(distortionOf(I(2), vec(V(3))).release()); });
        if (ok) c->setDistortion(d);
        j.i("dist", I(2)).list("coef", V(3));
        break;
      }
      case 'D': ok = seq::acceptedHere([&] { c->getDistortionMutable()->setParameters(vec(V(2))); }); j.list("coef", V(2)); break;
      case 'Q': if (I(2) >= c->getDistortion().getParameters().size()) continue; c->getDistortionMutable()->getParametersMutable()[I(2)] = I(3) / 8.0; j.i("i", I(2) + 1).i("v", I(3)); break;
      case 'x': c->removeDistortion(); break;
      case 'm': {
        static const int types[] = {CV_8UC1, CV_8UC3, CV_32FC1, CV_8SC1};
        cv::Mat m(I(3), I(2), types[I(4)]);
        const std::string bits = P(5);
        if (I(4) == 0) for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) m.at<uchar>(y, x) = "\0\1\377"[bits[(y * m.cols + x) % bits.size()] - '0'];
        ok = seq::acceptedHere([&] { c->setMask(m); });
        std::vector<std::string> rows;
        for (int y = 0; I(4) == 0 && y < m.rows; ++y) { std::string r; for (int x = 0; x < m.cols; ++x) r += (x ? "," : "") + std::to_string(m.at<uchar>(y, x)); rows.push_back("[" + r + "]"); }
        j.i("w", I(2)).i("h", I(3)).i("type", I(4)).objs("mask", rows);
        break;
      }
      case 'M': {
        if (!c->hasMask() || I(2) >= c->getMask().cols || I(3) >= c->getMask().rows) continue;
        cv::Mat m = c->getMask();
        m.at<uchar>(I(3), I(2)) = I(4);
        j.i("x", I(2) + 1).i("y", I(3) + 1).i("v", I(4));
        break;
      }
      case 'k': c->clearMask(); break;
      case 'q': {
        if (c->hasMask() && (c->getMask().cols != static_cast<int>(c->imageWidth()) || c->getMask().rows != static_cast<int>(c->imageHeight()))) continue;
        const Eigen::Vector2d k(I(2) / 4.0, I(3) / 4.0);
        const double m = I(4) / 4.0;
        const bool whole = I(2) % 4 == 0 && I(3) % 4 == 0 && I(4) % 4 == 0;
        const Eigen::Vector2f kf = k.cast<float>();
        const Eigen::Vector2i ki(I(2) / 4, I(3) / 4);
        std::vector<int> vis{c->isKeypointVisible(k), c->isKeypointVisible(kf)}, far;
        if (whole) vis.push_back(c->isKeypointVisible(ki));
        const bool can = seq::acceptedHere([&] {
          far = {c->isKeypointVisibleWithMargin(k, m), c->isKeypointVisibleWithMargin(kf, static_cast<float>(m))};
          if (whole) far.push_back(c->isKeypointVisibleWithMargin(ki, I(4) / 4));
        });
        j.i("x", I(2)).i("y", I(3)).i("m", I(4)).b("masked", c->isMasked(k)).list("vis", vis).b("can", can).list("far", far).list("delay", digits(c->rollingShutterDelayNanoSeconds(k)));
        break;
      }
      case 'r': {
        c->setRandom();
        const bool good = c->isValid() && c->getParameters().size() == c->getParameterSize() && c->imageWidth() > 0 && c->imageHeight() > 0;
        const int id = ids.number(c->getId());
        cam[s].reset();
        j.b("good", good).i("id", id);
        break;
      }
      case 'y': {
        const int how = I(3);
        if (how % 2 == 1 && (!cam[g] || kindOf(*cam[g]) != kindOf(*c))) continue;
        YAML::Node n;
        bool read = false;
        c->serialize(&n);
        Camera::Ptr fresh;
        if (how == 2) n = YAML::Load(YAML::Dump(n));
        edit(P(4), &n);
        if (how % 2 == 0) {
          if (P(4) == "null") n = YAML::Node(YAML::NodeType::Null);
          if (P(4) == "text") n = YAML::Load("camera");
          if (P(4) == "list") n = YAML::Load("[1, 2]");
          fresh = createCamera(n);
          read = fresh != nullptr;
          if (read && kindOf(*fresh) != kindOf(*c)) read = !read;
          cam[g] = fresh;
        } else {
          if (how == 3) {
            const std::string file = "/tmp/vcam." + std::to_string(getpid()) + ".yaml";
            { std::ofstream out(file); out << n; }
            read = cam[g]->deserializeFromFile(file);
            unlink(file.c_str());
          } else {
            read = cam[g]->deserialize(n);
          }
          if (!read) cam[g].reset();
        }
        j.i("g", g).i("how", how).s("edit", P(4)).b("read", read);
        break;
      }
    }
    j.b("ok", ok);
    if (ok) { std::vector<std::string> v; for (int i = 0; i < kSlots; ++i) v.push_back(show(i)); j.objs("now", v); }
    seq::emit(j);
    if (!ok) return;
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

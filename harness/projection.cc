// Drives projection and back-projection of the cameras.  Numbers n/d of a program may have a unit: p: pi, q: 4/pi, r: (4/pi)^2, s: ^4, t: ^6, u: ^8.
//   cam:kind:intrinsics:w:h:dist:coefficients   the camera from now on (lists with commas)
//   p:x:y:z:e        project (x, y, z) 2^-e by all functions for it
//   h:x:y:z:w:e      project homogeneous coordinates, with the derivative
//   x:x:y:z:e:intrinsics:coefficients           project with other parameters ("-": its own)
//   b:u:v            back-project
//   t:x:y:z          project and back-project
//   j:x:y:z          derivatives
//   d:x:y            distortion on its own
//   r:depth:n        random keypoints and points
//   y                rays of the border
// Observed numbers are [n, d, f]: the fraction n/d they are (d = 0: none), and millionths.
#include "camera_world.h"
#include "seq/probe.h"

using seq::J;
using aslam::ProjectionResult;
typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;
typedef Eigen::VectorXd VX;
typedef Eigen::Matrix<double, 2, Eigen::Dynamic> M2X;

namespace {
const int kBad = -999999;
std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r;
  std::stringstream ss(s);
  for (std::string x; std::getline(ss, x, c);) r.push_back(x);
  return r;
}
struct N { int n, d; double v; };
N parse(const std::string& s) {
  size_t k = 0;
  N r{std::stoi(s, &k), 1, 0};
  if (k < s.size() && s[k] == '/') { size_t m; r.d = std::stoi(s.substr(k + 1), &m); k += m + 1; }
  r.v = static_cast<double>(r.n) / r.d;
  const char u = k < s.size() ? s[k] : ' ';
  if (u == 'p') r.v *= M_PI;
  const int power = u == 'q' ? 1 : u == 'r' ? 2 : u == 's' ? 4 : u == 't' ? 6 : u == 'u' ? 8 : 0;
  for (int i = 0; i < power; ++i) r.v *= 4 / M_PI;
  return r;
}
std::string text(const N& x) { return "[" + std::to_string(x.n) + "," + std::to_string(x.d) + "]"; }
std::vector<N> parseAll(const std::string& s) { std::vector<N> r; for (const auto& x : split(s, ',')) r.push_back(parse(x)); return r; }
std::string text(const std::vector<N>& v) { std::string r; for (const N& x : v) r += (r.empty() ? "" : ",") + text(x); return "[" + r + "]"; }
VX vec(const std::vector<N>& v) { VX r(v.size()); for (size_t i = 0; i < v.size(); ++i) r(i) = v[i].v; return r; }

long fixed(double v) { return std::abs(v) < 1000 ? std::lround(v * 1e6) : kBad; }
std::string num(double v, double tol = 5e-11, int most = 65536) {
  long n = 0, d = 0;
  if (std::abs(v) < 1e4) {
    // Continued fraction.
    double x = v;
    long n0 = 0, d0 = 1, n1 = 1, d1 = 0;
    for (int i = 0; i < 40; ++i) {
      const double a = std::floor(x + (i ? 1e-12 : tol));
      const long n2 = static_cast<long>(a) * n1 + n0, d2 = static_cast<long>(a) * d1 + d0;
      if (d2 > most) break;
      if (std::abs(static_cast<double>(n2) / d2 - v) < tol) { n = n2; d = d2; break; }
      n0 = n1; d0 = d1; n1 = n2; d1 = d2;
      if (x - a < 1e-14) break;
      x = 1 / (x - a);
      if (x > 1e9) break;
    }
  }
  return "[" + std::to_string(n) + "," + std::to_string(d) + "," + std::to_string(fixed(v)) + "]";
}
template <typename M> std::string nums(const M& m, double tol = 5e-11, int most = 65536) {
  std::string r;
  for (int i = 0; i < m.size(); ++i) r += (i ? "," : "") + num(m.data()[i], tol, most);
  return "[" + r + "]";
}
int status(const ProjectionResult& r) {
  switch (r.getDetailedStatus()) {
    case ProjectionResult::Status::KEYPOINT_VISIBLE: return 0;
    case ProjectionResult::Status::KEYPOINT_OUTSIDE_IMAGE_BOX: return 1;
    case ProjectionResult::Status::POINT_BEHIND_CAMERA: return 2;
    case ProjectionResult::Status::PROJECTION_INVALID: return 3;
    default: return 4;
  }
}
std::string res(const ProjectionResult& r, const V2& k) { return J().i("st", status(r)).raw("u", num(k(0))).raw("v", num(k(1))).str(); }

aslam::Distortion* makeDistortion(int kind, const VX& c) {
  switch (kind) {
    case 1: return new aslam::RadTanDistortion(c);
    case 2: return new aslam::EquidistantDistortion(c);
    case 3: return new aslam::FisheyeDistortion(c);
  }
  return new aslam::NullDistortion;
}
std::unique_ptr<aslam::Camera> cam;
int kind, dist;
// The function templates exist for these only.
bool hasGeneric() { return kind == 2 || (kind == 0 && (dist == 0 || dist == 3)); }

template <typename D> ProjectionResult generic(const V3& p, const VX& i, const VX& c, V2* k) {
  return static_cast<const aslam::PinholeCamera&>(*cam).project3Functional<double, D>(p, i, c, k);
}
ProjectionResult generic(const V3& p, const VX& i, const VX& c, V2* k) {
  if (kind == 2) return static_cast<const aslam::Camera3DLidar&>(*cam).project3Functional<double, aslam::NullDistortion>(p, i, c, k);
  return dist == 3 ? generic<aslam::FisheyeDistortion>(p, i, c, k) : generic<aslam::NullDistortion>(p, i, c, k);
}
V2 at(const V3& p, const VX& i, const VX& c) {
  V2 k(0, 0);
  cam->project3Functional(p, &i, kind == 2 ? nullptr : &c, &k, nullptr, nullptr, nullptr);
  return k;
}
const double kStep = 1e-5;
// Entries [derivative in each of the matrices..., difference quotient].
std::string derivatives(const std::vector<M2X>& a, int n, const std::function<V2(int, double)>& f) {
  std::string r;
  bool fits = true;
  for (const M2X& m : a) fits = fits && m.cols() == n;
  for (int j = 0; fits && j < n; ++j) {
    const V2 d = (f(j, kStep) - f(j, -kStep)) / (2 * kStep);
    for (int i = 0; i < 2; ++i) {
      r += r.empty() ? "[" : ",[";
      for (const M2X& m : a) r += std::to_string(fixed(m(i, j))) + ",";
      r += std::to_string(fixed(d(i))) + "]";
    }
  }
  return fits ? "[" + r + "]" : "[[0,1]]";
}
VX nudged(VX v, int j, double h) { v(j) += h; return v; }

void body(const std::string& line) {
  std::stringstream in(line);
  for (std::string tok; in >> tok;) {
    const std::vector<std::string> p = split(tok, ':');
    const std::string& op = p[0];
    auto I = [&](size_t k) { return k < p.size() && !p[k].empty() ? std::stoi(p[k]) : 0; };
    auto point = [&](int e) { return V3(I(1) * std::ldexp(1.0, -e), I(2) * std::ldexp(1.0, -e), I(3) * std::ldexp(1.0, -e)); };
    const std::string where = op.size() == 1 && p.size() > 3 ? "[" + p[1] + "," + p[2] + "," + p[3] + "]" : "[]";
    if (op == "cam") {
      kind = I(1), dist = I(5);
      const std::vector<N> i = parseAll(p[2]), c = p.size() > 6 ? parseAll(p[6]) : std::vector<N>();
      cam.reset();
      const bool ok = seq::acceptedHere([&] {
        aslam::Distortion::UniquePtr d(makeDistortion(dist, vec(c)));
        if (kind == 0) cam.reset(dist ? new aslam::PinholeCamera(vec(i), I(3), I(4), d) : new aslam::PinholeCamera(vec(i), I(3), I(4)));
        if (kind == 1) cam.reset(dist ? new aslam::UnifiedProjectionCamera(vec(i), I(3), I(4), d) : new aslam::UnifiedProjectionCamera(vec(i), I(3), I(4)));
        if (kind == 2) cam.reset(new aslam::Camera3DLidar(vec(i), I(3), I(4)));
      });
      seq::emit(J().s("e", "cam").i("kind", kind).raw("intr", text(i)).i("w", I(3)).i("h", I(4)).i("dist", dist).raw("coef", text(c)).b("ok", ok && cam != nullptr));
      if (!ok) return;
      continue;
    }
    const VX own = cam->getParameters(), coef = cam->getDistortion().getParameters();
    if (op == "p") {
      const V3 x = point(I(4));
      std::vector<std::string> r;
      V2 k(5, 5);
      const ProjectionResult a = cam->project3(x, &k);
      r.push_back(res(a, k));
      if (kind != 2) { Eigen::Matrix<double, 2, 3> jac; V2 q(5, 5); const ProjectionResult b = cam->project3(x, &q, &jac); r.push_back(res(b, q)); }
      { V2 q(5, 5); const ProjectionResult b = cam->project3Functional(x, nullptr, nullptr, &q); r.push_back(res(b, q)); }
      if (hasGeneric()) { V2 q(5, 5); const ProjectionResult b = generic(x, own, coef, &q); r.push_back(res(b, q)); }
      Eigen::Matrix3Xd xs(3, 3);
      xs << x, V3(1, 1, -1), x;
      Eigen::Matrix2Xd ks;
      std::vector<ProjectionResult> rs(7);
      cam->project3Vectorized(xs, &ks, &rs);
      if (ks.cols() == 3 && rs.size() == 3) { r.push_back(res(rs[0], ks.col(0))); r.push_back(res(rs[2], ks.col(2))); }
      const bool v = a.isKeypointVisible();
      seq::emit(J().s("e", "p").raw("p", where).i("by", I(4)).objs("res", r).i("n", 4 + (kind != 2) + hasGeneric())
                    .list("yes", std::vector<int>{v, static_cast<bool>(a), cam->isProjectable3(x), a == ProjectionResult(ProjectionResult::Status::KEYPOINT_VISIBLE), cam->isKeypointVisible(k)}));
    } else if (op == "h") {
      const V3 x = point(I(5));
      Eigen::Vector4d y;
      y << x, I(4) * std::ldexp(1.0, -I(5));
      std::vector<std::string> r;
      V2 k(5, 5);
      const ProjectionResult a = cam->project4(y, &k);
      r.push_back(res(a, k));
      std::string jac = "[]";
      if (kind != 2) {
        Eigen::Matrix<double, 2, 4> m;
        V2 q(5, 5);
        const ProjectionResult b = cam->project4(y, &q, &m);
        r.push_back(res(b, q));
        if (status(b) < 2) jac = derivatives({m}, 4, [&](int j, double h) { Eigen::Vector4d z = y; z(j) += j < 3 ? h : 0; V2 q; cam->project4(z, &q); return q; });
      }
      seq::emit(J().s("e", "h").raw("p", where).i("w", I(4)).i("by", I(5)).objs("res", r).raw("jac", jac).list("yes", std::vector<int>{a.isKeypointVisible(), cam->isProjectable4(y)}));
    } else if (op == "x") {
      const V3 x = point(I(4));
      const std::vector<N> i = parseAll(p[5] == "-" ? "" : p[5]), c = parseAll(p[6] == "-" ? "" : p[6]);
      const VX vi = vec(i), vc = vec(c);
      const bool oi = p[5] != "-", oc = p[6] != "-";
      std::vector<std::string> r;
      const bool ok = seq::acceptedHere([&] {
        { V2 q(5, 5); const ProjectionResult b = cam->project3Functional(x, oi ? &vi : nullptr, oc ? &vc : nullptr, &q); r.push_back(res(b, q)); }
        if (hasGeneric()) { V2 q(5, 5); const ProjectionResult b = generic(x, oi ? vi : own, oc ? vc : coef, &q); r.push_back(res(b, q)); }
      });
      seq::emit(J().s("e", "x").raw("p", where).i("by", I(4)).b("oi", oi).b("oc", oc).raw("intr", text(i)).raw("coef", text(c)).b("ok", ok).objs("res", ok ? r : std::vector<std::string>())
                    .b("same", cam->getParameters() == own && cam->getDistortion().getParameters() == coef));
    } else if (op == "b") {
      const N u = parse(p[1]), v = parse(p[2]);
      const V2 k(u.v, v.v);
      std::vector<std::string> r;
      V3 a(5, 5, 5);
      bool ok = cam->backProject3(k, &a);
      auto out = [&](bool ok, const Eigen::Vector4d& x) { r.push_back(J().b("ok", ok).raw("r", nums(x, 1e-7, 128)).str()); };
      Eigen::Vector4d x;
      out(ok, (x << a, 0).finished());
      ok = cam->backProject4(k, &x);
      out(ok, x);
      Eigen::Matrix2Xd ks(2, 3);
      ks << k, V2(1, 1), k;
      Eigen::Matrix3Xd xs;
      std::vector<unsigned char> oks(9);
      cam->backProject3Vectorized(ks, &xs, &oks);
      if (oks.size() == 3 && xs.cols() == 3) { out(oks[0], (x << xs.col(0), 0).finished()); out(oks[2], (x << xs.col(2), 0).finished()); }
      seq::emit(J().s("e", "b").raw("u", text(u)).raw("v", text(v)).objs("res", r));
    } else if (op == "t") {
      const V3 x = point(0);
      V2 k(5, 5);
      const ProjectionResult a = cam->project3(x, &k);
      V3 y(5, 5, 5);
      const bool ok = cam->backProject3(k, &y);
      y *= x.norm() / y.norm();
      seq::emit(J().s("e", "t").raw("p", where).i("st", status(a)).b("ok", ok).raw("r", nums(y, 1e-4, 4)));
    } else if (op == "j") {
      const V3 x = point(0);
      V2 k;
      Eigen::Matrix<double, 2, 3> a, b, c;
      M2X ia, ib, da, db;
      std::vector<std::string> r;
      r.push_back(res(cam->project3Functional(x, nullptr, nullptr, &k, &a, &ia, &da), k));
      r.push_back(res(cam->project3Functional(x, nullptr, nullptr, &k, &b, nullptr, nullptr), k));
      r.push_back(res(cam->project3Functional(x, nullptr, nullptr, &k, nullptr, &ib, nullptr), k));
      r.push_back(res(cam->project3Functional(x, nullptr, nullptr, &k, nullptr, nullptr, &db), k));
      cam->project3(x, &k, &c);
      seq::emit(J().s("e", "j").raw("p", where).objs("res", r)
                    .raw("jp", derivatives({a, b, c}, 3, [&](int j, double h) { V3 y = x; y(j) += h; return at(y, own, coef); }))
                    .raw("ji", derivatives({ia, ib}, own.size(), [&](int j, double h) { return at(x, nudged(own, j, h), coef); }))
                    .raw("jd", derivatives({da, db}, coef.size(), [&](int j, double h) { return at(x, own, nudged(coef, j, h)); })));
    } else if (op == "d") {
      const N u = parse(p[1]), v = parse(p[2]);
      const V2 m(u.v, v.v);
      const aslam::Distortion& d = cam->getDistortion();
      std::vector<std::string> r, back;
      V2 q = m;
      d.distort(&q);
      r.push_back(nums(q));
      V2 q2(5, 5);
      d.distort(m, &q2);
      r.push_back(nums(q2));
      V2 q3 = m;
      Eigen::Matrix2d jac;
      d.distort(&q3, &jac);
      r.push_back(nums(q3));
      V2 q4 = m;
      d.distortUsingExternalCoefficients(&coef, &q4, nullptr);
      r.push_back(nums(q4));
      V2 b = q;
      d.undistort(&b);
      back.push_back(nums(b, 1e-6, 64));
      d.undistort(q, &b);
      back.push_back(nums(b, 1e-6, 64));
      b = q;
      d.undistortUsingExternalCoefficients(coef, &b);
      back.push_back(nums(b, 1e-6, 64));
      M2X jd;
      d.distortParameterJacobian(&coef, m, &jd);
      auto f = [&](const V2& y, const VX& c) { V2 z = y; d.distortUsingExternalCoefficients(&c, &z, nullptr); return z; };
      seq::emit(J().s("e", "d").raw("u", text(u)).raw("v", text(v)).objs("res", r).objs("back", back)
                    .raw("jp", derivatives({jac}, 2, [&](int j, double h) { V2 y = m; y(j) += h; return f(y, coef); }))
                    .raw("jd", derivatives({jd}, coef.size(), [&](int j, double h) { return f(m, nudged(coef, j, h)); })));
    } else if (op == "r") {
      std::vector<std::string> r;
      srand(I(3));
      for (int i = 0; i < I(2); ++i) {
        const V2 k = cam->createRandomKeypoint();
        const V3 x = cam->createRandomVisiblePoint(parse(p[1]).v);
        V2 q;
        r.push_back(J().b("in", cam->isKeypointVisible(k)).i("st", status(cam->project3(x, &q))).raw("far", num(x.norm(), 1e-9)).str());
      }
      seq::emit(J().s("e", "r").raw("far", text(parse(p[1]))).objs("res", r));
    } else if (op == "y") {
      Eigen::MatrixXd rays;
      if (kind == 0) static_cast<const aslam::PinholeCamera&>(*cam).getBorderRays(rays);
      std::vector<std::string> r;
      for (int i = 0; i < rays.cols(); ++i) r.push_back(nums(Eigen::VectorXd(rays.col(i)), 1e-7, 128));
      seq::emit(J().s("e", "y").objs("rays", r));
    }
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

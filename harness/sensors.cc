// Drives sensors and YAML conversions.  Tokens (texts in hexadecimal):
//   S:n sensors   n:i:idhex32|-:topic:desc  N...  new sensor   I:i:id set id   W:i wipe id   g:i get id   T:i:t  D:i:d  X:i:x  G:i:0/1
//   r:i random    c:i:k copy   = :i:k equal   v:i valid   w:i:k write to doc k   d:k:kind:id:topic:desc:extra document (entry: -, l, s<hex>)
//   R:i:k:how read (n node, t text, f file)
//   M:kind:doc|yaml decode   E:kind:rows:cols:seed:mode encode and back   Q:map:entry|yaml  safeGet    F no file
#include "aslam/common/sensor.h"
#include "seq/probe.h"
#include "seq/seq.h"
#include <cmath>
#include <cstring>
#include <memory>
#include <sstream>
#include <unistd.h>

namespace {
using seq::J;

struct TestSensor : aslam::Sensor {
  std::string extra = "0";
  bool good = true;
  TestSensor() {}
  TestSensor(const aslam::SensorId& id) : Sensor(id) {}
  TestSensor(const aslam::SensorId& id, const std::string& t) : Sensor(id, t) {}
  TestSensor(const aslam::SensorId& id, const std::string& t, const std::string& d) : Sensor(id, t, d) {}
  Sensor::Ptr cloneAsSensor() const override { return Sensor::Ptr(new TestSensor(*this)); }
  uint8_t getSensorType() const override { return aslam::kUnknown; }
  std::string getSensorTypeString() const override { return "TEST"; }
  bool isValidImpl() const override { return good; }
  void setRandomImpl() override {}
  bool isEqualImpl(const Sensor& o, const bool) const override { return extra == static_cast<const TestSensor&>(o).extra; }
  bool loadFromYamlNodeImpl(const YAML::Node& n) override { return YAML::safeGet(n, "extra", &extra); }
  void saveToYamlNodeImpl(YAML::Node* n) const override { (*n)["extra"] = extra; }
  std::string hex() const { return id_.hexString(); }
  void wipe() { id_ = aslam::SensorId(); }
};

std::string unhex(const std::string& s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
std::string codes(const std::string& s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string(static_cast<unsigned char>(s[i]));
  return r + "]";
}
aslam::SensorId idOf(const std::string& hex) {
  aslam::SensorId id;
  if (!id.fromHexString(hex)) abort();
  return id;
}
std::string scratch(const char* n) { return std::string("/tmp/vsen.") + std::to_string(getpid()) + "." + n; }

std::vector<std::unique_ptr<TestSensor>> sen;
YAML::Node docs[4];
bool undefined[4];

void emit(J& j) {
  std::vector<std::string> v;
  for (auto& s : sen)
    v.push_back(J().raw("id", codes(s->hex())).raw("topic", codes(s->getTopic())).raw("desc", codes(s->getDescription()))
                .raw("extra", codes(s->extra)).b("good", s->good).str());
  seq::emit(j.objs("sen", v));
}

template <typename S> std::string value(S x);
template <> std::string value(double x) { return "\"" + (std::isnan(x) ? std::string("nan") : seq::hex(&x, 8)) + "\""; }
template <> std::string value(float x) { return "\"" + (std::isnan(x) ? std::string("nan") : seq::hex(&x, 4)) + "\""; }
template <> std::string value(int x) { return std::to_string(x); }
template <> std::string value(int64_t x) { return "\"" + std::to_string(x) + "\""; }
template <typename M> std::string values(const M& m) {
  std::string r = "[";
  for (int i = 0; i < m.rows(); ++i) for (int k = 0; k < m.cols(); ++k) r += (i + k ? "," : "") + value(m(i, k));
  return r + "]";
}
template <typename M> std::string matrix(const M& m) {
  return "[" + std::to_string(m.rows()) + "," + std::to_string(m.cols()) + "," + values(m) + "]";
}

template <typename S> S sample(seq::Rng& r, int mode, std::true_type) {
  static const double special[] = {0, -0.0, 1, -1, 0.1, 1.0 / 3, 1e300, 1e-300, 5e-324, 1.7976931348623157e308, INFINITY, -INFINITY, 123456789.123456789, NAN};
  if (mode == 0) return static_cast<S>(r.below(2000) - 1000) / 7;
  if (mode == 1) { const double d = special[r.below(14)]; return std::isfinite(d) && !std::isfinite(static_cast<S>(d)) ? 3 : static_cast<S>(d); }
  S x;
  do { uint64_t b = r.next(); memcpy(&x, &b, sizeof(S)); } while (!std::isfinite(x));
  return x;
}
template <typename S> S sample(seq::Rng& r, int mode, std::false_type) {
  if (mode == 0) return r.below(2000) - 1000;
  if (mode == 1) return r.below(2) ? std::numeric_limits<S>::max() : std::numeric_limits<S>::min();
  return static_cast<S>(r.next());
}

template <typename S, int A, int B> struct Ops {
  typedef Eigen::Matrix<S, A, B> M;
  static void encode(int rows, int cols, int seed, int mode) {
    M m(A == -1 ? rows : A, B == -1 ? cols : B);
    rows = m.rows(); cols = m.cols();
    seq::Rng r(seed);
    for (int i = 0; i < rows; ++i) for (int k = 0; k < cols; ++k) m(i, k) = sample<S>(r, mode, std::is_floating_point<S>());
    std::vector<std::string> back;
    const std::string file = scratch("m.yaml");
    const bool ok = seq::acceptedHere([&] {
      YAML::Node n;
      n["m"] = m;
      back.push_back(matrix(n["m"].as<M>()));
      M o;
      back.push_back(YAML::safeGet(YAML::Load(YAML::Dump(n)), "m", &o) ? matrix(o) : "[]");
      M p;
      const bool saved = YAML::Save(m, file) && YAML::Load(file, &p);
      back.push_back(saved ? matrix(p) : "[]");
    });
    unlink(file.c_str());
    seq::emit(J().s("e", "matrix").i("rows", rows).i("cols", cols).raw("val", values(m)).b("ok", ok).objs("back", back));
  }
  static void decode(const std::string& abstract, const std::string& yaml) {
    YAML::Node n;
    n["m"] = YAML::Load(yaml);
    M a, b;
    bool ok = false, ok2 = false;
    const std::string file = scratch("d.yaml");
    { std::ofstream o(file); o << YAML::Dump(n["m"]); }
    if (!seq::acceptedHere([&] { ok = YAML::safeGet(n, "m", &a); })) ok = false;
    if (!seq::acceptedHere([&] { ok2 = YAML::Load(file, &b); })) ok2 = false;
    unlink(file.c_str());
    if (ok != ok2 || (ok && (a.rows() != b.rows() || a.cols() != b.cols() || !(a == b)))) ok = ok2 = false, a = M();
    J j;
    j.s("e", "decode").raw("m", abstract).i("a", A).i("b", B).b("ok", ok);
    if (ok) {
      std::string v = "[";
      for (int i = 0; i < a.rows(); ++i) for (int k = 0; k < a.cols(); ++k) v += (i + k ? "," : "") + std::to_string(static_cast<int>(a(i, k)));
      j.i("rows", a.rows()).i("cols", a.cols()).raw("val", v + "]");
    }
    seq::emit(j);
  }
};

template <typename F> void withKind(const std::string& k, F f) {
  if (k == "d33") f(Ops<double, 3, 3>());
  else if (k == "dX3") f(Ops<double, -1, 3>());
  else if (k == "d3X") f(Ops<double, 3, -1>());
  else if (k == "dXX") f(Ops<double, -1, -1>());
  else if (k == "dX1") f(Ops<double, -1, 1>());
  else if (k == "d1X") f(Ops<double, 1, -1>());
  else if (k == "d41") f(Ops<double, 4, 1>());
  else if (k == "d14") f(Ops<double, 1, 4>());
  else if (k == "d11") f(Ops<double, 1, 1>());
  else if (k == "fXX") f(Ops<float, -1, -1>());
  else if (k == "f2X") f(Ops<float, 2, -1>());
  else if (k == "iXX") f(Ops<int, -1, -1>());
  else if (k == "i22") f(Ops<int, 2, 2>());
  else if (k == "iX1") f(Ops<int, -1, 1>());
  else if (k == "lXX") f(Ops<int64_t, -1, -1>());
  else abort();
}

void body(const std::string& program) {
  sen.clear();
  for (auto& d : docs) d.reset(YAML::Node());
  for (auto& u : undefined) u = false;
  std::istringstream in(program);
  std::string tok;
  while (in >> tok) {
    std::string tail;
    const size_t bar = tok.find('|');
    if (bar != std::string::npos) { tail = unhex(tok.substr(bar + 1)); tok.resize(bar); }
    std::vector<std::string> f;
    { std::istringstream t(tok); std::string x; while (std::getline(t, x, ':')) f.push_back(x); }
    if (tok.back() == ':') f.push_back("");
    auto n = [&](size_t i) { return std::stoi(f.at(i)); };
    J j;
    switch (f[0][0]) {
      case 'S': for (int i = 0; i < n(1); ++i) sen.emplace_back(new TestSensor); emit(j.s("e", "start")); break;
      case 'n': {
        const std::string t = unhex(f[3]), d = unhex(f[4]);
        j.s("e", "new").i("i", n(1) + 1);
        bool ok = true;
        if (f[2] == "-") {
          sen[n(1)].reset(new TestSensor);
          j.raw("topic", "[]").raw("desc", "[]");
        } else {
          const aslam::SensorId id = idOf(f[2]);
          ok = seq::acceptedHere([&] { TestSensor s(id, t, d); });
          if (ok) sen[n(1)].reset(d.empty() ? (t.empty() ? new TestSensor(id) : new TestSensor(id, t)) : new TestSensor(id, t, d));
          j.raw("id", codes(f[2])).raw("topic", codes(t)).raw("desc", codes(d));
        }
        emit(j.b("ok", ok));
        break;
      }
      case 'I': {
        const bool ok = seq::acceptedHere([&] { sen[n(1)]->setId(idOf(f[2])); });
        emit(j.s("e", "setid").i("i", n(1) + 1).raw("id", codes(f[2])).b("ok", ok));
        break;
      }
      case 'W': sen[n(1)]->wipe(); emit(j.s("e", "wipe").i("i", n(1) + 1)); break;
      case 'g': {
        std::string id;
        const bool ok = seq::acceptedHere([&] { id = sen[n(1)]->getId().hexString(); });
        emit(j.s("e", "getid").i("i", n(1) + 1).b("ok", ok).raw("id", codes(id)));
        break;
      }
      case 'T': sen[n(1)]->setTopic(unhex(f[2])); emit(j.s("e", "settopic").i("i", n(1) + 1).raw("topic", codes(unhex(f[2])))); break;
      case 'D': sen[n(1)]->setDescription(unhex(f[2])); emit(j.s("e", "setdesc").i("i", n(1) + 1).raw("desc", codes(unhex(f[2])))); break;
      case 'X': sen[n(1)]->extra = unhex(f[2]); emit(j.s("e", "setextra").i("i", n(1) + 1).raw("extra", codes(unhex(f[2])))); break;
      case 'G': sen[n(1)]->good = n(2); emit(j.s("e", "setgood").i("i", n(1) + 1).b("good", n(2))); break;
      case 'r': sen[n(1)]->setRandom(); emit(j.s("e", "random").i("i", n(1) + 1)); break;
      case 'c':
        if (f[0] == "ca") *sen[n(1)] = *sen[n(2)];
        else sen[n(1)].reset(static_cast<TestSensor*>(new TestSensor(*sen[n(2)])));
        emit(j.s("e", "copy").i("i", n(1) + 1).i("k", n(2) + 1));
        break;
      case '=': {
        const TestSensor &a = *sen[n(1)], &b = *sen[n(2)];
        const bool r = a == b, q = a != b, silent = a.isEqual(b, false), loud = a.isEqual(b, true);
        emit(j.s("e", "equal").i("i", n(1) + 1).i("k", n(2) + 1).b("res", r).b("not", q).b("silent", silent).b("loud", loud));
        break;
      }
      case 'v': emit(j.s("e", "valid").i("i", n(1) + 1).b("res", sen[n(1)]->isValid())); break;
      case 'w': {
        const bool ok = seq::acceptedHere([&] { YAML::Node x; sen[n(1)]->serialize(&x); });
        if (ok) {
          YAML::Node x;
          sen[n(1)]->serialize(&x);
          if (n(3)) {
            const std::string file = scratch("s.yaml");
            sen[n(1)]->serializeToFile(file);
            x = YAML::LoadFile(file);
            unlink(file.c_str());
          }
          docs[n(2)].reset(x);
          undefined[n(2)] = false;
        }
        emit(j.s("e", "write").i("i", n(1) + 1).i("k", n(2) + 1).b("ok", ok));
        break;
      }
      case 'd': {
        YAML::Node x;
        std::string e[4];
        if (f[2] == "map") {
          x = YAML::Node(YAML::NodeType::Map);
          static const char* const keys[] = {"id", "topic", "description", "extra"};
          for (int q = 0; q < 4; ++q) {
            const std::string& v = f[3 + q];
            if (v == "-") { e[q] = "[\"-\"]"; continue; }
            if (v == "l") { x[keys[q]].push_back(1); x[keys[q]].push_back("a"); e[q] = "[\"l\"]"; continue; }
            x[keys[q]] = unhex(v.substr(1));
            e[q] = "[\"s\"," + codes(unhex(v.substr(1))) + "]";
          }
        } else {
          for (auto& q : e) q = "[\"-\"]";
          if (f[2] == "list") x.push_back("id");
          else if (f[2] == "scalar") x = "id";
        }
        undefined[n(1)] = f[2] == "undefined";
        docs[n(1)].reset(x);
        emit(j.s("e", "doc").i("k", n(1) + 1).raw("doc", J().s("kind", f[2]).raw("id", e[0]).raw("topic", e[1]).raw("desc", e[2]).raw("extra", e[3]).str()));
        break;
      }
      case 'R': {
        TestSensor& s = *sen[n(1)];
        const YAML::Node& d = docs[n(2)];
        bool res = false;
        const std::string file = scratch("r.yaml");
        auto read = [&] {
          if (undefined[n(2)]) { const YAML::Node empty(YAML::NodeType::Map); res = s.deserialize(empty["none"]); }
          else if (f[3] == "n") res = s.deserialize(d);
          else if (f[3] == "t") res = s.deserialize(YAML::Load(YAML::Dump(d)));
          else { std::ofstream o(file); o << d; o.close(); res = s.deserializeFromFile(file); unlink(file.c_str()); }
        };
        const TestSensor before(s);
        const bool ok = seq::acceptedHere(read);
        if (!ok) s = before;
        unlink(file.c_str());
        emit(j.s("e", "read").i("i", n(1) + 1).i("k", n(2) + 1).b("ok", ok).b("res", res));
        break;
      }
      case 'M': withKind(f[1], [&](auto o) { o.decode(f[2], tail); }); break;
      case 'E': withKind(f[1], [&](auto o) { o.encode(n(2), n(3), n(4), n(5)); }); break;
      case 'Q': {
        YAML::Node d = YAML::Load(tail);
        int iv = -7;
        std::vector<int> lv{-7};
        std::string sv;
        bool a = false, b = false, c = false, h = false;
        seq::acceptedHere([&] { a = YAML::safeGet(d, "key", &iv); });
        seq::acceptedHere([&] { b = YAML::safeGet(d, "key", &sv); });
        seq::acceptedHere([&] { c = YAML::safeGet(d, "key", &lv); });
        seq::acceptedHere([&] { h = YAML::hasKey(d, "key"); });
        if (!a) iv = -7;
        if (!c) lv = {-7};
        std::string ls = "[";
        for (size_t i = 0; i < lv.size(); ++i) ls += (i ? "," : "") + std::to_string(lv[i]);
        auto bs = [](bool x) { return std::string(x ? "true" : "false"); };
        seq::emit(j.s("e", "get").b("map", n(1)).raw("entry", f[2]).b("has", h).raw("int", "[" + bs(a) + "," + std::to_string(iv) + "]").b("str", b)
                  .raw("list", "[" + bs(c) + "," + ls + "]]"));
        break;
      }
      case 'F': {
        Eigen::MatrixXd m;
        const std::string file = scratch("none.yaml"), bad = scratch("bad.yaml");
        { std::ofstream o(bad); o << "{a: [1, 2"; }
        TestSensor s;
        const bool a = YAML::Load(file, &m) || YAML::Load(bad, &m), b = s.deserializeFromFile(file) || s.deserializeFromFile(bad);
        unlink(bad.c_str());
        seq::emit(j.s("e", "nofile").raw("res", std::string("[") + (a ? "true" : "false") + "," + (b ? "true" : "false") + "]"));
        break;
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

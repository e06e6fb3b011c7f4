// Drives channel serialization.  Program: "<type> <s|b> <value seed>..."; for each value: serialize, read back into
// an object holding something else, then feed damaged forms of the message.
#include <cmath>
#include <limits>
#include <sstream>

#include <aslam/common/channel.h>

#include "seq/probe.h"
#include "seq/seq.h"

namespace {
using seq::J;
using seq::Rng;
template <typename S, int R, int C> using M = Eigen::Matrix<S, R, C>;

// --- canonical text of a value: shape and exact elements ---
template <typename S> typename std::enable_if<std::is_floating_point<S>::value, std::string>::type num(S v) {


  return seq::hex(&v, sizeof(v));
}
template <typename S> typename std::enable_if<std::is_integral<S>::value, std::string>::type num(S v) { return std::to_string(v); }
template <typename S> typename std::enable_if<std::is_arithmetic<S>::value, std::string>::type text(const S& v) { return num(v); }
template <typename S, int R, int C> std::string text(const M<S, R, C>& m) {
  std::string r = std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + ":";
  if (m.size() > 0) for (int c = 0; c < m.cols(); ++c) for (int i = 0; i < m.rows(); ++i) r += num(m(i, c)) + ",";
  return r;
}
template <typename T> std::string text(const std::vector<T>& v) {
  std::string r = std::to_string(v.size()) + "[";
  for (const T& x : v) r += text(x) + ";";
  return r + "]";
}
std::string text(const cv::Mat& m) {
  std::string r = std::to_string(m.rows) + "x" + std::to_string(m.cols) + "t" + std::to_string(m.type()) + ":";
  if (m.total() > 0) for (int i = 0; i < m.rows; ++i) r += seq::hex(m.ptr(i), m.cols * m.elemSize()) + ",";
  return r;
}

// --- values ---
template <typename S> typename std::enable_if<std::is_floating_point<S>::value>::type gen(Rng* g, S* v) {
  switch (g->below(10)) {
    case 8: *v = std::numeric_limits<S>::denorm_min() * static_cast<S>(1 + g->below(100)); break;
    case 0: *v = 0; break;
    case 1: *v = static_cast<S>(g->below(100) - 50); break;
    case 2: *v = static_cast<S>(1) / static_cast<S>(3 + g->below(10)); break;
    case 3: *v = static_cast<S>(1e-7) * static_cast<S>(1 + g->below(1000)); break;
    case 4: *v = std::numeric_limits<S>::max() / static_cast<S>(1 + g->below(3)); break;
    case 5: *v = -std::numeric_limits<S>::min() * static_cast<S>(1 + g->below(3)); break;
    case 6: *v = std::numeric_limits<S>::epsilon() + static_cast<S>(1); break;
    case 7: *v = static_cast<S>(1.5e9) * static_cast<S>(1 + g->below(1000)) + static_cast<S>(0.123456789); break;
    default: *v = static_cast<S>(static_cast<double>(g->next()) / 1e12 - 5e6);
  }
}
template <typename S> typename std::enable_if<std::is_integral<S>::value>::type gen(Rng* g, S* v) {
  switch (g->below(5)) {
    case 0: *v = 0; break;
    case 1: *v = std::numeric_limits<S>::max(); break;
    case 2: *v = std::numeric_limits<S>::min(); break;
    case 3: *v = static_cast<S>(g->below(2)); break;
    default: *v = static_cast<S>(g->next());
  }
}
template <> void gen<bool>(Rng* g, bool* v) { *v = g->below(2); }
template <typename S, int R, int C> void gen(Rng* g, M<S, R, C>* m) {
  const int shapes[] = {0, 1, 2, 3, 5};
  m->resize(R == Eigen::Dynamic ? shapes[g->below(5)] : R, C == Eigen::Dynamic ? shapes[g->below(5)] : C);
  for (int c = 0; c < m->cols(); ++c) for (int i = 0; i < m->rows(); ++i) { S s; gen(g, &s); (*m)(i, c) = s; }
}
template <typename T> void gen(Rng* g, std::vector<T>* v) {
  v->resize(g->below(4));
  for (T& x : *v) gen(g, &x);
}
void gen(Rng* g, cv::Mat* m) {
  static const int depths[] = {CV_8U, CV_8S, CV_16U, CV_16S, CV_32S, CV_32F, CV_64F};
  const int shapes[] = {0, 1, 2, 3, 5};
  const int rows = shapes[g->below(5)], cols = shapes[g->below(5)];
  *m = cv::Mat(rows, cols, CV_MAKETYPE(depths[g->below(7)], 1 + g->below(4)));
  for (size_t i = 0; i < m->total() * m->elemSize(); ++i) m->data[i] = static_cast<uchar>(g->next() >> 20);
}

template <typename T> std::string write(char how, const T& v) {
  if (how == 's') { std::string s = "junk"; return aslam::internal::serializeToString(v, &s) ? s : "FAILED"; }
  char* b = nullptr;
  size_t n = 0;
  if (!aslam::internal::serializeToBuffer(v, &b, &n)) return "FAILED";
  const std::string s(b, n);
  delete[] b;
  return s;
}
template <typename T> bool read(char how, const std::string& m, T* v) {
  if (how == 's') { const std::string exact(m.data(), m.size()); return aslam::internal::deSerializeFromString(exact, v); }
  std::unique_ptr<char[]> b(new char[m.size()]);
  memcpy(b.get(), m.data(), m.size());
  return aslam::internal::deSerializeFromBuffer(b.get(), m.size(), v);
}
// The same through a channel object.
template <typename T> bool readChannel(char how, const std::string& m, T* v) {
  aslam::channels::Channel<T> c;
  c.value_ = *v;
  const bool ok = how == 's' ? c.deSerializeFromString(m) : c.deSerializeFromBuffer(m.data(), m.size());
  *v = c.value_;
  return ok;
}

template <typename T> void wrote(const std::string& ty, const T& v, const std::string& m) {
  seq::emit(J().s("e", "write").s("ty", ty).s("v", text(v)).s("m", seq::hex(m.data(), m.size())));
}
template <typename T> void feed(const std::string& ty, char how, const std::string& m, Rng* g, bool valid) {
  T target;
  gen(g, &target);
  bool ok = valid || seq::acceptedHere([&] { T t = target; if (!read(how, m, &t)) throw 1; });
  if (ok) ok = g->below(2) ? read(how, m, &target) : readChannel(how, m, &target);
  seq::emit(J().s("e", "read").s("ty", ty).s("m", seq::hex(m.data(), m.size())).b("ok", ok).s("v", ok ? text(target) : ""));
  // A matrix without elements can have more rows than can be written.
  std::string again;
  if (ok && !valid && seq::acceptedHere([&] { again = write(how, target); })) wrote(ty, target, again);
}
void put32(std::string* m, size_t at, uint32_t v) { if (at + 4 <= m->size()) memcpy(&(*m)[at], &v, 4); }

template <typename T> void damage(const std::string& ty, char how, const std::string& m, Rng* g) {
  const size_t n = m.size();
  for (size_t k = 0; k < n; ++k) if (k < 45 || k + 20 > n || k % 7 == 0) feed<T>(ty, how, m.substr(0, k), g, false);
  for (const std::string& x : {std::string(1, '\0'), std::string(8, '\1'), m}) if (!x.empty()) feed<T>(ty, how, m + x, g, false);
  const uint32_t vals[] = {0, 1, 2, 3, 4, 5, 6, 7, 255, 513, 65536, 0x7fffffff, 0x80000000, 0xffffffff};
  for (size_t at = 0; at + 4 <= n && at < 48; at += 4)
    for (uint32_t v : vals) {
      std::string x = m;
      put32(&x, at, v);
      if (x != m) feed<T>(ty, how, x, g, false);
    }
}
// A header claiming more channels with a payload of matching size.
template <typename T> void channelsDamage(const std::string&, char, Rng*) {}
template <> void channelsDamage<cv::Mat>(const std::string& ty, char how, Rng* g) {
  for (uint32_t ch : {0u, 1u, 4u, 5u, 512u, 513u, 1025u}) {
    std::string x(16, '\0');
    put32(&x, 0, 2); put32(&x, 4, 3); put32(&x, 8, CV_8U); put32(&x, 12, ch);
    feed<cv::Mat>(ty, how, x + std::string(6 * ch, '\5'), g, false);
  }
}

template <typename T> typename std::enable_if<std::is_arithmetic<T>::value>::type corrupt(const std::string& ty, char how, const std::string& m, Rng* g) {
  if (how == 's') {  // text that is not a number of this type
    const double d = std::numeric_limits<T>::is_integer ? 0 : 1;
    for (const std::string& x : {std::string(""), std::string("abc"), m + "abc", m + " 1", m + "-", std::string("-"), std::string(" ")}) feed<T>(ty, how, x, g, false);
    if (std::numeric_limits<T>::is_integer && !std::is_same<T, bool>::value) {
      for (const std::string& x : {m + ".5", std::to_string(std::numeric_limits<T>::max()) + "0", std::string("99999999999999999999999"),
                                   std::string("-99999999999999999999999")}) feed<T>(ty, how, x, g, false);
      if (sizeof(T) < 8) feed<T>(ty, how, std::to_string(static_cast<long long>(std::numeric_limits<T>::max()) + 1), g, false);
      if (sizeof(T) < 8) feed<T>(ty, how, std::to_string(static_cast<long long>(std::numeric_limits<T>::min()) - 1), g, false);
      if (!std::numeric_limits<T>::is_signed) feed<T>(ty, how, "-1", g, false);
    }
    (void)d;
  } else {
    for (size_t k = 0; k < m.size(); ++k) feed<T>(ty, how, m.substr(0, k), g, false);
    feed<T>(ty, how, m + "x", g, false);
    feed<T>(ty, how, m + m, g, false);
  }
}
template <typename T> typename std::enable_if<!std::is_arithmetic<T>::value>::type corrupt(const std::string& ty, char how, const std::string& m, Rng* g) {
  damage<T>(ty, how, m, g);
}

template <typename T> void drive(const std::string& name, char how, std::istream* in) {
  const std::string ty = name + "/" + how;
  std::string k;
  while (*in >> k) {
    const bool dmg = k[0] == '!';
    Rng g(std::stoull(dmg ? k.substr(1) : k) * 31 + name.size());
    T v;
    gen(&g, &v);
    const std::string m = write(how, v);
    wrote(ty, v, m);
    feed<T>(ty, how, m, &g, true);
    if (dmg) { corrupt<T>(ty, how, m, &g); channelsDamage<T>(ty, how, &g); }
  }
}

void body(const std::string& line) {
  std::istringstream in(line);
  std::string t, h;
  in >> t >> h;
  const int D = Eigen::Dynamic;
#define T(n, ...) if (t == n) { drive<__VA_ARGS__>(t, h[0], &in); return; }
  T("bool", bool) T("i8", int8_t) T("u8", uint8_t) T("i16", int16_t) T("u16", uint16_t) T("i32", int32_t) T("u32", uint32_t)
  T("i64", int64_t) T("u64", uint64_t) T("f", float) T("d", double)
  T("Md", M<double, D, D>) T("M2d", M<double, 2, D>) T("M3d", M<double, 3, D>) T("Vd", M<double, D, 1>) T("Rd", M<double, 1, D>)
  T("Md3", M<double, D, 3>) T("S3d", M<double, 3, 3>) T("Mf", M<float, D, D>) T("Mi", M<int, D, D>) T("Vi", M<int, D, 1>)
  T("Mu", M<unsigned char, D, D>) T("Mi8", M<int8_t, D, D>) T("M16", M<int16_t, D, D>) T("Vu16", M<uint16_t, D, 1>)
  T("LMu", std::vector<M<unsigned char, D, D>>) T("LMd", std::vector<M<double, D, D>>) T("LVd", std::vector<M<double, D, 1>>)
  T("LM2f", std::vector<M<float, 2, D>>) T("LS3d", std::vector<M<double, 3, 3>>) T("LRi", std::vector<M<int, 1, D>>)
  T("cv", cv::Mat)
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

// Drives the container helpers on a container of elements <id, key>.  Tokens:
//   N:kind:keys..   new container (v vector, d vector of doubles' indices, f fixed rows, c fixed columns, k adapter over
//                   columns, r adapter over rows, 1 one-row matrix)
//   e:count:i,i,..  erase (count: what the caller says the length is; - for the free function on vectors)
//   k:n:desc        keep n best      d:n:fixed  draw      s summaries     n:sizes nested count    c  Eigen to vector
#include "aslam/common/stl-helpers.h"
#include "seq/probe.h"
#include "seq/seq.h"
#include <cmath>
#include <memory>
#include <sstream>

namespace {
using seq::J;
namespace ac = aslam::common;
struct El { int id, key; };
typedef std::vector<El> Vec;

std::string js(const Vec& v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << "[" << v[i].id << "," << v[i].key << "]";
  o << "]";
  return o.str();
}

long long whole(double x) { return std::abs(x - std::llround(x)) < 1e-6 ? std::llround(x) : -999999; }

std::vector<size_t> indices(const std::string& s) {
  std::vector<size_t> r;
  std::istringstream in(s);
  for (std::string t; std::getline(in, t, ',');) if (!t.empty()) r.push_back(std::stoul(t));
  return r;
}

// Every representation holds the same elements; a third coordinate tells whether all parts of an element moved together.
const int kMix = 1000;
struct Box {
  char kind;
  Vec v;
  std::vector<double> d;
  Eigen::Matrix<double, 3, Eigen::Dynamic> f;
  Eigen::Matrix<int, Eigen::Dynamic, 3> c;
  Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> x;
  Eigen::VectorXi one;
  Eigen::Matrix<double, 1, Eigen::Dynamic> row;
  void set(const Vec& e) {
    const int n = e.size();
    v = e; d.clear(); f.resize(3, n); c.resize(n, 3); one.resize(n); row.resize(1, n);
    if (kind == 'r') x.resize(n, 3); else x.resize(3, n);
    for (int i = 0; i < n; ++i) {
      const int m = e[i].id * 31 + e[i].key * 7;
      d.push_back(e[i].id * kMix + e[i].key);
      f.col(i) << e[i].id, e[i].key, m;
      c.row(i) << e[i].id, e[i].key, m;
      if (kind == 'r') x.row(i) << e[i].id, e[i].key, m % 256; else x.col(i) << e[i].id, e[i].key, m % 256;
      one(i) = e[i].id * kMix + e[i].key;
      row(i) = e[i].id * kMix + e[i].key;
    }
  }
  Vec get() const {
    Vec r;
    auto put = [&](int id, int key, int m, int mod) { r.push_back((id * 31 + key * 7) % mod == m % mod ? El{id, key} : El{-1, -1}); };
    const int big = 1 << 30;
    switch (kind) {
      case 'v': return v;
      case 'd': for (double y : d) r.push_back({static_cast<int>(y) / kMix, static_cast<int>(y) % kMix}); break;
      case 'f': for (int i = 0; i < f.cols(); ++i) put(f(0, i), f(1, i), f(2, i), big); break;
      case 'c': for (int i = 0; i < c.rows(); ++i) put(c(i, 0), c(i, 1), c(i, 2), big); break;
      case 'k': for (int i = 0; i < x.cols(); ++i) put(x(0, i), x(1, i), x(2, i), 256); break;
      case 'r': for (int i = 0; i < x.rows(); ++i) put(x(i, 0), x(i, 1), x(i, 2), 256); break;
      case 'o': for (int i = 0; i < one.size(); ++i) r.push_back({one(i) / kMix, one(i) % kMix}); break;
      case '1': for (int i = 0; i < row.cols(); ++i) r.push_back({static_cast<int>(row(i)) / kMix, static_cast<int>(row(i)) % kMix}); break;
    }
    return r;
  }
  void erase(const std::vector<size_t>& idx, size_t count) {
    using namespace ac::stl_helpers;
    switch (kind) {
      case 'v': eraseIndicesFromContainer(idx, count, &v); break;
      case 'd': eraseIndicesFromContainer(idx, count, &d); break;
      case 'f': eraseIndicesFromContainer(idx, count, &f); break;
      case 'c': eraseIndicesFromContainer(idx, count, &c); break;
      case 'k': { OneDimensionAdapter<unsigned char, kColumns> a(&x); eraseIndicesFromContainer(idx, count, &a); break; }
      case 'r': { OneDimensionAdapter<unsigned char, kRows> a(&x); eraseIndicesFromContainer(idx, count, &a); break; }
      case 'o': eraseIndicesFromContainer(idx, count, &one); break;
      case '1': eraseIndicesFromContainer(idx, count, &row); break;
    }
  }
};

void body(const std::string& program) {
  Box b{'v'};
  std::istringstream in(program);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> f;
    { std::istringstream t(tok); std::string x; while (std::getline(t, x, ':')) f.push_back(x); }
    auto n = [&](size_t i) { return std::stoi(f.at(i)); };
    J j;
    switch (f[0][0]) {
      case 'N': {
        Vec e;
        for (size_t k : indices(f.size() > 2 ? f[2] : "")) e.push_back({static_cast<int>(e.size()) + 1, static_cast<int>(k)});
        b.kind = f[1][0];
        b.set(e);
        j.s("e", "new").s("kind", f[1]);
        break;
      }
      case 'e': {
        const std::vector<size_t> idx = indices(f.size() > 2 ? f[2] : "");
        bool ok;
        int count;
        if (f[1] == "-") {
          count = b.get().size();
          const Vec data = b.get();
          Vec r = data;
          ok = seq::acceptedHere([&] { r = ac::eraseIndicesFromVector(data, idx); });
          b.set(r);
        } else {
          count = b.get().size() + std::stoi(f[1]);
          ok = seq::acceptedHere([&] { b.erase(idx, count); });
          b.set(b.get());
        }
        j.s("e", "erase").list("idx", idx).i("count", count).b("ok", ok);
        break;
      }
      case 'k': {
        Vec v = b.get(), gone;
        const bool desc = n(2);
        const auto cmp = [&](const El& x, const El& y) { return desc ? x.key > y.key : x.key < y.key; };
        const auto act = [&](const El& x) { gone.push_back(x); };
        const size_t r = ac::keepOnlyNSortedElements(n(1), cmp, &v, act);
        Vec w = b.get();
        const size_t r2 = ac::keepOnlyNSortedElements(n(1), cmp, &w);
        b.set(v);
        j.s("e", "keep").i("n", n(1)).b("desc", desc).i("res", r == r2 && w.size() == v.size() ? r : -1).raw("gone", js(gone));
        break;
      }
      case 'd': {
        const Vec v = b.get();
        Vec out(3, El{77, 77}), again;
        bool same = true;
        const bool ok = seq::acceptedHere([&] {
          if (n(2)) {
            ac::drawNRandomElements(n(1), v, &out, true);
            ac::drawNRandomElements(n(1), v, &again, true);
            same = js(out) == js(again);
          } else {
            ac::drawNRandomElements(n(1), v, &out);
          }
        });
        j.s("e", "draw").i("n", n(1)).b("fixed", n(2)).b("ok", ok).b("same", same).raw("out", js(ok ? out : Vec()));
        break;
      }
      case 's': {
        // Keys may be negative: offset 500.
        std::vector<int> keys, keys2;
        std::vector<double> dk;
        for (const El& e : b.get()) { keys.push_back(e.key - 500); dk.push_back(e.key - 500); }
        keys2 = keys;
        double md = 0, mn = 0, sd = 0;
        const bool ok = seq::acceptedHere([&] { mn = ac::mean(keys.begin(), keys.end()); });
        const bool ok2 = seq::acceptedHere([&] { sd = ac::stddev(dk.begin(), dk.end()); });
        const bool ok3 = seq::acceptedHere([&] { md = ac::median(keys.begin(), keys.end()); });
        std::sort(keys.begin(), keys.end());
        std::sort(keys2.begin(), keys2.end());
        const double k = keys.size();
        // Shifted back: mean * k, variance * k^2 (unaffected), 2 * median.
        j.s("e", "summary").b("ok", ok && ok2 && ok3 && keys == keys2).i("mean", whole((mn + 500) * k)).i("var", whole(sd * sd * k * k))
         .i("median", whole(2 * (md + 500)));
        if (ok != ok2 || ok != ok3) j.b("mixed", true);
        break;
      }
      case 'n': {
        const std::vector<size_t> sizes = indices(f.size() > 1 ? f[1] : "");
        std::vector<std::vector<int>> nested;
        for (size_t s : sizes) nested.emplace_back(s, 3);
        j.s("e", "nested").list("sizes", sizes).i("res", ac::countNumberOfElementsInNestedList(nested));
        break;
      }
      case 'c': {
        const Vec v = b.get();
        Eigen::Matrix<double, 2, Eigen::Dynamic> m(2, v.size());
        for (size_t i = 0; i < v.size(); ++i) m.col(i) << v[i].id, v[i].key;
        Aligned<std::vector, Eigen::Vector2d> out(2, Eigen::Vector2d(9, 9));
        ac::convertEigenToStlVector<2>(m, &out);
        Vec r;
        for (const auto& x : out) r.push_back({static_cast<int>(x(0)), static_cast<int>(x(1))});
        j.s("e", "columns").raw("out", js(r));
        break;
      }
      default: continue;
    }
    seq::emit(j.raw("now", js(b.get())));
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

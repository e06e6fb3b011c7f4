// Drives binary descriptors.  Tokens:
//   N:refs:s1,s2,..     references, and outside buffers of these sizes (random bytes by seed = position)
//   R:o:i:...           an operation on reference i (see below)
//   B:rows:cols:mode:seed   bulk functions on a matrix     D:rows:cols:mode:seed[:offset] distances     b:rows:bit:seed bits
#include <cstring>
#include "aslam/common/descriptor-utils.h"
#include "seq/probe.h"
#include "seq/seq.h"
#include <cmath>
#include <memory>
#include <sstream>

namespace {
using seq::J;
using namespace aslam::common;
namespace du = aslam::common::descriptor_utils;

long long whole(double x) { return std::abs(x - std::llround(x)) < 1e-3 ? std::llround(x) : -999999; }
template <typename B> std::string bytes(const B* p, size_t n) {
  std::string s = "[";
  for (size_t i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(static_cast<int>(p[i]));
  return s + "]";
}
std::string columns(const du::DescriptorsType& m) {
  std::string s = "[";
  for (int i = 0; i < m.cols(); ++i) s += (i ? "," : "") + bytes(m.col(i).data(), m.rows());
  return s + "]";
}
unsigned char byte(seq::Rng& r, int mode) {
  switch (mode) {
    case 0: return r.below(256);
    case 1: return r.below(10) == 0 ? 1 << r.below(8) : 0;
    case 2: return r.below(2) ? 255 : 0;
    case 3: return 255;
    default: return r.below(4) * 85;
  }
}

struct World {
  std::vector<std::unique_ptr<FeatureDescriptorRef>> ref;
  std::vector<std::unique_ptr<unsigned char[]>> ext;
  std::vector<size_t> size;
  void emit(J& j) {
    std::string x = "[", r = "[";
    for (size_t i = 0; i < ext.size(); ++i) x += (i ? "," : "") + bytes(ext[i].get(), size[i]);
    for (size_t i = 0; i < ref.size(); ++i) {
      const FeatureDescriptorRef& d = *ref[i];
      r += std::string(i ? "," : "") + "[" + (d.data() ? "true" : "false") + "," + bytes(d.data(), d.data() ? d.size() : 0) + "]";
    }
    seq::emit(j.raw("ext", x + "]").raw("refs", r + "]"));
  }
};

void refOp(World& w, const std::vector<std::string>& f) {
  const std::string& o = f[1];
  auto n = [&](size_t i) { return std::stoi(f.at(i)); };
  const int i = n(2) - 1;
  auto& d = w.ref[i];
  J j;
  j.s("e", "ref").s("o", o).i("i", i + 1);
  auto fill = [&](int seed) {
    seq::Rng r(seed);
    for (size_t k = 0; k < d->size(); ++k) (*d)[k] = r.below(256);
  };
  if (o == "own") {
    d.reset(new FeatureDescriptorRef(static_cast<uint32_t>(n(3))));
    fill(n(4));
    j.raw("bytes", bytes(d->data(), d->size()));
  } else if (o == "ext") {
    d.reset(new FeatureDescriptorRef(w.ext[n(3) - 1].get(), w.size[n(3) - 1], false));
    j.i("k", n(3));
  } else if (o == "drop") {
    d.reset(new FeatureDescriptorRef());
  } else if (o == "copy") {
    d.reset(new FeatureDescriptorRef(FeatureDescriptorRef(*w.ref[n(3) - 1])));
    j.i("k", n(3));
  } else if (o == "assign") {
    *d = *w.ref[n(3) - 1];
    j.i("k", n(3));
  } else if (o == "allocate") {
    const unsigned char* before = d->data();
    const bool had = before != nullptr;
    const std::string old = bytes(before, had ? d->size() : 0);
    const size_t oldsize = d->size();
    d->Allocate(n(3));
    const bool kept = had && oldsize == static_cast<size_t>(n(3)) && d->data() == before && bytes(d->data(), d->size()) == old;
    if (!kept) fill(n(4));
    j.i("n", n(3)).b("kept", kept).raw("bytes", bytes(d->data(), d->size()));
  } else if (o == "set") {
    const bool ok = seq::acceptedHere([&] { SetBit(n(3), d.get()); });
    j.i("b", n(3)).b("ok", ok);
  } else if (o == "flip") {
    const bool ok = seq::acceptedHere([&] { FlipBit(n(3), d.get()); });
    j.i("b", n(3)).b("ok", ok);
  } else if (o == "get") {
    bool res = false;
    const bool ok = seq::acceptedHere([&] { res = GetBit(n(3), d->ToConstRef()); });
    j.i("b", n(3)).b("ok", ok).b("res", res);
  } else if (o == "at") {
    int res = -1;
    const FeatureDescriptorRef& c = *d;
    const bool ok = seq::acceptedHere([&] { res = c[n(3)]; });
    j.i("b", n(3)).b("ok", ok).i("res", res);
  } else if (o == "zero") {
    d->SetZero();
  } else if (o == "random") {
    d->SetRandom(n(3));
    FeatureDescriptorRef other(d->size());
    other.SetZero();
    other.SetRandom(n(3));
    j.raw("bytes", bytes(d->data(), d->size())).raw("again", bytes(other.data(), other.size()));
  } else if (o == "flipn") {
    const bool ok = seq::acceptedHere([&] { FlipNRandomBits(n(3), d.get()); });
    j.i("n", n(3)).b("ok", ok).raw("bytes", bytes(d->data(), d->size()));
  } else if (o == "equal") {
    const bool r = *d == *w.ref[n(3) - 1], r2 = *w.ref[n(3) - 1] == *d;
    j.i("k", n(3)).raw("res", r == r2 ? (r ? "true" : "false") : "\"asymmetric\"");
  } else if (o == "dist") {
    size_t r = 0, r2 = 0;
    const bool ok = seq::acceptedHere([&] { r = GetNumBitsDifferent(*d, *w.ref[n(3) - 1]); });
    if (ok) r2 = GetNumBitsDifferent(w.ref[n(3) - 1]->ToConstRef(), d->ToConstRef());
    j.i("k", n(3)).b("ok", ok).i("res", r == r2 ? r : -1);
  } else if (o == "mean") {
    std::vector<FeatureDescriptorRef*> of;
    std::vector<int> ix;
    for (size_t k = 3; k < f.size(); ++k) { of.push_back(w.ref[n(k) - 1].get()); ix.push_back(n(k)); }
    const bool ok = seq::acceptedHere([&] { DescriptorMean(of, d.get()); });
    j.list("of", ix).b("ok", ok);
  }
  w.emit(j);
}

void body(const std::string& program) {
  World w;
  std::istringstream in(program);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> f;
    { std::istringstream t(tok); std::string x; while (std::getline(t, x, ':')) f.push_back(x); }
    auto n = [&](size_t i) { return std::stoi(f.at(i)); };
    switch (f[0][0]) {
      case 'N': {
        for (int i = 0; i < n(1); ++i) w.ref.emplace_back(new FeatureDescriptorRef);
        std::istringstream t(f.size() > 2 ? f[2] : "");
        for (std::string x; std::getline(t, x, ',');) {
          w.size.push_back(std::stoi(x));
          w.ext.emplace_back(new unsigned char[w.size.back()]);
          seq::Rng r(w.size.size());
          for (size_t i = 0; i < w.size.back(); ++i) w.ext.back()[i] = r.below(256);
        }
        J j;
        w.emit(j.s("e", "new").i("n", n(1)));
        break;
      }
      case 'R': refOp(w, f); break;
      case 'B': {
        const int rows = n(1), cols = n(2);
        seq::Rng r(n(4));
        du::DescriptorsType m(rows, cols);
        for (int c = 0; c < cols; ++c) for (int k = 0; k < rows; ++k) m(k, c) = byte(r, n(3));
        du::DescriptorType mean(3);
        size_t closest = 999;
        double absdev = 0, sd = 0;
        Eigen::VectorXd fm;
        std::vector<long long> votes, tomean;
        const bool ok = seq::acceptedHere([&] {
          du::descriptorMeanRoundedToBinaryValue(m, &mean);
          du::getIndexOfDescriptorClosestToMedian(m, &closest);
          absdev = du::descriptorMeanAbsoluteDeviation(m);
          du::floatDescriptorMean(m, &fm);
          for (int b = 0; b < fm.size(); ++b) votes.push_back(whole(fm(b) * cols));
          for (int c = 0; c < cols; ++c) {
            const du::DescriptorType d = m.col(c);
            tomean.push_back(whole(du::differenceToMeanSquaredNorm(d, fm) * cols * cols));
          }
          sd = du::descriptorMeanStandardDeviation(m);
        });
        seq::emit(J().s("e", "bulk").i("rows", rows).raw("ds", columns(m)).b("ok", ok).raw("mean", bytes(mean.data(), mean.size()))
                  .i("closest", closest).i("absdev", whole(absdev * cols)).list("votes", votes).i("var", whole(sd * sd * cols * cols)).list("tomean", tomean));
        break;
      }
      case 'D': {
        // The distance to the first column, by each of the ways to ask for it, at an offset from alignment.
        const int rows = n(1), cols = n(2), off = f.size() > 5 ? n(5) : 0;
        seq::Rng r(n(4));
        du::DescriptorsType m(rows, cols);
        for (int c = 0; c < cols; ++c) for (int k = 0; k < rows; ++k) m(k, c) = byte(r, n(3));
        std::vector<long long> dists;
        std::unique_ptr<unsigned char[]> x(new unsigned char[rows + off]), y(new unsigned char[rows + off]);
        memcpy(x.get() + off, m.col(0).data(), rows);
        Hamming hamming;
        for (int c = 0; c < cols; ++c) {
          memcpy(y.get() + off, m.col(c).data(), rows);
          const int d = Hamming::evaluate(x.get() + off, y.get() + off, rows), d2 = hamming(y.get() + off, x.get() + off, rows);
          const FeatureDescriptorConstRef a(x.get() + off, rows), b(y.get() + off, rows);
          const int d3 = GetNumBitsDifferent(a, b);
          bool words = true;
          if (rows % 16 == 0 && rows > 0) words = static_cast<int>(Hamming::PopcntofXORed(x.get() + off, y.get() + off, rows / 16)) == d;
          dists.push_back(d == d2 && d == d3 && words ? d : -1);
        }
        seq::emit(J().s("e", "dists").raw("ds", columns(m)).list("dists", dists));
        break;
      }
      case 'b': {
        seq::Rng r(n(3));
        du::DescriptorType d(n(1));
        for (int k = 0; k < n(1); ++k) d(k) = r.below(256);
        du::DescriptorType a = d;
        bool res = false;
        const bool ok = seq::acceptedHere([&] { res = du::getBit(n(2), d); });
        const bool ok2 = seq::acceptedHere([&] { du::setBit(n(2), &a); });
        seq::emit(J().s("e", "bits").raw("d", bytes(d.data(), d.size())).i("b", n(2)).raw("ok", ok == ok2 ? (ok ? "true" : "false") : "\"mixed\"")
                  .b("res", res).raw("after", bytes(a.data(), a.size())));
        break;
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

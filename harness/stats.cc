// Drives timers and statistics sequentially.  Registry r: 0 timing, 1 statistics; '@' in a tag stands for ':'.  Tokens:
//   c:ns advance the clock   h:r:tag handle   H:tag has   g:r:k tag of the k-th handle seen
//   a:tag:x sample   I:tag increment   A:k:x sample through the k-th handle   b:tag:n:seed many samples
//   m:i:tag:on make timer i   s:i start   p:i stop   d:i discard   x:i destroy   t:i timing?
//   f:r:tag figures (F:r:k by handle)   P:r print   Y:r yaml   R:r reset   q:w:n:seed stand-alone accumulator
#include "seq/seq.h"
#include "stats_world.h"

#include <memory>

namespace {
using seq::J;
using sw::S;
using sw::T;

struct World {
  std::vector<size_t> hs[2];
  std::vector<std::string> tags;
  std::map<int, std::unique_ptr<timing::TimerImpl>> timers;
};

std::string real(std::string t) { for (char& c : t) if (c == '@') c = ':'; return t; }
long long sc(double v, double unit) { const double x = v * unit; return std::isfinite(x) && std::abs(x) < 1e15 ? llround(x) : 0; }

void handle(World* w, int r, const std::string& g, size_t h) {
  bool known = false;
  for (size_t x : w->hs[r]) known = known || x == h;
  if (!known) w->hs[r].push_back(h);
  seq::emit(J().s("e", "handle").i("r", r).s("g", g).i("h", h));
}
size_t lookup(World* w, int r, const std::string& g) {
  const size_t h = r == 0 ? T::GetHandle(g) : S::GetHandle(g);
  handle(w, r, g, h);
  return h;
}
void figures(int r, size_t h, const std::string* tag) {
  J f;
#define GET(F) (tag ? F(*tag) : F(h))
  if (r == 0) {
    const double u = 1e9;
    const double hz = GET(T::GetHz);
    f.i("n", GET(T::GetNumSamples)).i("sum", sc(GET(T::GetTotalSeconds), u)).i("mean", sc(GET(T::GetMeanSeconds), 100 * u))
     .i("min", sc(GET(T::GetMinSeconds), u)).i("max", sc(GET(T::GetMaxSeconds), u)).i("var", sc(GET(T::GetVarianceSeconds), 10 * u * u))
     .i("win", std::isinf(hz) ? 0 : sc(1 / hz, 100 * u));
  } else {
    const double u = 1e9;
    const double hz = GET(S::GetHz);
    f.i("n", GET(S::GetNumSamples)).i("sum", sc(GET(S::GetTotal), 1)).i("mean", sc(GET(S::GetMean), 100))
     .i("min", sc(GET(S::GetMin), 1)).i("max", sc(GET(S::GetMax), 1)).i("var", sc(GET(S::GetVariance), 10))
     .i("last", sc(GET(S::GetLastValue), 1)).i("dtmean", sc(GET(S::GetMeanDeltaTime), 100 * u))
     .i("dtmin", sc(GET(S::GetMinDeltaTime), u)).i("dtmax", sc(GET(S::GetMaxDeltaTime), u))
     .i("dtlast", sc(GET(S::GetLastDeltaTime), u)).i("dtvar", sc(GET(S::GetVarianceDeltaTime), 10 * u * u))
     .i("period", hz < 0 ? 0 : sc(1 / hz, 100 * u));
  }
#undef GET
  seq::emit(J().s("e", "figures").i("r", r).i("h", h).raw("f", f.str()));
}
template <int W> void accumulate(int w, const std::vector<int>& xs) {
  statistics::Accumulator<double, double, W> a;
  for (int x : xs) a.Add(x);
  J f;
  f.i("n", a.total_samples()).i("sum", sc(a.sum(), 1)).i("mean", sc(a.Mean(), 100)).i("min", sc(a.min(), 1)).i("max", sc(a.max(), 1))
   .i("last", sc(a.GetMostRecent(), 1)).i("win", xs.empty() ? 0 : sc(a.RollingMean(), 100)).i("var", sc(a.LazyVariance(), 10));
  std::vector<long long> kept;
  for (double x : a.GetSamples()) kept.push_back(llround(x));
  const bool sd = std::abs(a.StandardDeviation() * a.StandardDeviation() - a.LazyVariance()) < 1e-6;
  seq::emit(J().s("e", sd ? "acc" : "bad").i("w", w).list("s", xs).raw("f", f.str()).list("kept", kept));
}

void body(const std::string& line) {
  sw::now = 0;
  T::Reset();
  S::Reset();
  World w;
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> f;
    std::stringstream ss(tok);
    for (std::string x; std::getline(ss, x, ':');) f.push_back(x);
    auto n = [&](size_t i) { return std::stoi(f.at(i)); };
    auto tag = [&](size_t i) { const std::string t = real(f.at(i)); w.tags.push_back(t); return t; };
    switch (f[0][0]) {
      case 'c': sw::now += n(1); break;
      case 'h': lookup(&w, n(1), tag(2)); break;
      case 'H': { const std::string g = tag(1); seq::emit(J().s("e", "has").i("r", 1).s("g", g).b("res", S::HasHandle(g))); break; }
      case 'g': {
        const int r = n(1);
        if (w.hs[r].empty()) break;
        const size_t h = w.hs[r][n(2) % w.hs[r].size()];
        seq::emit(J().s("e", "tag").i("r", r).i("h", h).s("res", r == 0 ? T::GetTag(h) : S::GetTag(h)));
        break;
      }
      case 'a': case 'I': case 'b': {
        const std::string g = tag(1);
        statistics::StatsCollectorImpl c(g);
        handle(&w, 1, g, c.GetHandle());
        seq::Rng rng(f.size() > 3 ? n(3) : 0);
        const int cnt = f[0][0] == 'b' ? n(2) : 1;
        for (int i = 0; i < cnt; ++i) {
          int x = f[0][0] == 'b' ? rng.below(31) - 15 : 1;
          if (f[0][0] == 'b') sw::now += rng.below(6);
          if (f[0][0] == 'I') c.IncrementOne();
          else { if (f[0][0] == 'a') x = n(2); c.AddSample(x); }
          seq::emit(J().s("e", "add").i("h", c.GetHandle()).i("x", x).i("now", sw::now));
        }
        break;
      }
      case 'A': {
        if (w.hs[1].empty()) break;
        statistics::StatsCollectorImpl c(w.hs[1][n(1) % w.hs[1].size()]);
        c.AddSample(n(2));
        seq::emit(J().s("e", "add").i("h", c.GetHandle()).i("x", n(2)).i("now", sw::now));
        break;
      }
      case 'm': {
        if (w.timers.count(n(1))) break;
        const std::string g = tag(2);
        auto& t = w.timers[n(1)];
        if (n(3)) t.reset(new timing::TimerImpl(g));
        else t.reset(new timing::TimerImpl(g, true));
        const size_t h = t->GetHandle();
        bool known = false;
        for (size_t x : w.hs[0]) known = known || x == h;
        if (!known) w.hs[0].push_back(h);
        seq::emit(J().s("e", "make").i("i", n(1)).s("g", g).i("h", h).b("on", n(3) != 0).i("now", sw::now));
        break;
      }
      case 's': case 'p': case 'd': case 'x': case 't': {
        if (!w.timers.count(n(1))) break;
        auto& t = w.timers[n(1)];
        J j;
        switch (f[0][0]) {
          case 's': t->Start(); j.s("e", "start"); break;
          case 'p': { const double d = t->Stop(); j.s("e", "stop").i("res", sc(d, 1e9)); break; }
          case 'd': t->Discard(); j.s("e", "discard"); break;
          case 'x': w.timers.erase(n(1)); j.s("e", "destroy"); break;
          case 't': j.s("e", "timing").b("res", t->IsTiming()).i("h", t->GetHandle()); break;
        }
        seq::emit(j.i("i", n(1)).i("now", sw::now));
        break;
      }
      case 'f': { const std::string g = tag(2); figures(n(1), lookup(&w, n(1), g), &g); break; }
      case 'F': if (!w.hs[n(1)].empty()) figures(n(1), w.hs[n(1)][n(2) % w.hs[n(1)].size()], nullptr); break;
      case 'P': seq::emit(J().s("e", "print").i("r", n(1)).raw("res", sw::json(sw::parseListing(sw::listing(n(1)))))); break;
      case 'Y': {
        const std::string p = sw::yamlPath();
        unlink(p.c_str());
        n(1) == 0 ? T::WriteToYamlFile(p) : S::WriteToYamlFile(p);
        seq::emit(J().s("e", "yaml").i("r", n(1)).raw("res", sw::json(sw::parseYaml(n(1), p, w.tags))));
        break;
      }
      case 'R': n(1) == 0 ? T::Reset() : S::Reset(); seq::emit(J().s("e", "reset").i("r", n(1))); break;
      case 'q': {
        std::vector<int> xs;
        seq::Rng rng(n(3));
        for (int i = 0; i < n(2); ++i) xs.push_back(rng.below(31) - 15);
        switch (n(1)) {
          case 0: accumulate<statistics::kInfiniteWindowSize>(0, xs); break;
          case 1: accumulate<1>(1, xs); break;
          case 2: accumulate<2>(2, xs); break;
          case 3: accumulate<3>(3, xs); break;
          case 7: accumulate<7>(7, xs); break;
        }
        break;
      }
    }
  }
  while (!w.timers.empty()) {
    const int i = w.timers.begin()->first;
    w.timers.erase(i);
    seq::emit(J().s("e", "destroy").i("i", i).i("now", sw::now));
  }
  for (int r = 0; r < 2; ++r) {
    seq::emit(J().s("e", "print").i("r", r).raw("res", sw::json(sw::parseListing(sw::listing(r)))));
    for (size_t h : w.hs[r]) figures(r, h, nullptr);
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

// Drives channel groups sequentially.  Program: tokens op:g[:name:type[:value]] over groups 0..2;
// upper case letters use the typed accessors of the channel where they exist.
//   a/A add   g/G get   w/W write   h/H has   r remove   c clone into   s copy into (sharing)   e equal   p print
#include "channel_world.h"
#include "seq/probe.h"

namespace {
using seq::J;
struct World { cw::ch::ChannelGroup g[3]; };

void done(J j, const World& w) {
  seq::emit(j.raw("all", "[" + cw::contents(w.g[0]) + "," + cw::contents(w.g[1]) + "," + cw::contents(w.g[2]) + "]"));
}

struct Op {
  World* w;
  cw::ch::ChannelGroup* g;
  std::string n;
  bool typed;
  int k;
};
struct Add : Op { template <typename T> void operator()(T*) { T& t = cw::addTyped<T>(n, g, typed); cw::make(k, &t); } };
struct Get : Op { std::vector<int>* out; template <typename T> void operator()(T*) { *out = cw::enc(cw::getTyped<T>(n, *g, typed)); } };
struct Write : Op { template <typename T> void operator()(T*) { cw::make(k, &cw::getTyped<T>(n, *g, typed)); } };
struct Made { int k; std::vector<int>* out; template <typename T> void operator()(T*) { *out = cw::made<T>(k); } };

template <typename O> bool attempt(int type, O op) {
  if (!seq::accepted([&] { cw::dispatch(type, op); })) return false;
  cw::dispatch(type, op);
  return true;
}

void body(const std::string& line) {
  World w;
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> f;
    std::stringstream ss(tok);
    for (std::string x; std::getline(ss, x, ':');) f.push_back(x);
    const char c = f[0][0];
    const bool typed = c >= 'A' && c <= 'Z';
    const int gi = f[1][0] - '0';
    Op o{&w, &w.g[gi], f.size() > 2 ? f[2] : "", typed, f.size() > 4 ? std::stoi(f[4]) : 0};
    const int type = f.size() > 3 ? std::stoi(f[3]) : 0;
    J j;
    std::vector<int> v;
    switch (tolower(c)) {
      case 'a': {
        cw::dispatch(type, Made{o.k, &v});
        Add a; static_cast<Op&>(a) = o;
        const bool ok = attempt(type, a);
        done(j.s("e", "add").i("g", gi).s("n", o.n).list("v", v).b("ok", ok), w);
        break;
      }
      case 'g': {
        Get a; static_cast<Op&>(a) = o; a.out = &v;
        const bool ok = attempt(type, a);
        done(j.s("e", "get").i("g", gi).s("n", o.n).i("ty", type).b("ok", ok).list("v", v), w);
        break;
      }
      case 'w': {
        cw::dispatch(type, Made{o.k, &v});
        Write a; static_cast<Op&>(a) = o;
        const bool ok = attempt(type, a);
        done(j.s("e", "write").i("g", gi).s("n", o.n).list("v", v).b("ok", ok), w);
        break;
      }
      case 'h': {
        const cw::Named* nm = cw::named(o.n);
        const bool r = typed && nm ? nm->has(*o.g) : cw::ch::hasChannel(o.n, *o.g);
        done(j.s("e", "has").i("g", gi).s("n", o.n).b("res", r), w);
        break;
      }
      case 'r': {
        const cw::Named* nm = cw::named(o.n);
        if (!nm) break;
        const bool ok = seq::accepted([&] { nm->remove(o.g); });
        if (ok) nm->remove(o.g);
        done(j.s("e", "remove").i("g", gi).s("n", o.n).b("ok", ok), w);
        break;
      }
      case 'c': {
        const int t = f[2][0] - '0';
        w.g[t] = cw::ch::cloneChannelGroup(*o.g);
        done(j.s("e", "clone").i("g", gi).i("h", t), w);
        break;
      }
      case 's': {
        const int t = f[2][0] - '0';
        w.g[t] = *o.g;
        done(j.s("e", "share").i("g", gi).i("h", t), w);
        break;
      }
      case 'e': {
        const int t = f[2][0] - '0';
        int res = -1;  // refused
        if (seq::accepted([&] { cw::ch::isChannelGroupEqual(*o.g, w.g[t]); })) res = cw::ch::isChannelGroupEqual(*o.g, w.g[t]);
        done(j.s("e", "equal").i("g", gi).i("h", t).i("res", res), w);
        break;
      }
      case 'p': done(j.s("e", "print").i("g", gi).raw("res", cw::jnames(cw::printed(*o.g))), w); break;
    }
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

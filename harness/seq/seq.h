// Runs sequential client programs against the real code, one line of the program file each, in worker
// processes, and records what they observed.  A process that dies or hangs yields a trace that ends with a
// "crash" or "hang" event.
#ifndef VERIF_SEQ_H_
#define VERIF_SEQ_H_
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace seq {

// JSON object under construction.
class J {
 public:
  J& raw(const char* k, const std::string& v) {
    s_ += (s_.empty() ? "\"" : ",\"") + std::string(k) + "\":" + v;
    return *this;
  }
  J& i(const char* k, long long v) { return raw(k, std::to_string(v)); }
  J& b(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
  J& s(const char* k, const std::string& v);                       // printable text
  J& text(const char* k, const std::string& v);                    // any bytes, as a list of codes
  template <typename C> J& list(const char* k, const C& c) {
    std::string r = "[";
    bool first = true;
    for (const auto& x : c) { if (!first) r += ","; first = false; r += std::to_string(static_cast<long long>(x)); }
    return raw(k, r + "]");
  }
  J& objs(const char* k, const std::vector<std::string>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i];
    return raw(k, r + "]");
  }
  std::string str() const { return "{" + s_ + "}"; }
 private:
  std::string s_;
};

std::string quote(const std::string& s);
std::string hex(const void* p, size_t n);        // bytes as hexadecimal text, e.g. of a double: exact equality
void emit(const J& j);                           // appends one event to the trace of the current program
void extra(const std::string& members);          // additional JSON members of the trace, e.g. "\"n\":3"
// Deterministic random numbers for a program (seeded by its text or a number in it).
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
  int below(int n) { return static_cast<int>((next() >> 33) % static_cast<uint64_t>(n)); }
};

// drv <out_dir> <programs> | drv replay "<program>"
int run(int argc, char** argv, const std::function<void(const std::string&)>& body);

}  // namespace seq
#endif

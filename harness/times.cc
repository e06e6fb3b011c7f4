// Drives the time conversions.  Tokens: t:n text and validity   w:n whole units   r:n to units   f:m:k from m * 2^-k units   now
#include <limits>
#include <string>
#include "aslam/common/time.h"
#include "seq/seq.h"
#include <cmath>
#include <ctime>
#include <sstream>

namespace {
using seq::J;
namespace at = aslam::time;

std::string digits(const std::string& s) {
  std::string r = "[";
  bool first = true;
  for (char c : s) if (c >= '0' && c <= '9') { r += (first ? "" : ",") + std::string(1, c); first = false; }
  return r + "]";
}
std::string num(int64_t v) { return std::string("[") + (v < 0 ? "true" : "false") + "," + digits(std::to_string(v)) + "]"; }
std::string real(double v, int places) {
  char buf[600];
  snprintf(buf, sizeof(buf), "%.*f", places, v);
  std::string t(buf);
  const size_t p = t.find_first_of("123456789");
  return std::string("[") + (v < 0 ? "true" : "false") + "," + (p == std::string::npos ? "[]" : digits(t.substr(p))) + "," + std::to_string(places) + "]";
}

void body(const std::string& program) {
  std::istringstream in(program);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> f;
    { std::istringstream t(tok); std::string x; while (std::getline(t, x, ':')) f.push_back(x); }
    const int64_t n = f.size() > 1 ? std::stoll(f[1]) : 0;
    switch (f[0][0]) {
      case 't':
        seq::emit(J().s("e", "text").raw("t", num(n)).text("text", at::timeNanosecondsToString(n)));
        seq::emit(J().s("e", "valid").raw("t", num(n)).b("res", at::isValidTime(n)).raw("marker", num(at::getInvalidTime())));
        break;
      case 'w': {
        auto w = [&](int p, int64_t r) { seq::emit(J().s("e", "whole").raw("v", num(n)).i("p", p).raw("res", num(r))); };
        w(9, at::seconds(n));
        w(6, at::milliseconds(n));
        w(3, at::microseconds(n));
        w(0, at::nanoseconds(n));
        constexpr int64_t c = at::seconds(3);
        seq::emit(J().s("e", "whole").raw("v", num(3)).i("p", 9).raw("res", num(c)));
        break;
      }
      case 'r': {
        auto w = [&](int p, double r) { seq::emit(J().s("e", "to").raw("t", num(n)).i("p", p).raw("res", real(r, 110))); };
        w(9, at::to_seconds(n));
        w(6, at::to_milliseconds(n));
        w(3, at::to_microseconds(n));
        w(9, at::nanoSecondsToSeconds(n));
        break;
      }
      case 'f': {
        const double v = std::ldexp(static_cast<double>(n), -std::stoi(f[2]));
        auto w = [&](int p, int64_t r) { seq::emit(J().s("e", "from").raw("v", real(v, 62)).i("p", p).raw("res", num(r))); };
        if (std::abs(v) < 9.2e9) w(9, at::from_seconds(v)), w(9, at::secondsToNanoSeconds(v));
        if (std::abs(v) < 9.2e12) w(6, at::from_milliseconds(v));
        w(3, at::from_microseconds(v));
        break;
      }
      case 'n': {
        timespec a, b;
        clock_gettime(CLOCK_REALTIME, &a);
        const int64_t now = at::nanoSecondsSinceEpoch();
        clock_gettime(CLOCK_REALTIME, &b);
        auto ns = [](const timespec& t) { return static_cast<int64_t>(t.tv_sec) * 1000000000 + t.tv_nsec; };
        seq::emit(J().s("e", "now").raw("before", num(ns(a))).raw("now", num(now)).raw("after", num(ns(b))));
        break;
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

// Drives identifiers.  Program: tokens over four registers
//   g<r> generateId  c<r> createRandomId  R<r> HashId::random  n<r>:<int> generateIdFromInt  k<r> setInvalid
//   h<r>:<text bytes in hex> fromHexString     f<r>:<32 hex digits> load raw words (not an API result under test)
//   a<r><s> r := s (copy)  u<r><s> r := s through uint64 pair  p<r><s> through the wire message
//   t<r><s> through another identifier type    b<n> deserialize a wire message with n words
//   x<r> textual forms     q<r><s> comparisons and hashes
#include <sstream>

#include <aslam/common/unique-id.h>

#include "seq/probe.h"
#include "seq/seq.h"

namespace {
using seq::J;

std::vector<int> bytesOf(const uint64_t w[2]) {
  std::vector<int> b;
  for (int k = 0; k < 2; ++k) for (int i = 0; i < 8; ++i) b.push_back((w[k] >> (8 * i)) & 255);
  return b;
}
std::vector<int> bytesOf(const aslam::HashId& h) {
  uint64_t w[2];
  h.toUint64(w);
  return bytesOf(w);
}
std::string unhex(const std::string& s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
std::string hashText(size_t h) { return std::to_string(h); }

struct World { aslam::HashId reg[4]; };

J event(const char* o, const World& w) {
  J j;
  j.s("e", o);
  std::string r = "[";
  for (int i = 0; i < 4; ++i) {
    J k;
    k.list("b", bytesOf(w.reg[i]));
    r += (i ? "," : "") + k.str().substr(5, k.str().size() - 6);
  }
  return j.raw("regs", r + "]");
}

template <typename T> T as(const aslam::HashId& h) { T t; t.fromHashId(h); return t; }

void body(const std::string& line) {
  World w;
  std::istringstream in(line);
  std::string t;
  while (in >> t) {
    const int r = t.size() > 1 ? t[1] - '0' : 0, s = t.size() > 2 && t[2] != ':' ? t[2] - '0' : 0;
    const std::string arg = t.find(':') == std::string::npos ? "" : t.substr(t.find(':') + 1);
    aslam::HashId& x = w.reg[r];
    switch (t[0]) {
      case 'g': { aslam::FrameId id; aslam::generateId(&id); id.toHashId(&x); seq::emit(event("gen", w).i("r", r)); break; }
      case 'c': { aslam::createRandomId<aslam::NFramesId>().toHashId(&x); seq::emit(event("gen", w).i("r", r)); break; }
      case 'R': { x = aslam::HashId::random(); seq::emit(event("gen", w).i("r", r)); break; }
      case 'n': {
        aslam::SensorId id;
        aslam::generateIdFromInt(static_cast<unsigned>(std::stoul(arg)), &id);
        id.toHashId(&x);
        seq::emit(event("int", w).i("r", r).i("n", std::stol(arg)));
        break;
      }
      case 'k': { aslam::FrameId id = as<aslam::FrameId>(x); id.setInvalid(); id.toHashId(&x); seq::emit(event("clear", w).i("r", r)); break; }
      case 'f': {
        const std::string raw = unhex(arg);
        uint64_t v[2] = {0, 0};
        std::vector<int> b;
        for (int i = 0; i < 16; ++i) {
          v[i / 8] |= static_cast<uint64_t>(static_cast<unsigned char>(raw[i])) << (8 * (i % 8));
          b.push_back(static_cast<unsigned char>(raw[i]));
        }
        if (s) x.fromUint64(v); else x = aslam::HashId(v);
        seq::emit(event("load", w).i("r", r).list("v", b));
        break;
      }
      case 'h': {
        const std::string text = unhex(arg);
        int ok = -1;
        bool viaId = text.size() % 2 == 0;
        aslam::FrameId id = as<aslam::FrameId>(x);
        if (seq::accepted([&] { aslam::HashId y; y.fromHexString(text); })) {
          if (viaId) { ok = id.fromHexString(text); id.toHashId(&x); } else { ok = x.fromHexString(text); }
        }
        seq::emit(event("parse", w).i("r", r).text("txt", text).i("ok", ok));
        break;
      }
      case 'a': { aslam::HashId y(w.reg[s]); x = y; seq::emit(event("copy", w).i("r", r).i("s", s)); break; }
      case 'u': { uint64_t v[2]; w.reg[s].toUint64(v); x.fromUint64(v); seq::emit(event("copy", w).i("r", r).i("s", s)); break; }
      case 't': {
        const aslam::Id id = as<aslam::Id>(w.reg[s]);
        const aslam::FrameId f = id.toIdType<aslam::FrameId>();
        f.toIdType<aslam::SensorId>().toHashId(&x);
        seq::emit(event("copy", w).i("r", r).i("s", s));
        break;
      }
      case 'p': {
        aslam::proto::Id m;
        m.add_uint(17);  // replaced by serialize
        as<aslam::FrameId>(w.reg[s]).serialize(&m);
        std::string wire;
        m.SerializeToString(&wire);
        aslam::proto::Id m2;
        const bool parsed = m2.ParseFromString(wire);
        const bool two = m2.uint_size() == 2;
        std::vector<int> msg;
        bool corr = false;
        if (two) {
          const uint64_t v[2] = {m2.uint(0), m2.uint(1)};
          msg = bytesOf(v);
          corr = as<aslam::Id>(w.reg[s]).correspondsTo(m2);
          if (r % 2) { aslam::NFramesId id(m2); id.toHashId(&x); }
          else { aslam::NFramesId id; id.deserialize(m2); id.toHashId(&x); }
        }
        seq::emit(event("wire", w).i("r", r).i("s", s).b("ok", parsed && two).b("corr", corr).list("msg", msg));
        break;
      }
      case 'b': {
        aslam::proto::Id m;
        for (int i = 0; i < r; ++i) m.add_uint(i + 1);
        const bool ok = seq::accepted([&] { aslam::FrameId id; id.deserialize(m); });
        seq::emit(event("badwire", w).i("n", r).b("ok", ok));
        break;
      }
      case 'x': {
        const aslam::FrameId id = as<aslam::FrameId>(x);
        std::ostringstream o1, o2;
        o1 << x;
        o2 << as<aslam::Id>(x);
        seq::emit(event("text", w).i("r", r).text("hex", x.hexString()).text("idhex", id.hexString())
                      .text("brief", x.shortHex()).text("print", id.printString()).text("o1", o1.str()).text("o2", o2.str())
                      .b("valid", x.isValid()).b("idvalid", id.isValid()));
        break;
      }
      case 'q': {
        const aslam::HashId& y = w.reg[s];
        const aslam::FrameId a = as<aslam::FrameId>(x), b = as<aslam::FrameId>(y);
        const aslam::Id ia = as<aslam::Id>(x), ib = as<aslam::Id>(y);
        seq::emit(event("cmp", w).i("r", r).i("s", s)
            .raw("eq", std::string("[") + (x == y ? "1" : "0") + "," + (a == b ? "1" : "0") + "," + (a == ib ? "1" : "0") + "," + (ia == ib ? "1" : "0") + "]")
            .raw("ne", std::string("[") + (x != y ? "1" : "0") + "," + (a != b ? "1" : "0") + "," + (a != ib ? "1" : "0") + "," + (ia != ib ? "1" : "0") + "]")
            .raw("lt", std::string("[") + (x < y ? "1" : "0") + "," + (a < b ? "1" : "0") + "," + (a < ib ? "1" : "0") + "," + (ia < ib ? "1" : "0") + "]")
            .raw("gt", std::string("[") + (x > y ? "1" : "0") + "," + (ia > ib ? "1" : "0") + "]")
            .raw("h", "[" + seq::quote(hashText(std::hash<aslam::HashId>()(x)) + "/" + hashText(std::hash<aslam::FrameId>()(a)) + "/" + hashText(x.hashToSizeTFast()) + "/" + hashText(std::hash<aslam::Id>()(ia))) + "," +
                             seq::quote(hashText(std::hash<aslam::HashId>()(y)) + "/" + hashText(std::hash<aslam::FrameId>()(b)) + "/" + hashText(y.hashToSizeTFast()) + "/" + hashText(std::hash<aslam::Id>()(ib))) + "]"));
        break;
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

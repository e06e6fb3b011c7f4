// Drives aslam::SimpleTrackManager, ThreadSafeIdProvider and the insertion of detected keypoints over frames 0..2.
//   n:f:codes:ids|-   new frame ("-": no track channel)   a:f:g:i-j,...:m  apply matches with manager m    c:f  create the channel
//   r  reset the identifiers   e:f  new frame without anything   i/x:f:codes:unc:rows:type  insert into an empty frame, append
//   p:k:v  new provider k from v   P:k  new identifier   Q:k  reset
#include "tracks_world.h"

#include <aslam/tracker/tracking-helpers.h>

#include <sstream>

#include "seq/probe.h"

using namespace tracks;
namespace {
void body(const std::string& line) {
  std::unique_ptr<VisualFrame> f[3];
  aslam::SimpleTrackManager manager[2];
  std::unique_ptr<aslam::ThreadSafeIdProvider<size_t>> provider[2];
  for (auto& x : f) x = makeFrame({}, false, {});
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> p;
    std::stringstream ss(tok + ":");
    for (std::string x; std::getline(ss, x, ':');) p.push_back(x);
    p.resize(8);
    auto I = [&](int k) { return p[k].empty() ? 0 : std::stoi(p[k]); };
    J j;
    bool ok = true;
    switch (p[0][0]) {
      case 'n':
        f[I(1)] = makeFrame(ints(p[2]), p[3] != "-", p[3] == "-" ? Ints() : ints(p[3]));
        j.s("e", "frame").i("f", I(1)).list("kp", ints(p[2])).b("has", p[3] != "-").list("track", p[3] == "-" ? Ints() : ints(p[3]));
        break;
      case 'e': f[I(1)].reset(new VisualFrame); j.s("e", "frame").i("f", I(1)).list("kp", Ints()).b("has", false).list("track", Ints()); break;
      case 'a': {
        std::vector<std::string> m;
        const aslam::FrameToFrameMatches list = matches(p[3], &m);
        aslam::TrackManager& t = manager[I(4)];
        ok = seq::acceptedHere([&] { t.applyMatchesToFrames(list, f[I(1)].get(), f[I(2)].get()); });
        j.s("e", "apply").i("f", I(1)).i("g", I(2)).objs("m", m);
        break;
      }
      case 'c': {
        Eigen::VectorXi* c = nullptr;
        ok = seq::acceptedHere([&] { c = aslam::TrackManager::createAndGetTrackIdChannel(f[I(1)].get()); });
        j.s("e", "channel").i("f", I(1)).b("same", ok && c == f[I(1)]->getTrackIdsMutable());
        break;
      }
      case 'r': aslam::TrackManager::resetIdProvider(); j.s("e", "reset"); break;
      case 'i':
      case 'x': {
        const Ints codes = ints(p[2]);
        const int rows = p[4].empty() ? static_cast<int>(codes.size()) : I(4);
        std::vector<cv::KeyPoint> kp;
        for (int c : codes) kp.emplace_back(cv::Point2f(c, c + 1000), c + 0.5f, c + 0.25f, c + 0.75f);
        cv::Mat d(rows, 4, I(5) ? CV_16UC1 : CV_8UC1, cv::Scalar(0));
        if (!I(5)) for (int r = 0; r < rows; ++r) for (int b = 0; b < 4; ++b) d.at<uchar>(r, b) = r < static_cast<int>(codes.size()) ? static_cast<uchar>(codes[r] + 7 * b) : 0;
        const double unc = I(3) / 4.0;
        ok = seq::acceptedHere([&] {
          if (p[0] == "i") aslam::insertCvKeypointsAndDescriptorsIntoEmptyVisualFrame(kp, d, unc, f[I(1)].get());
          else aslam::insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(kp, d, unc, f[I(1)].get());
        });
        j.s("e", p[0] == "i" ? "insert" : "append").i("f", I(1)).list("kp", codes).i("unc", I(3)).i("rows", rows).i("type", I(5));
        break;
      }
      case 'p': provider[I(1)].reset(new aslam::ThreadSafeIdProvider<size_t>(I(2))); j.s("e", "provider").i("k", I(1)).i("v", I(2)); break;
      case 'P': j.s("e", "fresh").i("k", I(1)).i("v", provider[I(1)]->getNewId()); break;
      case 'Q': provider[I(1)]->reset(); j.s("e", "again").i("k", I(1)); break;
    }
    j.b("ok", ok);
    if (ok) {
      std::vector<std::string> v;
      for (int k = 0; k < 3; ++k) v.push_back(shown(k, *f[k]));
      j.objs("frames", v);
    }
    seq::emit(j);
    if (!ok) return;
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

// Drives the calibration targets (aslam::calibration); AprilTags and the refinement of corners are scripted.
//   t:rows:cols:size:gap       make the target; lengths in eighths of a meter
//   y:type:rows:cols:size:spacing   make it from a document; "-" leaves an entry out; size in meters, spacing relative to it
//   m:i:x:y:z                  move a point
//   o:h:w:ids:coords           an observation of the target; coordinates in quarters of a pixel
//   d:refine:far:least:border:w:h:shifts:tags    detect: far in sixteenths, border in quarters; shifts: five x,y pairs; tags: id,good,8 coordinates each
#include <unistd.h>

#include <cstdio>
#include <fstream>
#include <sstream>

#include <aslam/calibration/target-aprilgrid.h>
#include <aslam/calibration/target-observation.h>
#include <apriltags/TagDetector.h>

#include "seq/probe.h"
#include "seq/seq.h"

namespace {
std::vector<int> g_shifts;
}
namespace cv {
// Stand-ins for what would look at the image or open windows.
void cornerSubPix(InputArray, InputOutputArray corners, Size, Size, TermCriteria) {
  Mat m = corners.getMat();
  for (int i = 0; i < m.rows; ++i) {
    const int x = cvRound(m.at<float>(i, 0) * 4), y = cvRound(m.at<float>(i, 1) * 4), k = (x + 3 * y) % 5;
    m.at<float>(i, 0) += g_shifts.at(2 * k) / 4.f;
    m.at<float>(i, 1) += g_shifts.at(2 * k + 1) / 4.f;
  }
}
void destroyAllWindows() {}
void namedWindow(const String&, int) {}
void imshow(const String&, InputArray) {}
int waitKey(int) { return 0; }
}  // namespace cv

namespace {
using namespace aslam::calibration;
using seq::J;
typedef std::vector<int> Ints;
const int kBad = -999999;
int whole(double x, double unit) {
  const double y = x * unit;
  return std::abs(y) < 1e6 && std::abs(y - std::round(y)) < 1e-6 ? static_cast<int>(std::round(y)) : kBad;
}
Ints ints(const std::string& s) {
  Ints r;
  std::stringstream ss(s);
  for (std::string x; std::getline(ss, x, ',');) r.push_back(std::stoi(x));
  return r;
}
template <typename V> std::string point(const V& p, double unit) {
  std::string r = "[";
  for (int i = 0; i < p.size(); ++i) r += (i ? "," : "") + std::to_string(whole(p(i), unit));
  return r + "]";
}

std::string show(TargetAprilGrid* t) {
  if (!t) return J().b("on", false).str();
  const auto& c = t->getConfig();
  std::vector<std::string> pts, coord;
  Ints at, refused;
  bool agree = static_cast<size_t>(t->points().cols()) == t->size();
  for (size_t i = 0; i < t->size(); ++i) {
    pts.push_back(point(Eigen::Vector3d(t->points().col(i)), 8));
    agree = agree && t->point(i) == t->points().col(i) && t->pointMutable(i) == &t->points()(0, i);
    const auto rc = t->pointToGridCoordinates(i);
    coord.push_back("[" + std::to_string(rc.first) + "," + std::to_string(rc.second) + "]");
  }
  for (size_t r = 0; r < t->rows(); ++r) for (size_t k = 0; k < t->cols(); ++k) {
    const size_t i = t->gridCoordinatesToPoint(r, k);
    at.push_back(static_cast<int>(i));
    agree = agree && i < t->size() && t->gridPoint(r, k) == t->points().col(i);
  }
  refused.push_back(!seq::acceptedHere([&] { t->point(t->size()); }));
  refused.push_back(!seq::acceptedHere([&] { t->pointMutable(t->size()); }));
  refused.push_back(!seq::acceptedHere([&] { t->gridPoint(t->rows(), 0); }));
  refused.push_back(!seq::acceptedHere([&] { t->gridPoint(0, t->cols()); }));
  refused.push_back(!seq::acceptedHere([&] { t->gridCoordinatesToPoint(t->rows() - 1, t->cols()); }));
  return J().b("on", true).i("rows", t->rows()).i("cols", t->cols()).i("num", t->size()).i("trows", c.num_tag_rows).i("tcols", c.num_tag_cols)
      .i("size", whole(c.tag_size_meter, 8)).i("gap", whole(c.tag_inbetween_space_meter, 8)).i("bits", c.black_tag_border_bits)
      .objs("pts", pts).objs("coord", coord).list("at", at).i("width", whole(t->width(), 8)).i("height", whole(t->height(), 8)).b("agree", agree)
      .list("refused", refused).str();
}

// Everything an observation answers.
std::string show(TargetObservation* o, const TargetAprilGrid::Ptr& t) {
  if (!o) return J().b("on", false).str();
  Ints ids, seen, refused;
  std::vector<std::string> corners, byid, places;
  const size_t n = o->numObservedCorners();
  const TargetObservation& c = *o;
  bool agree = o->getTarget() == t && c.getTarget() == t && static_cast<size_t>(o->getObservedCorners().cols()) == n && static_cast<size_t>(o->getObservedCornerIds().size()) == n;
  for (size_t i = 0; i < n; ++i) {
    ids.push_back(o->getObservedCornerIds()(i));
    agree = agree && o->getObservedCornerId(i) == static_cast<size_t>(ids.back()) && o->getObservedCorner(i) == o->getObservedCorners().col(i);
    corners.push_back(point(Eigen::Vector2d(o->getObservedCorners().col(i)), 4));
  }
  for (size_t i = 0; i < t->size(); ++i) {
    seen.push_back(o->observedCornerId(i));
    Eigen::Vector2d p(-1000, -1000);
    bool found = false;
    const bool ok = seq::acceptedHere([&] { found = o->getObservedCornerById(static_cast<int>(i), &p); });
    byid.push_back(!ok ? "[\"refused\"]" : found ? point(p, 4) : p.x() == -1000 && p.y() == -1000 ? "[]" : "[\"written\"]");
  }
  const Eigen::Matrix3Xd m = o->getCorrespondingTargetPoints();
  for (int i = 0; i < m.cols(); ++i) places.push_back(point(Eigen::Vector3d(m.col(i)), 8));
  refused.push_back(!seq::acceptedHere([&] { o->observedCornerId(t->size()); }));
  refused.push_back(!seq::acceptedHere([&] { o->getObservedCorner(n); }));
  refused.push_back(!seq::acceptedHere([&] { o->getObservedCornerId(static_cast<int>(n)); }));
  return J().b("on", true).i("w", o->getImageWidth()).i("h", o->getImageHeight()).list("ids", ids).objs("corners", corners).list("seen", seen)
      .objs("byid", byid).objs("places", places).b("all", o->allCornersObservered()).b("agree", agree).list("refused", refused).str();
}

void body(const std::string& line) {
  TargetAprilGrid::Ptr t;
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> p;
    std::stringstream ss(tok + ":");
    for (std::string x; std::getline(ss, x, ':');) p.push_back(x);
    p.resize(10);
    auto I = [&](int k) { return p[k].empty() ? 0 : std::stoi(p[k]); };
    J j;
    bool ok = true;
    switch (p[0][0]) {
      case 't': {
        TargetAprilGrid::TargetConfiguration c;
        c.num_tag_rows = I(1);
        c.num_tag_cols = I(2);
        c.tag_size_meter = I(3) / 8.0;
        c.tag_inbetween_space_meter = I(4) / 8.0;
        ok = seq::acceptedHere([&] { t.reset(new TargetAprilGrid(c)); });
        j.s("e", "t").i("rows", I(1)).i("cols", I(2)).i("size", I(3)).i("gap", I(4));
        break;
      }
      case 'y': {
        char f[] = "/tmp/targetXXXXXX";
        const int fd = mkstemp(f);
        close(fd);
        const char* keys[] = {"target_type", "tagRows", "tagCols", "tagSize", "tagSpacing"};
        std::vector<std::string> doc;
        {
          std::ofstream o(f);
          for (int k = 0; k < 5; ++k) {
            if (p[k + 1] != "-") o << keys[k] << ": " << p[k + 1] << "\n";
            doc.push_back(seq::quote(p[k + 1]));
          }
          o << "other: 1\n";
        }
        ok = seq::acceptedHere([&] { auto c = TargetAprilGrid::TargetConfiguration::fromYaml(f); t.reset(new TargetAprilGrid(c)); });
        unlink(f);
        j.s("e", "y").objs("doc", doc);
        break;
      }
      case 'm': {
        ok = seq::acceptedHere([&] { double* x = t->pointMutable(I(1)); for (int k = 0; k < 3; ++k) x[k] = I(2 + k) / 8.0; });
        j.s("e", "m").i("i", I(1) + 1).list("to", Ints{I(2), I(3), I(4)});
        break;
      }
      case 'o': {
        const Ints ids = ints(p[3]), xy = ints(p[4]);
        Eigen::VectorXi v(ids.size());
        Eigen::Matrix2Xd m(2, xy.size() / 2);
        for (size_t i = 0; i < ids.size(); ++i) v(i) = ids[i];
        for (int i = 0; i < m.cols(); ++i) m.col(i) << xy[2 * i] / 4.0, xy[2 * i + 1] / 4.0;
        std::unique_ptr<TargetObservation> o;
        ok = seq::acceptedHere([&] { o.reset(new TargetObservation(t, I(1), I(2), v, m)); });
        j.s("e", "o").i("h", I(1)).i("w", I(2)).list("ids", ids).list("xy", xy);
        if (ok) j.raw("obs", show(o.get(), t));
        break;
      }
      case 'd': {
        DetectorAprilGrid::DetectorConfiguration c;
        c.run_subpixel_refinement = I(1);
        c.max_subpixel_refine_displacement_px_sq = I(2) / 16.0;
        c.min_visible_tags_for_valid_obs = I(3);
        c.min_border_distance_px = I(4) / 4.0;
        const cv::Mat image(I(6), I(5), CV_8UC1, cv::Scalar(7));
        g_shifts = ints(p[7]);
        const Ints v = ints(p[8]);
        bool same = false;
        AprilTags::Script::get().tags = [&](const cv::Mat& m) {
          same = m.data == image.data && m.size() == image.size();
          std::vector<AprilTags::TagDetection> r;
          for (size_t i = 0; i + 9 < v.size(); i += 10) {
            AprilTags::TagDetection d;
            d.id = v[i];
            d.good = v[i + 1] == 1;
            for (int k = 0; k < 4; ++k) d.p[k] = std::make_pair(v[i + 2 + 2 * k] / 4.f, v[i + 3 + 2 * k] / 4.f);
            r.push_back(d);
          }
          return r;
        };
        TargetObservation::Ptr o;
        ok = seq::acceptedHere([&] { DetectorAprilGrid d(t, c); o = d.detectTargetInImage(image); });
        std::vector<std::string> tags;
        for (size_t i = 0; i + 9 < v.size(); i += 10) {
          std::string s = "[";
          for (int k = 0; k < 4; ++k) s += (k ? ",[" : "[") + std::to_string(v[i + 2 + 2 * k]) + "," + std::to_string(v[i + 3 + 2 * k]) + "]";
          tags.push_back(J().i("id", v[i]).b("good", v[i + 1] == 1).raw("at", s + "]").str());
        }
        j.s("e", "d").b("refine", I(1)).i("far", I(2)).i("least", I(3)).i("border", I(4)).i("w", I(5)).i("h", I(6)).list("shifts", g_shifts).objs("tags", tags).b("same", same);
        if (ok) j.raw("obs", show(o.get(), t));
        break;
      }
    }
    j.b("ok", ok);
    if (ok) j.raw("now", show(t.get()));
    seq::emit(j);
    if (!ok) return;
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

// Drives an occupancy grid.  Coordinates in a program are quarters of a unit.  Tokens:
//   N:type:ru:rv:cu:cv new grid (type d double, f float, i int)   a:u:v:w add   c:u:v:w:m add with limit
//   n:u:v:w:d add with min. distance   w:w set weights   z reset   t:m thin cells   r:m reduce   f fullest
//   g:u:v get cell   m:r:m mask
#include <opencv2/imgproc/imgproc_c.h>
#include "aslam/common/occupancy-grid.h"
#include "seq/probe.h"
#include "seq/seq.h"
#include <sstream>

namespace {
using seq::J;

struct Grid {
  virtual ~Grid() {}
  virtual void op(const std::vector<std::string>& f) = 0;
};

template <typename C, typename W>
struct GridOf : Grid {
  typedef aslam::common::WeightedKeypoint<C, W, int> Point;
  typedef aslam::common::WeightedOccupancyGrid<Point> G;
  int ru, rv, cu, cv, next = 1;
  G g;
  GridOf(int a, int b, int c, int d) : ru(a), rv(b), cu(c), cv(d), g(len(a), len(b), len(c), len(d)) {}
  static C len(int q) { return static_cast<C>(q / 4.0); }
  static int q(C x) { return static_cast<int>(x * 4); }
  static std::string js(const Point& p) {
    std::ostringstream o;
    o << "[" << p.id << "," << q(p.u_rows) << "," << q(p.v_cols) << "," << static_cast<int>(p.weight) << "]";
    return o.str();
  }
  static std::string ids(const typename G::PointList& l) {
    std::string s = "[";
    for (size_t i = 0; i < l.size(); ++i) s += (i ? "," : "") + std::to_string(l[i].id);
    return s + "]";
  }
  void done(J& j) {
    typename G::PointList all;
    const G& c = g;
    const size_t n = c.getAllPointsInGrid(&all);
    std::vector<std::string> s;
    for (const Point& p : all) s.push_back(js(p));
    std::string cells = "[";
    for (int u = 0; u < ru; u += cu) {
      cells += u ? ",[" : "[";
      for (int v = 0; v < rv; v += cv) cells += (v ? "," : "") + ids(g.getGridCell(len(u), len(v)));
      cells += "]";
    }
    seq::emit(j.i("total", n == c.getNumPoints() ? n : -1).objs("all", s).raw("cells", cells + "]"));
  }
  void op(const std::vector<std::string>& f) override {
    auto n = [&](size_t i) { return std::stoi(f.at(i)); };
    auto point = [&] { return Point(len(n(1)), len(n(2)), static_cast<W>(n(3)), next); };
    J j;
    bool res = false;
    size_t cnt = 0;
    switch (f[0][0]) {
      case 'a': {
        const Point p = point();
        const bool ok = seq::acceptedHere([&] { g.addPointUnconditional(p); });
        ++next;
        j.s("e", "add").raw("p", js(p)).b("ok", ok);
        break;
      }
      case 'c': {
        const Point p = point();
        const bool ok = seq::acceptedHere([&] { res = g.addPointOrReplaceWeakestIfCellFull(p, n(4)); });
        ++next;
        j.s("e", "addc").raw("p", js(p)).i("m", n(4)).b("ok", ok).b("res", res);
        break;
      }
      case 'n': {
        const Point p = point();
        const bool ok = seq::acceptedHere([&] { g.addPointOrReplaceWeakestNearestPoints(p, len(n(4))); });
        ++next;
        j.s("e", "addn").raw("p", js(p)).i("d", n(4)).b("ok", ok);
        break;
      }
      case 'w': g.setConstantWeightForAllPointsInGrid(static_cast<W>(n(1))); j.s("e", "weights").i("w", n(1)); break;
      case 'z': g.reset(); j.s("e", "reset"); break;
      case 't': {
        const bool ok = seq::acceptedHere([&] { cnt = g.removeWeightedPointsFromOverfullCells(n(1)); });
        j.s("e", "thin").i("m", n(1)).b("ok", ok).i("res", cnt);
        break;
      }
      case 'r': {
        const bool ok = seq::acceptedHere([&] { g.removePointsFromFullestCellsUntilSize(n(1)); });
        j.s("e", "reduce").i("m", n(1)).b("ok", ok);
        break;
      }
      case 'f': {
        const auto c = g.getFullestGridCell();
        const size_t size = g.getGridCell(len(c.i_rows * cu), len(c.j_cols * cv)).size();
        j.s("e", "fullest").raw("c", "[" + std::to_string(c.i_rows) + "," + std::to_string(c.j_cols) + "]").i("n", size);
        break;
      }
      case 'g': {
        std::string r = "[]";
        const bool ok = seq::acceptedHere([&] { r = ids(g.getGridCell(len(n(1)), len(n(2)))); });
        j.s("e", "cell").i("u", n(1)).i("v", n(2)).b("ok", ok).raw("res", r);
        break;
      }
      case 'm': {
        cv::Mat m;
        const bool ok = seq::acceptedHere([&] { m = g.getOccupancyMask(static_cast<C>(n(1)), n(2)); });
        std::string rows = "[";
        for (int y = 0; y < m.rows; ++y) {
          rows += y ? ",[" : "[";
          for (int x = 0; x < m.cols; ++x) rows += (x ? "," : "") + std::to_string(m.at<unsigned char>(y, x));
          rows += "]";
        }
        j.s("e", "mask").i("r", n(1)).i("m", n(2)).b("ok", ok).raw("rows", rows + "]");
        break;
      }
      default: return;
    }
    done(j);
  }
};

template <typename C, typename W> Grid* make(const int* d) { return new GridOf<C, W>(d[0], d[1], d[2], d[3]); }

void body(const std::string& line) {
  std::unique_ptr<Grid> grid;
  std::istringstream in(line);
  std::string tok;
  while (in >> tok) {
    std::vector<std::string> f;
    std::stringstream ss(tok);
    for (std::string x; std::getline(ss, x, ':');) f.push_back(x);
    if (f[0] == "N") {
      int d[4];
      for (int i = 0; i < 4; ++i) d[i] = std::stoi(f.at(i + 2));
      Grid* g = nullptr;
      const char t = f[1][0];
      const bool ok = seq::acceptedHere([&] {
        g = t == 'd' ? make<double, double>(d) : t == 'f' ? make<float, float>(d) : make<int, int>(d);
      });
      if (ok) grid.reset(g);
      seq::emit(J().s("e", "new").i("ru", d[0]).i("rv", d[1]).i("cu", d[2]).i("cv", d[3]).b("ok", ok));
    } else if (grid) {
      grid->op(f);
    }
  }
}
}  // namespace

int main(int argc, char** argv) { return seq::run(argc, argv, body); }

// Drives the real QuadTree and KdTree and records the answers to range queries. All coordinates are quarters of units.
#include <memory>
#include <boost/version.hpp>
#include "vplog.h"
#include "SEUtils/KdTree.h"
#include "SEUtils/QuadTree.h"
using namespace vp;
struct Pt { int id; double x, y; };
using PP = std::shared_ptr<Pt>;
namespace SourceXtractor {
template <> struct QuadTreeTraits<PP> { static double getCoord(const PP& t, size_t i) { return i == 0 ? t->x : t->y; } };
template <> struct KdTreeTraits<PP> { static double getCoord(const PP& t, size_t i) { return i == 0 ? t->x : t->y; } };
}
using namespace SourceXtractor;
static Log L;
static int coord(Rng& r, int style, int k) {
  switch (style) {
    case 0: return r.below(33);                       // a small grid, many ties
    case 1: return r.range(-4000, 4000);
    case 2: return k == 0 ? 40 : r.range(-200, 200);  // a line
    case 3: return r.chance(1, 2) ? 100 : 100 + r.below(3);   // clusters of identical points
    default: return r.chance(9, 10) ? r.below(200) : r.range(-4000, 4000);  // a field with far outliers
  }
}
template <size_t S> static void kd(Rng& r, uint64_t seed) {
  int n = r.range(0, 40), style = r.below(5);
  L.ev({{"e", "Begin"}, {"seed", seed}, {"tree", "kd"}, {"leaf", S}, {"strict", true}});
  std::vector<PP> pts;
  for (int i = 1; i <= n; ++i) {
    auto p = std::make_shared<Pt>();
    int x = coord(r, style, 0), y = coord(r, style, 1);
    p->id = i; p->x = x / 4.0; p->y = y / 4.0;
    pts.push_back(p);
    L.ev({{"e", "Add"}, {"id", i}, {"x", x}, {"y", y}});
  }
  KdTree<PP, 2, S> tree(pts);
  for (int q = 0; q < 12; ++q) {
    int x = coord(r, style, 0), y = coord(r, style, 1), rad = r.chance(1, 3) ? r.below(12) : r.below(r.chance(1, 2) ? 60 : 2000);
    if (n && r.chance(1, 2)) { auto& p = pts[r.below(n)]; x = p->x * 4 + rad * r.range(-1, 1); y = p->y * 4; }
    typename KdTree<PP, 2, S>::Coord c;
    c.coord[0] = x / 4.0; c.coord[1] = y / 4.0;
    std::vector<int> ids;
    for (auto& p : tree.findPointsWithinRadius(c, rad / 4.0)) ids.push_back(p->id);
    L.ev({{"e", "Query"}, {"x", x}, {"y", y}, {"r", rad}, {"res", ids}});
  }
}
static void quad(Rng& r, uint64_t seed) {
  int cap = r.chance(1, 6) ? 1 : r.range(2, 6), n = r.range(1, 60), style = r.below(5);
  if (r.chance(1, 30)) { cap = 100; n = 260; }
  L.ev({{"e", "Begin"}, {"seed", seed}, {"tree", "quad"}, {"leaf", cap}, {"strict", false}});
  QuadTree<PP> tree(cap);
  std::vector<PP> pts;
  int id = 0;
  for (int k = 0; k < n; ++k) {
    if (!pts.empty() && r.chance(1, 4)) {
      int i = r.below(pts.size());
      tree.remove(pts[i]);
      L.ev({{"e", "Remove"}, {"id", pts[i]->id}});
      pts.erase(pts.begin() + i);
    } else {
      auto p = std::make_shared<Pt>();
      int x = coord(r, style, 0), y = coord(r, style, 1);
      p->id = ++id; p->x = x / 4.0; p->y = y / 4.0;
      tree.add(p);
      pts.push_back(p);
      L.ev({{"e", "Add"}, {"id", id}, {"x", x}, {"y", y}});
    }
    if (r.chance(1, cap == 100 ? 8 : 2)) {
      int x = coord(r, style, 0), y = coord(r, style, 1), rad = r.chance(1, 3) ? r.below(12) : r.below(r.chance(1, 2) ? 60 : 2000);
      if (!pts.empty() && r.chance(1, 2)) { auto& p = pts[r.below(pts.size())]; x = p->x * 4 + rad * r.range(-1, 1); y = p->y * 4; }
      std::vector<int> ids;
      for (auto& p : tree.getPointsWithinRange({x / 4.0, y / 4.0}, rad / 4.0)) ids.push_back(p->id);
      L.ev({{"e", "Query"}, {"x", x}, {"y", y}, {"r", rad}, {"res", ids}});
      if (r.chance(1, 10)) { QuadTree<PP> copy(tree); std::vector<int> ids2; for (auto& p : copy.getPointsWithinRange({x / 4.0, y / 4.0}, rad / 4.0)) ids2.push_back(p->id);
        L.ev({{"e", "Query"}, {"x", x}, {"y", y}, {"r", rad}, {"res", ids2}}); }
    }
  }
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1);
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 77171 + 5);
    if ((first + i) % 3) quad(r, first + i);
    else if (r.chance(1, 2)) kd<4>(r, first + i);
    else kd<7>(r, first + i);
    L.ev({{"e", "End"}});
    L.flush();
  }
}

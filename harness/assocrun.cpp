// The whole program with a catalogue of known objects: every detection, those with an object, those without one.
#include "common/vpmain.h"
#include "Table/TableReader.h"
#include "Configuration/ConfigManager.h"
using vp::J; using vp::Rng; using vp::Plane;
static vp::Log L;
static uint64_t g_seed;
static const int RUNS = 3;
static std::string num(int v) { return std::to_string(v); }
static void child(int k, vp::Log& L, const std::string& dir) {
  int c = k / RUNS, run = k % RUNS;
  Rng r(g_seed * 100003 + c);
  Plane d{r.range(10, 22), r.range(8, 18), {}, {}};
  d.v.assign(d.w * d.h, 0);
  int n = r.range(1, 6), grad = r.below(3);
  std::vector<std::pair<int, int>> at;
  for (int i = 0; i < n; ++i) {
    int x0 = r.range(0, d.w - 1), y0 = r.range(0, d.h - 1), peak = r.range(20, 60);
    at.push_back({x0, y0});
    for (int y = 0; y < d.h; ++y) for (int x = 0; x < d.w; ++x) {
      int q = (x - x0) * (x - x0) + (y - y0) * (y - y0), v = grad == 0 ? (q < 5 ? peak : 0) : peak / (1 + q);
      if (v >= 2) d.v[y * d.w + x] = std::max<float>(d.v[y * d.w + x], v);
    }
  }
  Plane s = d; for (auto& x : s.v) x = 1;
  vp::writeFits(dir + "/d.fits", {d});
  vp::writeFits(dir + "/s.fits", {s});
  // the catalogue: x, y, group, value; positions in eighths of a pixel, from 1
  auto info = std::make_shared<Euclid::Table::ColumnInfo>(std::vector<Euclid::Table::ColumnInfo::info_type>{{"x", typeid(double), "", ""}, {"y", typeid(double), "", ""}, {"g", typeid(int), "", ""}, {"v", typeid(double), "", ""}});
  std::vector<Euclid::Table::Row> rows;
  std::vector<J> cat;
  int ne = r.range(0, 8);
  for (int i = 0; i < std::max(1, ne); ++i) {
    int x, y;
    if (r.chance(3, 4)) { auto& a = at[r.below(at.size())]; x = 8 * a.first + r.range(-12, 12); y = 8 * a.second + r.range(-12, 12); } else { x = r.range(0, 8 * d.w); y = r.range(0, 8 * d.h); }
    int g = r.below(4), v = r.range(-50, 50);
    rows.push_back(Euclid::Table::Row({x / 8. + 1, y / 8. + 1, g, double(v)}, info));
    cat.push_back(J::obj({{"x", x * 125}, {"y", y * 125}, {"g", g}, {"v", v}}));
  }
  Euclid::Table::readerTables()[dir + "/cat.txt"] = std::make_shared<Euclid::Table::Table>(Euclid::Table::Table(rows));
  int radius8 = r.chance(1, 2) ? r.range(2, 12) : r.range(8, 40);
  bool group = r.chance(1, 2), attract = r.chance(1, 2), multi = !attract && r.chance(1, 2);   // (parts made by the attractors have no identity: known finding of C07)
  static const char* F[] = {"ALL", "MATCHED", "UNMATCHED"};
  std::vector<std::pair<std::string, std::string>> o = {
    {"detection-image", dir + "/d.fits"}, {"weight-image", dir + "/s.fits"}, {"weight-type", "variance"}, {"weight-absolute", "1"}, {"background-value", "0"},
    {"detection-threshold", "3.5"}, {"detection-minimum-area", num(r.range(1, 3))}, {"segmentation-algorithm", r.chance(1, 2) ? "LUTZ" : "BFS"}, {"segmentation-use-filtering", "0"},
    {"partition-multithreshold", multi ? "1" : "0"}, {"partition-minimum-area", num(r.range(1, 3))}, {"partition-threshold-count", num(r.range(3, 20))}, {"use-attractors-partition", attract ? "1" : "0"},
    {"grouping-algorithm", group ? "ASSOC" : "NONE"}, {"use-cleaning", "0"}, {"thread-count", "0"}, {"output-catalog-filename", dir + "/out.fits"},
    {"assoc-catalog", dir + "/cat.txt"}, {"assoc-columns", "1,2"}, {"assoc-copy", "4"}, {"assoc-group-id", "3"}, {"assoc-radius", std::to_string(radius8 / 8.)}, {"assoc-mode", "NEAREST"}, {"assoc-filter", F[run]},
    {"output-flush-sorted", attract ? "0" : "1"}, {"output-properties", std::string(attract ? "" : "SourceIDs,") + "GroupInfo,PixelBoundaries,NDetectedPixels,PixelCentroid,IsophotalFlux,AssocMode"}};
  if (run == 0) { L.ev({{"e", "Begin"}, {"c", c}, {"cat", vp::list(cat)}, {"radius", radius8 * 125}, {"group", group}, {"attract", attract}, {"multi", multi}}); L.flush(); }
  Euclid::Configuration::ConfigManager::anyOrder() = 1 + r.below(1000000);
  std::vector<vp::Part> parts;
  int rc = vp::program(o, parts);
  std::vector<J> jr;
  for (auto& p : parts) for (auto& row : p.rows) {
    auto i = [&](const char* n) { return J(static_cast<int>(vp::number(row, n))); };
    bool match = vp::number(row, "assoc_match") != 0;
    jr.push_back(J::obj({{"box", vp::list({i("pixel_boundaries_min_x"), i("pixel_boundaries_min_y"), i("pixel_boundaries_max_x"), i("pixel_boundaries_max_y")})}, {"n", i("n_detected_pixels")}, {"flux", i("isophotal_flux")},
      {"x", vp::scaled(vp::number(row, "pixel_centroid_x") - 1, 1000)}, {"y", vp::scaled(vp::number(row, "pixel_centroid_y") - 1, 1000)},
      {"match", match}, {"v", match ? vp::scaled(vp::number(row, "assoc_values"), 1) : J(0)}, {"grp", i("group_id")}}));
  }
  L.ev({{"e", "Run"}, {"filter", F[run]}, {"rc", rc}, {"rows", vp::list(jr)}});
}
int main(int argc, char** argv) {
  L.open(vp::arg(argc, argv, "--out", "/dev/stdout"));
  g_seed = vp::argi(argc, argv, "--seed", 1);
  int n = vp::argi(argc, argv, "--n", 10), from = vp::argi(argc, argv, "--from", 0);
  if (std::getenv("VP_VERBOSE")) Elements::Logging::hook() = [](const std::string& n, char l, const std::string& t) { std::fprintf(stderr, "%c %s: %s\n", l, n.c_str(), t.c_str()); };
  auto dir = std::string(vp::arg(argc, argv, "--out", "/tmp/assocrun")) + ".dir";
  vp::forkAll(L, dir, from * RUNS, (from + n) * RUNS, RUNS, vp::argi(argc, argv, "--jobs", 8), 100, child);
  boost::filesystem::remove_all(dir);
  return 0;
}

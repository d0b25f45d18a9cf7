// The whole program on the same images with different numbers of threads, queues, tiles and writing habits.
#include <thread>
#include "common/vpmain.h"
#include "Configuration/ConfigManager.h"
using vp::J; using vp::Rng; using vp::Plane;
static vp::Log L;
static uint64_t g_seed;
// the scheduling points of the pool: somebody else may go first
static bool g_shake;
extern "C" void vp_pool_point(const char*) {
  static thread_local Rng r(g_seed * 977 + std::hash<std::thread::id>()(std::this_thread::get_id()));
  if (!g_shake) return;
  int k = r.below(8);
  if (k == 0) std::this_thread::sleep_for(std::chrono::microseconds(r.range(1, 3000)));
  else if (k < 3) std::this_thread::yield();
}
static const int RUNS = 4;
static std::string num(int v) { return std::to_string(v); }
static Plane image(Rng& r, int hdu) {
  Plane p{r.range(6, 18), r.range(6, 14), {}, {}};
  p.v.assign(p.w * p.h, 0);
  for (auto& x : p.v) x = r.range(0, 4);
  int n = r.below(7);
  for (int k = 0; k < n; ++k) {
    int bx = r.range(-1, p.w - 1), by = r.range(-1, p.h - 1), bw = r.range(1, 5), bh = r.range(1, 4);
    for (int y = by; y < by + bh; ++y) for (int x = bx; x < bx + bw; ++x) if (x >= 0 && y >= 0 && x < p.w && y < p.h && r.chance(5, 6)) p.v[y * p.w + x] = r.range(8, 60);
  }
  if (r.chance(1, 12)) for (auto& x : p.v) x = 0;
  p.keys.push_back({"VPMARK", double(hdu)});
  return p;
}
static void child(int k, vp::Log& L, const std::string& dir) {
  int c = k / RUNS, run = k % RUNS;
  Rng r(g_seed * 100003 + c);
  int nh = r.range(1, 3);
  bool primary = r.chance(1, 2);
  std::vector<Plane> im;
  for (int h = 0; h < nh; ++h) im.push_back(image(r, h));
  bool plain = r.chance(1, 2);
  int area = r.range(1, 4), thr2 = 2 * r.range(4, 8) + 1;
  int tile = r.chance(1, 2) ? r.range(1, 7) : 256;   // the same for every run: pixels are visited tile by tile
  vp::writeFits(dir + "/d.fits", im, primary);
  std::vector<Plane> we = im;
  for (auto& w : we) { w.keys.clear(); for (auto& x : w.v) x = 1; }
  vp::writeFits(dir + "/w.fits", we, primary);
  std::vector<std::pair<std::string, std::string>> o = {
    {"detection-image", dir + "/d.fits"}, {"weight-image", dir + "/w.fits"}, {"weight-type", "variance"}, {"weight-absolute", "1"}, {"background-value", "0"},
    {"detection-threshold", num(thr2 / 2) + ".5"}, {"detection-minimum-area", num(area)}, {"segmentation-algorithm", r.chance(2, 3) ? "LUTZ" : "BFS"}};
  bool filter = false;
  static const char* G[] = {"NONE", "OVERLAP", "SPLIT", "MOFFAT"};
  if (plain) { o.push_back({"partition-multithreshold", "0"}); o.push_back({"grouping-algorithm", "NONE"}); o.push_back({"segmentation-use-filtering", "0"}); }
  else {
    filter = r.chance(1, 3);
    o.push_back({"segmentation-use-filtering", filter ? "1" : "0"});
    o.push_back({"partition-multithreshold", r.chance(2, 3) ? "1" : "0"});
    o.push_back({"partition-threshold-count", num(r.range(2, 20))});
    o.push_back({"partition-minimum-area", num(r.range(1, 3))});
    o.push_back({"grouping-algorithm", G[r.below(4)]});
    o.push_back({"use-cleaning", r.chance(1, 3) ? "1" : "0"});
  }
  std::string props = "SourceIDs,GroupInfo,HduNumber,PixelBoundaries,NDetectedPixels,PeakValue";
  if (!plain) props += ",PixelCentroid,ShapeParameters,IsophotalFlux,SNRRatio,SourceFlags,KronRadius,GroupStamp,ErrorEllipse";
  if (!plain && r.chance(1, 3)) props += ",Vignet";
  o.push_back({"output-properties", props});
  o.push_back({"output-catalog-filename", dir + "/out.fits"});
  static const char* F[] = {"FITS", "FITS_LDAC", "ASCII"};
  int fmt = r.below(3);
  o.push_back({"output-catalog-format", F[fmt]});
  // what may differ
  Rng q(g_seed * 7919 + k);
  int threads = run == 0 ? 0 : run == 1 ? 1 : q.range(2, 5), flush = run == 0 ? 0 : q.below(3) ? q.range(1, 4) : 100;
  int queue = run == 0 ? 1000 : q.chance(1, 2) ? q.range(1, 3) : 1000;
  bool sorted = run < 3 || q.chance(1, 3);
  g_shake = run > 0;
  o.push_back({"thread-count", num(threads)});
  o.push_back({"output-flush-size", num(flush)});
  o.push_back({"thread-max-queue-size", num(queue)});
  o.push_back({"output-flush-sorted", sorted ? "1" : "0"});
  o.push_back({"tile-size", num(tile)});
  o.push_back({"tile-memory-limit", run > 0 && q.chance(1, 3) ? "1" : "512"});
  if (run == 0) {
    std::vector<J> frames;
    for (auto& p : im) { std::vector<J> v; for (auto x : p.v) v.push_back(J(static_cast<int>(x))); frames.push_back(J::obj({{"w", p.w}, {"h", p.h}, {"v", vp::list(v)}})); }
    L.ev({{"e", "Begin"}, {"c", c}, {"plain", plain}, {"area", area}, {"thr2", thr2}, {"fmt", F[fmt]}, {"first", primary ? 2 : 1}, {"frames", vp::list(frames)}});
    L.flush();
  }
  Euclid::Configuration::ConfigManager::anyOrder() = 1 + r.below(1000000);
  std::vector<vp::Part> parts;
  int rc = vp::program(o, parts);
  std::vector<J> jp;
  for (auto& p : parts) {
    if (!p.rows.empty() && !p.rows[0].getColumnInfo()->find("source_id")) continue;   // the header table of an LDAC file
    std::vector<J> rows;
    for (auto& row : p.rows) {
      std::string all;
      for (size_t i = 0; i < row.size(); ++i) { auto& n = row.getColumnInfo()->getDescription(i).name; if (n != "source_id" && n != "group_id") all += vp::text(row, i) + ";"; }
      auto n = [&](const char* c) { return J(static_cast<int>(vp::number(row, c))); };
      rows.push_back(J::obj({{"id", n("source_id")}, {"det", n("detection_id")}, {"grp", n("group_id")}, {"hdu", n("hdu_number")},
        {"box", vp::list({n("pixel_boundaries_min_x"), n("pixel_boundaries_min_y"), n("pixel_boundaries_max_x"), n("pixel_boundaries_max_y")})},
        {"n", n("n_detected_pixels")}, {"peak", n("peak_value")}, {"all", all}}));
    }
    jp.push_back(J::obj({{"name", p.hdu}, {"writes", p.writes}, {"rows", vp::list(rows)}}));
  }
  L.ev({{"e", "Run"}, {"rc", rc}, {"threads", threads}, {"sorted", sorted}, {"flush", flush}, {"queue", queue}, {"tile", tile}, {"parts", vp::list(jp)}});
}
int main(int argc, char** argv) {
  L.open(vp::arg(argc, argv, "--out", "/dev/stdout"));
  g_seed = vp::argi(argc, argv, "--seed", 1);
  int n = vp::argi(argc, argv, "--n", 10), from = vp::argi(argc, argv, "--from", 0);
  if (std::getenv("VP_VERBOSE")) Elements::Logging::hook() = [](const std::string& n, char l, const std::string& t) { std::fprintf(stderr, "%c %s: %s\n", l, n.c_str(), t.c_str()); };
  vp::forkAll(L, vp::arg(argc, argv, "--out", "/tmp/e2e") + ".dir", from * RUNS, (from + n) * RUNS, RUNS, vp::argi(argc, argv, "--jobs", 8), 100, child);
  boost::filesystem::remove_all(vp::arg(argc, argv, "--out", "/tmp/e2e") + ".dir");
  return 0;
}

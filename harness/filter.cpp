// Filters as the configuration loads them, applied to images with masked pixels, tile by tile.
#include <fstream>
#include <limits>
#include "common/vpmain.h"
#include <boost/program_options.hpp>
#include "Configuration/ConfigManager.h"
#include "SEFramework/FFT/FFT.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEImplementation/Configuration/SegmentationConfig.h"
using vp::J; using namespace SourceXtractor;
static uint64_t g_seed;
static std::string lower(std::string s) { for (auto& c : s) c = std::tolower(c); return s; }
/// The file of a filter: rows of numbers, from the lowest y
static void ascii(vp::Rng& r, const std::string& path, const std::vector<std::vector<int>>& rows, const std::string& head, bool bad) {
  std::ofstream f(path, std::ios::binary);
  std::string nl = r.chance(1, 4) ? "\r\n" : "\n";
  auto blank = [&] { while (r.chance(1, 4)) f << (r.chance(1, 2) ? "# nothing 1 2 3" : r.chance(1, 2) ? "" : "  \t") << nl; };
  auto tail = [&] { if (r.chance(1, 4)) f << "  # 7 7"; else if (r.chance(1, 4)) f << " \t"; };
  blank();
  f << head; tail(); f << nl;
  int odd = bad ? r.below(rows.size()) : -1;
  for (size_t y = 0; y < rows.size(); ++y) {
    blank();
    for (size_t x = 0; x < rows[y].size(); ++x) {
      if (x || r.chance(1, 4)) f << (r.chance(1, 4) ? "\t" : r.chance(1, 4) ? "   " : " ");
      if (static_cast<int>(y) == odd && x == 0) f << "k1";
      else if (r.chance(1, 3)) f << rows[y][x] << ".0"; else if (r.chance(1, 4)) f << rows[y][x] * 10 << "e-1"; else f << rows[y][x];
    }
    tail();
    if (y + 1 < rows.size() || r.chance(3, 4)) f << nl;
  }
  if (r.chance(1, 3)) f << "# the end";
}
static void fits(const std::string& path, const std::vector<std::vector<int>>& rows) {
  fitsfile* f = nullptr; int st = 0; long n[2] = {static_cast<long>(rows[0].size()), static_cast<long>(rows.size())};
  std::vector<float> d; for (auto& q : rows) for (int v : q) d.push_back(v);
  fits_create_file(&f, path.c_str(), &st); fits_create_img(f, FLOAT_IMG, 2, n, &st);
  fits_write_img(f, TFLOAT, 1, d.size(), d.data(), &st); fits_close_file(f, &st);
  if (st) _exit(3);
}
static void child(int c, vp::Log& L, const std::string& dir) {
  vp::Rng r(g_seed * 1000003 + c);
  auto file = dir + "/k" + (r.chance(1, 2) ? ".conv" : ".txt");
  static const char* kinds[] = {"default", "off", "ascii", "ascii", "ascii", "ascii", "ascii", "fits", "fits", "header", "ragged", "word", "missing", "empty"};
  std::string kind = kinds[r.below(14)], alg = r.chance(1, 2) ? "LUTZ" : r.chance(1, 2) ? "BFS" : "ASSOC", given = alg;
  if (r.chance(1, 12)) alg = given = r.chance(1, 2) ? "ML" : "TILES";
  if (r.chance(1, 2)) given = lower(alg);
  // mostly odd sizes, up to 11
  auto size = [&](int m) { return r.chance(4, 5) ? 2 * r.below((m + 1) / 2) + 1 : r.range(1, m); };
  int kw = r.chance(1, 2) ? size(5) : size(11), kh = r.chance(1, 2) ? size(5) : size(11), top = r.chance(1, 2) ? 9 : 3;
  std::vector<std::vector<int>> rows(kh, std::vector<int>(kw));
  bool zeros = r.chance(1, 3);
  for (auto& q : rows) for (auto& v : q) v = zeros && r.chance(1, 3) ? 0 : r.range(1, top);
  std::string head = r.chance(1, 2) ? "CONV NORM" : r.chance(1, 2) ? "CONV NONORM" : "CONV   NORM";
  if (kind == "header") { head = std::vector<std::string>{"CONV", "KONV NORM", "CONV NORMAL", "conv norm", "1 2 1"}[r.below(5)]; }
  if (kind == "ragged") { kh = std::max(kh, 2); rows.resize(kh, rows[0]); auto& q = rows[r.below(kh)]; if (r.chance(1, 2) && q.size() > 1) q.pop_back(); else for (int n = r.range(1, 2 * kw); n > 0; --n) q.push_back(1); }
  if (kind == "empty") rows.clear();
  if (kind == "fits") { file = dir + "/k.fits"; fits(file, rows); }
  else if (kind == "missing") { if (r.chance(1, 2)) file = dir + "/k.fits"; }
  else if (kind != "default" && kind != "off") ascii(r, file, rows, head, kind == "word");
  std::vector<J> k;
  if (kind == "ascii" || kind == "fits") for (auto& q : rows) { std::vector<int> v(q.begin(), q.end()); k.push_back(J(v)); }
  int w = r.range(1, 16), h = r.range(1, 12), n = w * h, big = r.chance(1, 3), vt = r.range(2, 9), holes = r.below(4);
  std::vector<int> im(n), var(n);
  for (auto& v : im) v = r.chance(1, big ? 2 : 9) ? r.range(-50, 50) : r.range(0, 9);
  for (auto& v : var) v = r.chance(holes, 8) ? r.range(vt, vt + 2) : r.range(1, vt - 1);
  auto image = VectorImage<SeFloat>::create(w, h), variance = VectorImage<SeFloat>::create(w, h);
  bool nan = r.chance(1, 4), huge = r.chance(1, 2);
  for (int i = 0; i < n; ++i) {
    float v = im[i];
    if (var[i] >= vt) v = nan ? std::numeric_limits<float>::quiet_NaN() : huge ? 3e7f : v;   // whatever is there does not count
    image->setValue(i % w, i / w, v);
    variance->setValue(i % w, i / w, var[i]);
  }
  L.ev({{"e", "Begin"}, {"alg", alg}, {"kind", kind}, {"k", vp::list(k)}, {"w", w}, {"h", h}, {"im", im}, {"var", var}, {"vt", vt}});
  for (int i = 0; i < 3; ++i) { int s = r.chance(1, 2) ? r.range(1, 600) : r.range(1, 20000); L.ev({{"e", "Round"}, {"n", s}, {"r", fftRoundDimension(s)}}); }
  auto& cm = Euclid::Configuration::ConfigManager::getInstance(Euclid::Configuration::ConfigManager::getUniqueManagerId());
  cm.registerConfiguration<SegmentationConfig>();
  auto desc = cm.closeRegistration();
  namespace po = boost::program_options;
  po::variables_map vm;
  std::vector<std::string> args{"--segmentation-algorithm", given};
  int lw = r.below(3) ? 0 : r.range(1, 99), bd = r.below(3) ? 1000 : r.range(1, 99);
  if (lw) { args.push_back("--segmentation-lutz-window-size"); args.push_back(std::to_string(lw)); }
  if (bd != 1000) { args.push_back("--segmentation-bfs-max-delta"); args.push_back(std::to_string(bd)); }
  if (kind == "off") { args.push_back("--segmentation-use-filtering"); args.push_back(r.chance(1, 2) ? "0" : "false"); }
  if (kind != "default" && (kind != "off" || r.chance(1, 2))) { args.push_back("--segmentation-filter"); args.push_back(file); }
  po::store(po::command_line_parser(args).options(desc).run(), vm);
  Euclid::Configuration::Configuration::UserValues uv;
  for (auto& v : vm) uv[v.first] = v.second;
  try { cm.initialize(uv); }
  catch (const std::exception& e) { L.ev({{"e", "Refused"}, {"why", std::string(e.what()).substr(0, 60)}}); return; }
  auto& conf = cm.getConfiguration<SegmentationConfig>();
  auto filter = conf.getFilter();
  auto a = conf.getAlgorithmOption();
  L.ev({{"e", "Loaded"}, {"filter", filter != nullptr}, {"alg", a == SegmentationConfig::Algorithm::LUTZ ? "LUTZ" : a == SegmentationConfig::Algorithm::BFS ? "BFS" : a == SegmentationConfig::Algorithm::ASSOC ? "ASSOC" : "other"},
        {"window", conf.getLutzWindowSize() == lw}, {"delta", conf.getBfsMaxDelta() == bd}});
  if (!filter) return;
  TileManager::getInstance()->setOptions(r.range(1, 9), r.range(1, 9), r.below(2));
  bool self = r.chance(1, 4);    // the variance goes through the same filter
  auto out = filter->processImage(self ? variance : image, variance, vt);
  if (r.chance(1, 3)) { TileManager::getInstance()->flush(); TileManager::getInstance()->setOptions(r.range(1, 20), r.range(1, 20), 10); }
  L.ev({{"e", "Size"}, {"w", out->getWidth()}, {"h", out->getHeight()}});
  for (int i = 0; i < 4; ++i) {
    int x = i ? r.below(w) : 0, y = i ? r.below(h) : 0, cw = i ? r.range(1, w - x) : w, ch = i ? r.range(1, h - y) : h;
    auto q = out->getChunk(x, y, cw, ch);
    std::vector<int> v;
    for (int j = 0; j < cw * ch; ++j) { double p = q->getValue(j % cw, j / cw) * 1000.; v.push_back(p > -1e9 && p < 1e9 ? static_cast<int>(std::floor(p + .5)) : 2000000000); }
    L.ev({{"e", "Read"}, {"self", self}, {"x", x}, {"y", y}, {"w", cw}, {"h", ch}, {"v", v}});
    if (r.chance(1, 4)) TileManager::getInstance()->flush();
  }
}
int main(int argc, char** argv) {
  vp::Log L;
  L.open(vp::arg(argc, argv, "--out", "/dev/stdout"));
  g_seed = vp::argi(argc, argv, "--seed", 1);
  int n = vp::argi(argc, argv, "--n", 10), from = vp::argi(argc, argv, "--from", 0);
  auto dir = std::string(vp::arg(argc, argv, "--out", "/tmp/filter")) + ".dir";
  vp::forkAll(L, dir, from, from + n, 1, vp::argi(argc, argv, "--jobs", 8), 60, child);
  boost::filesystem::remove_all(dir);
  return 0;
}

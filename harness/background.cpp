// The background model: the median filter, replacing undefined cells, the mode of a cell, the whole analyzer.
#include <cmath>
#include <cstring>
#include "vplog.h"
#include "vpconfig.h"
#include "ElementsKernel/Exception.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEImplementation/Background/SE/MedianFilter.h"
#include "SEImplementation/Background/SE/ReplaceUndefImage.h"
#include "SEImplementation/Background/SE/ImageMode.h"
#include "SEImplementation/Background/SE/SEBackgroundLevelAnalyzer.h"
#include "SEImplementation/Configuration/SE2BackgroundConfig.h"
#include "SEImplementation/Background/SimpleBackgroundAnalyzer.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
using V = std::vector<long>;
using VI = VectorImage<SeFloat>;
static bool isFinite(double v) { uint64_t b; std::memcpy(&b, &v, 8); return ((b >> 52) & 0x7ff) != 0x7ff; }
// a number a trace can hold, in thousandths
static long milli(double v) { return !isFinite(v) || std::abs(v) > 2e6 ? 2000000001 : std::lround(v * 1000); }
static std::shared_ptr<VI> image(int w, int h, const V& v, double unit = 1) { std::vector<SeFloat> f; for (auto x : v) f.push_back(x * unit); return VI::create(w, h, f); }
template <typename I> static V millis(const I& img) { V v; for (int y = 0; y < img.getHeight(); ++y) for (int x = 0; x < img.getWidth(); ++x) v.push_back(milli(img.getValue(x, y))); return v; }
static SeFloat at(const std::shared_ptr<Image<SeFloat>>& i, int x, int y) { return i->getChunk(x, y, 1, 1)->getValue(0, 0); }
static V noise(Rng& r, int n) { V v(n); int top = r.chance(1, 3) ? 3 : r.chance(1, 2) ? 20 : 500; for (auto& x : v) x = r.range(-top, top); return v; }
static void median(Rng& r) {
  int w = r.range(1, 7), h = r.range(1, 7), bw = r.range(0, r.chance(1, 6) ? 13 : 7), bh = r.range(0, 7), t = r.chance(1, 2) ? 0 : r.range(1, 20);
  auto a = noise(r, w * h), b = noise(r, w * h);
  auto o = MedianFilter<SeFloat>(r.chance(1, 2) ? std::array<int, 2>{bw, bh} : std::array<int, 2>{bw, bh})(*image(w, h, a), *image(w, h, b), t);
  L.ev({{"e", "Median"}, {"w", w}, {"h", h}, {"bw", bw}, {"bh", bh}, {"t", t}, {"a", a}, {"b", b}, {"oa", millis(*o.first)}, {"ob", millis(*o.second)}});
}
static void undef(Rng& r) {
  int w = r.range(1, 7), h = r.range(1, 7), p = r.range(0, 10);
  // large grids, nearly all of it undefined: the nearest cells may be far away
  if (r.chance(1, 4)) { w = r.range(1, 30); h = r.chance(1, 2) ? r.range(1, 3) : 60 / w; if (r.chance(1, 2)) std::swap(w, h); p = r.chance(1, 2) ? 9 : 10; }
  const long U = 99999;
  auto a = noise(r, w * h); for (auto& x : a) if (r.below(10) < p) x = U;
  if (w * h > 49) for (int k = r.range(0, 3); k > 0; --k) a[r.below(w * h)] = r.range(-500, 500);
  auto o = ReplaceUndef<SeFloat>(*image(w, h, a), U);
  L.ev({{"e", "Undef"}, {"w", w}, {"h", h}, {"u", U}, {"a", a}, {"o", millis(*o)}});
}
// one cell of pixels with a few levels around a centre, outliers and undefined pixels, in any unit
static void mode(Rng& r) {
  int w = r.range(6, 20), h = r.range(6, 20), n = w * h; const long U = 1000000;
  static const double UNITS[] = {1e-18, 1e-9, 1e-4, 1, 7, 1e5};
  double unit = UNITS[r.below(6)]; long c = r.chance(1, 3) ? 0 : r.range(-300, 300);
  V a; int kind = r.below(4); int lv = kind == 0 ? 1 : r.range(2, 4); std::vector<std::pair<long, int>> levels;
  bool tail = r.chance(1, 3); int side = r.chance(1, 2) ? 1 : -1;
  for (int i = 0; i < lv; ++i) levels.push_back({i == 0 ? 0 : tail ? side * (i == lv - 1 ? r.range(2, 9) : r.range(1, 3)) : r.range(-3, 3), tail && i == lv - 1 ? r.range(1, 3) : tail ? r.range(2, 25) : r.range(1, 6)});
  int bad = r.chance(1, 3) ? r.range(0, n) : r.chance(1, 3) ? n / 2 + r.range(-1, 1) : 0, out = kind == 1 ? r.range(1, std::max(1, n / 12)) : r.chance(1, 3) ? r.range(0, n / 12) : 0;
  int tot = 0; for (auto& l : levels) tot += l.second;
  for (int i = 0; i < n; ++i) { int k = i % tot; size_t q = 0; while (k >= levels[q].second) k -= levels[q++].second; a.push_back(levels[q].first); }
  int os = r.chance(1, 2) ? 60 : -60; for (int i = 0; i < out; ++i) a[r.below(n)] = os;
  for (int i = 0; i < bad; ++i) a[i] = U;
  for (int i = n - 1; i > 0; --i) std::swap(a[i], a[r.below(i + 1)]);
  std::vector<SeFloat> f; for (auto x : a) f.push_back(x == U ? -1e30 : (x + c) * unit);
  // the cell in the middle of others
  int left = r.chance(1, 2) ? w : 0, top = r.chance(1, 2) ? h : 0, right = r.chance(1, 2) ? r.range(1, w) : 0;
  auto img = VI::create(left + w + right, top + h);
  for (int y = 0; y < top + h; ++y) for (int x = 0; x < left + w + right; ++x) { bool in = x >= left && x < left + w && y >= top; img->setValue(x, y, in ? f[(x - left) + (y - top) * w] : SeFloat((c + 40) * unit)); }
  ImageMode<SeFloat> m(img, nullptr, w, h, -1e30, 2, 5, 3);
  int cx = left / w, cy = top / h;
  SeFloat mv = m.getModeImage()->getValue(cx, cy), sv = m.getSigmaImage()->getValue(cx, cy);
  bool undefd = mv == SeFloat(-1e30);
  L.ev({{"e", "Mode"}, {"a", a}, {"u", U}, {"unit", J::raw("\"" + std::to_string(std::log10(unit)) + "\"")}, {"cells", V{m.getModeImage()->getWidth(), m.getModeImage()->getHeight()}}, {"want", V{(left + w + right + w - 1) / w, (top + h) / h}}, {"undef", undefd && sv == SeFloat(-1e30)}, {"mode", undefd ? 0 : milli(mv / unit - c)}, {"sigma", undefd ? 0 : milli(sv / unit)}, {"absolute", unit >= 1}});
}
static std::shared_ptr<Image<unsigned char>> maskOf(int w, int h, const V& m) { std::vector<unsigned char> v(m.begin(), m.end()); return VectorImage<unsigned char>::create(w, h, v); }
static void full(Rng& r) {
  bool noisy = r.chance(1, 2);
  int cw = noisy ? (r.chance(1, 2) ? 6 : 9) : r.range(2, 7), ch = noisy ? (r.chance(1, 2) ? 8 : 9) : r.chance(1, 2) ? cw : r.range(2, 7), gw = r.range(1, 5), gh = r.range(1, 5);
  int W = gw * cw - (noisy ? 0 : r.below(cw)), H = gh * ch - (noisy ? 0 : r.below(ch));
  std::vector<int> cs{cw}, box{r.range(1, 5)}; if (ch != cw || r.chance(1, 4)) cs.push_back(ch); if (r.chance(1, 2)) box.push_back(r.range(1, 5));
  bool flat = r.chance(1, 5), weighted = r.chance(2, 3), masked = r.chance(1, 3), noMask = !masked && r.chance(1, 2);
  int thr = 50;
  V px(W * H), mask(W * H, 0), var(W * H, 0), pattern;
  long fl = r.range(-50, 500);
  for (int gy = 0; gy < gh; ++gy) for (int gx = 0; gx < gw; ++gx) {
    long c = flat ? fl : r.range(-50, 500), d = 10 * r.range(1, 8), wt = r.chance(1, 8) ? 0 : r.range(1, 40); int badness = r.chance(1, 2) ? 0 : r.range(0, 10);
    bool kill = noisy && r.chance(1, 4); int k = 0; bool byVar = weighted && (r.chance(1, 2) || !masked);
    for (int y = gy * ch; y < std::min(H, (gy + 1) * ch); ++y) for (int x = gx * cw; x < std::min(W, (gx + 1) * cw); ++x, ++k) {
      long v = c + (noisy ? (k % 3 - 1) * d : 0); bool bad = noisy ? kill : r.below(10) < badness;
      px[x + y * W] = v; var[x + y * W] = wt;
      if (bad && (weighted || masked)) { px[x + y * W] = r.range(-9000, 9000); if (byVar) var[x + y * W] = thr + r.below(2) * 7; else if (masked) mask[x + y * W] = 1; else px[x + y * W] = v; }
    }
  }
  std::shared_ptr<WeightImage> vi; if (weighted) vi = image(W, H, var);
  std::shared_ptr<Image<unsigned char>> mi; if (!noMask) mi = maskOf(W, H, mask);
  SEBackgroundLevelAnalyzer an(cs, box, weighted ? WeightImageConfig::WeightType::WEIGHT_TYPE_VARIANCE : WeightImageConfig::WeightType::WEIGHT_TYPE_NONE);
  L.ev({{"e", "Analyze"}, {"w", W}, {"h", H}, {"cw", cs.front()}, {"ch", cs.back()}, {"bw", box.front()}, {"bh", box.back()}, {"px", px}, {"mask", mask}, {"var", var}, {"thr", thr}, {"weighted", weighted}, {"noisy", noisy}});
  L.flush();
  TileManager::getInstance()->setOptions(r.range(3, 20), r.range(3, 20), 10);
  auto m = an.analyzeBackground(image(W, H, px), vi, mi, thr);
  auto lv = m.getLevelMap(), vv = m.getVarianceMap();
  auto grid = [&](const std::shared_ptr<Image<SeFloat>>& img, bool root) {
    V o; int sx = (W + gw - 1) / gw, sy = (H + gh - 1) / gh;
    auto all = img->getChunk(0, 0, W, H);
    for (int y = 0; y < gh; ++y) for (int x = 0; x < gw; ++x) { int px = sx * (2 * x + 1) / 2, py = sy * (2 * y + 1) / 2; o.push_back(px < W && py < H ? milli(root ? std::sqrt(std::abs(all->getValue(px, py))) : all->getValue(px, py)) : 2000000002); }
    return o; };
  auto range = [&](const std::shared_ptr<Image<SeFloat>>& img) { auto all = img->getChunk(0, 0, W, H); double lo = all->getValue(0, 0), hi = lo; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { double v = all->getValue(x, y); lo = std::min(lo, v); hi = std::max(hi, v); } return V{milli(lo), milli(hi)}; };
  L.ev({{"e", "Model"}, {"size", V{lv->getWidth(), lv->getHeight(), vv->getWidth(), vv->getHeight()}}, {"level", grid(lv, false)}, {"sigma", grid(vv, true)}, {"lrange", range(lv)}, {"vrange", range(vv)}, {"scaling", m.getScalingFactor() == SeFloat(99999) ? -1 : milli(m.getScalingFactor())}, {"rms", milli(m.getMedianRms())}});
}
static void simple(Rng& r) {
  int w = r.range(1, 9), h = r.range(1, 9); auto a = noise(r, w * h);
  auto m = SimpleBackgroundAnalyzer().analyzeBackground(image(w, h, a), nullptr, nullptr, 1e30);
  L.ev({{"e", "Simple"}, {"a", a}, {"size", V{w, h, m.getLevelMap()->getWidth(), m.getLevelMap()->getHeight(), m.getVarianceMap()->getWidth(), m.getVarianceMap()->getHeight()}}, {"w", w}, {"level", milli(at(m.getLevelMap(), r.below(w), r.below(h)))}, {"var", (long)std::min(2e9, std::round(double(at(m.getVarianceMap(), r.below(w), r.below(h))) * 10))}, {"scaling", milli(m.getScalingFactor())}, {"rms", milli(m.getMedianRms())}});
}
static void wrong(Rng& r) {
  int w = r.range(4, 9), h = r.range(4, 9), dx = r.range(-1, 1), dy = r.range(-1, 1); bool byMask = r.chance(1, 2); std::string refused = "no";
  auto a = image(w, h, V(w * h, 3)); std::shared_ptr<WeightImage> v = image(w + dx, h + dy, V((w + dx) * (h + dy), 1)); std::shared_ptr<Image<unsigned char>> m = ConstantImage<unsigned char>::create(w + dx, h + dy, 0);
  try { SEBackgroundLevelAnalyzer({2}, {1}, WeightImageConfig::WeightType::WEIGHT_TYPE_NONE).analyzeBackground(a, byMask ? nullptr : v, byMask ? m : nullptr, 5); } catch (const Elements::Exception&) { refused = "yes"; }
  L.ev({{"e", "Sizes"}, {"refused", refused == "yes"}, {"same", dx == 0 && dy == 0}});
}
static void options(Rng& r) {
  V cell, box; int nc = r.below(3), nb = r.below(3); for (int i = 0; i < nc; ++i) cell.push_back(r.chance(1, 8) ? r.range(-2, 0) : r.range(1, 80)); for (int i = 0; i < nb; ++i) box.push_back(r.chance(1, 8) ? r.range(-2, 0) : r.range(1, 9));
  auto str = [&](const V& v) { std::string s; for (auto x : v) s += (s.empty() ? "" : r.chance(1, 2) ? "," : ", ") + std::to_string(x); return s.empty() ? " " : s; };
  bool refused = false; std::string kind = "none"; auto own = r.below(4); V gc, gb;
  std::vector<std::string> opt; if (own & 1) { opt.push_back("background-cell-size"); opt.push_back(str(cell)); } if (own & 2) { opt.push_back("smoothing-box-size"); opt.push_back(str(box)); }
  if (!(own & 1)) cell = {64}; if (!(own & 2)) box = {3};
  try {
    auto& c = vp::configured<SE2BackgroundConfig>(opt);
    for (auto v : c.getCellSize()) gc.push_back(v); for (auto v : c.getSmoothingBox()) gb.push_back(v);
  } catch (const Elements::Exception&) { refused = true; }
  L.ev({{"e", "Options"}, {"cell", cell}, {"box", box}, {"refused", refused}, {"gcell", gc}, {"gbox", gb}});
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1); std::string only = arg(argc, argv, "--only");
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 7919 + 5); int k = r.below(20);
    L.ev({{"e", "Begin"}, {"seed", first + i}});
    if (k < 3) median(r); else if (k < 6) undef(r); else if (k < 11) mode(r); else if (k < 17) full(r); else if (k < 18) simple(r); else if (k < 19) wrong(r); else options(r);
    L.ev({{"e", "End"}}); L.flush();
  }
}

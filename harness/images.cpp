// Reads rectangles and pixels of random compositions of images, with changes of the images underneath.
#include <memory>
#include "vplog.h"
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/FunctionalImage.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/InterpolatedImageSource.h"
#include "SEFramework/Image/MaskedImage.h"
#include "SEFramework/Image/MirrorImage.h"
#include "SEFramework/Image/PaddedImage.h"
#include "SEFramework/Image/ProcessedImage.h"
#include "SEFramework/Image/RecenterImage.h"
#include "SEFramework/Image/SubImage.h"
#include "SEFramework/Image/ThresholdedImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
using F = float;
using Img = std::shared_ptr<Image<F>>;
struct Node { Img im; std::string s; int w, h; long bound; bool sq; };
struct Base { std::shared_ptr<VectorImage<F>> im; int w, h; bool sq; };
static std::shared_ptr<VectorImage<F>> copyOf(const std::shared_ptr<const Image<F>>& i) { return VectorImage<F>::create(i); }
static const int MAXPIX = 400;
struct Gen {
  Rng& r; std::vector<Base>& bases; bool buffered; std::shared_ptr<TileManager> tm;
  Node leaf(int w, int h, bool sq) {  // of the given size
    for (int t = 0; t < 6; ++t) { int k = r.below(bases.size()); if (bases[k].w == w && bases[k].h == h && bases[k].sq == sq) return vec(k); }
    int v = sq ? (r.below(4)) * 1 : r.range(-9, 9); if (sq) v = v * v;
    return {ConstantImage<F>::create(w, h, F(v)), J::obj({{"k", "const"}, {"w", w}, {"h", h}, {"v", v}}).s, w, h, 25, sq};
  }
  Node vec(int k) { return {bases[k].im, J::obj({{"k", "vec"}, {"w", bases[k].w}, {"h", bases[k].h}, {"id", k + 1}}).s, bases[k].w, bases[k].h, 100, bases[k].sq}; }
  /// an image with exactly w x h pixels
  Node sized(int w, int h, bool sq, int depth) {
    if (depth <= 0 || r.chance(1, 4)) return leaf(w, h, sq);
    Node n = any(sq, depth - 1);
    if (n.w == w && n.h == h) return n;
    if (n.w >= w && n.h >= h) return sub(n, r.range(0, n.w - w), r.range(0, n.h - h), w, h);
    if (n.w <= w && n.h <= h) return pad(n, w, h);
    n = pad(n, std::max(n.w, w), std::max(n.h, h));
    return sub(n, r.range(0, n.w - w), r.range(0, n.h - h), w, h);
  }
  Node sub(const Node& n, int x, int y, int w, int h) {
    Img im = r.chance(1, 2) ? Img(SubImage<F>::create(n.im, x, y, w, h)) : Img(SubImage<F>::create(n.im, PixelCoordinate(x, y), w, h));
    return {im, J::obj({{"k", "sub"}, {"i", J::raw(n.s)}, {"x", x}, {"y", y}, {"w", w}, {"h", h}}).s, w, h, n.bound, n.sq};
  }
  Node pad(const Node& n, int w, int h) {
    static const char* how[] = {"const", "replicate", "reflect", "reflect101", "wrap"};
    int k = r.below(5), v = n.sq ? 4 : r.range(-5, 5); Img im;
    if (k == 0 && r.chance(1, 3)) { v = 0; im = PaddedImage<F>::create(n.im, w, h); }
    else if (k == 0) im = PaddedImage<F>::create(n.im, w, h, F(v));
    else if (k == 1) im = PaddedImage<F, ReplicateCoordinates>::create(n.im, w, h);
    else if (k == 2) im = PaddedImage<F, ReflectCoordinates>::create(n.im, w, h);
    else if (k == 3) im = PaddedImage<F, Reflect101Coordinates>::create(n.im, w, h);
    else im = PaddedImage<F, WrapCoordinates>::create(n.im, w, h);
    return {im, J::obj({{"k", "pad"}, {"i", J::raw(n.s)}, {"w", w}, {"h", h}, {"how", how[k]}, {"v", v}}).s, w, h, n.bound, n.sq};
  }
  Node any(bool sq, int depth) {
    if (depth <= 0) {
      for (int t = 0; t < 8; ++t) { int k = r.below(bases.size()); if (bases[k].sq == sq) return vec(k); }
      return leaf(r.range(1, 8), r.range(1, 8), sq);
    }
    int what = sq ? r.below(5) : r.below(13);
    if (what == 12 && !buffered) what = 5;
    if (!sq && buffered && r.chance(1, 3)) what = 12;
    Node n = any(sq, depth - 1);
    switch (what) {
      case 0: { int w = r.range(1, n.w), h = r.range(1, n.h); return sub(n, r.range(0, n.w - w), r.range(0, n.h - h), w, h); }
      case 1: return {MirrorImage<F>::create(n.im), J::obj({{"k", "mirror"}, {"i", J::raw(n.s)}}).s, n.w, n.h, n.bound, sq};
      case 2: case 3: {
        int w = n.w + r.below(r.chance(1, 4) ? 3 * n.w + 4 : 5), h = n.h + r.below(r.chance(1, 4) ? 3 * n.h + 4 : 5);
        if (w * h > MAXPIX) return n;
        return pad(n, w, h);
      }
      case 4: { int x = r.below(n.w + 1), y = r.below(n.h + 1); return {RecenterImage<F>::create(n.im, PixelCoordinate(x, y)), J::obj({{"k", "recenter"}, {"i", J::raw(n.s)}, {"x", x}, {"y", y}}).s, n.w, n.h, n.bound, sq}; }
      case 5: case 6: {
        int f = r.range(1, 5);
        auto im = FunctionalImage<F>::create(n.im, [f](int x, int y, F v) -> F { switch (f) { case 1: return 2 * v + 1; case 2: return v + x - 3 * y; case 3: return -v; case 4: return v < 0 ? 0 : v; default: return (x + y) % 2 == 0 ? v : 7; } });
        return {im, J::obj({{"k", "func"}, {"i", J::raw(n.s)}, {"f", f}}).s, n.w, n.h, 2 * n.bound + 200, false};
      }
      case 7: case 8: {
        Node m = sized(n.w, n.h, r.chance(1, 2), depth - 1);
        // the mask as whole numbers
        Img mi = m.im;
        auto mask = FunctionalImage<int, F>::create(mi, [](int, int, F v) -> int { return int(v); });
        int op = r.below(3), flag = op == 0 ? 1 << r.below(3) : r.range(-3, 6), v = r.range(-99, 99); Img im;
        if (op == 0) im = MaskedImage<F, int>::create(n.im, mask, F(v), flag);
        else if (op == 1) im = MaskedImage<F, int, std::greater>::create(n.im, mask, F(v), flag);
        else im = MaskedImage<F, int, std::equal_to>::create(n.im, mask, F(v), flag);
        static const char* ops[] = {"and", "greater", "equal"};
        return {im, J::obj({{"k", "masked"}, {"i", J::raw(n.s)}, {"m", J::raw(m.s)}, {"op", ops[op]}, {"flag", flag}, {"v", v}}).s, n.w, n.h, std::max(n.bound, 100l), false};
      }
      case 9: {
        Node m = sized(n.w, n.h, false, depth - 1);
        bool con = r.chance(1, 3); int v = r.range(-20, 20);
        if (con) return {SubtractImage<F>::create(n.im, F(v)), J::obj({{"k", "minus"}, {"i", J::raw(n.s)}, {"j", J::raw(J::obj({{"k", "const"}, {"w", n.w}, {"h", n.h}, {"v", v}}).s)}}).s, n.w, n.h, n.bound + 20, false};
        return {SubtractImage<F>::create(n.im, m.im), J::obj({{"k", "minus"}, {"i", J::raw(n.s)}, {"j", J::raw(m.s)}}).s, n.w, n.h, n.bound + m.bound, false};
      }
      case 10: {
        if (n.bound > 100000) return n;
        if (r.chance(1, 2)) { int v = r.range(-4, 4); return {MultiplyImage<F>::create(n.im, F(v)), J::obj({{"k", "times"}, {"i", J::raw(n.s)}, {"j", J::raw(J::obj({{"k", "const"}, {"w", n.w}, {"h", n.h}, {"v", v}}).s)}}).s, n.w, n.h, n.bound * 4, false}; }
        Node m = sized(n.w, n.h, false, depth - 1);
        if (n.bound * m.bound > 400000) return n;
        return {MultiplyImage<F>::create(n.im, m.im), J::obj({{"k", "times"}, {"i", J::raw(n.s)}, {"j", J::raw(m.s)}}).s, n.w, n.h, n.bound * m.bound, false};
      }
      case 11: {
        Node m = sized(n.w, n.h, true, depth - 1); int t = r.range(-3, 5);
        return {ThresholdedImage<F>::create(n.im, m.im, F(t)), J::obj({{"k", "thr"}, {"i", J::raw(n.s)}, {"var", J::raw(m.s)}, {"t", t}}).s, n.w, n.h, n.bound + 50, false};
      }
      default: {
        Node m = sized(n.w, n.h, true, depth - 1); int t = r.chance(1, 2) ? r.range(1, 4) : r.range(2, 20), gap = r.below(7);
        auto im = BufferedImage<F>::create(std::make_shared<InterpolatedImageSource<F>>(n.im, m.im, F(t), gap), tm);
        return {im, J::obj({{"k", "interp"}, {"i", J::raw(n.s)}, {"var", J::raw(m.s)}, {"t", t}, {"gap", gap}}).s, n.w, n.h, n.bound, n.sq};
      }
    }
  }
};
static int whole(F v) { int i = int(v < 0 ? v - 0.5f : v + 0.5f); return (v - i > 0.001f || i - v > 0.001f) ? -123456789 : i; }
static std::vector<int> all(const VectorImage<F>& im) { std::vector<int> v; for (int y = 0; y < im.getHeight(); ++y) for (int x = 0; x < im.getWidth(); ++x) v.push_back(whole(im.getValue(x, y))); return v; }
static void compose(uint64_t seed) {
  Rng r(seed * 15485863 + 11);
  std::vector<Base> bases; std::string bj = "[";
  int nb = r.range(2, 4), cw = r.range(1, 8), ch = r.range(1, 8);
  for (int i = 0; i < nb; ++i) {
    bool sq = i > 0 && r.chance(1, 2); int w = r.chance(1, 2) ? cw : r.range(1, 8), h = r.chance(1, 2) ? ch : r.range(1, 8);
    std::vector<F> d(w * h); for (auto& v : d) { int q = r.below(6); v = sq ? q * q : r.range(-60, 60); }
    auto im = r.chance(1, 2) ? VectorImage<F>::create(w, h, d) : VectorImage<F>::create(w, h, d.begin(), d.end());
    bases.push_back({im, w, h, sq});
    if (i) bj += ","; bj += J(all(*im)).s;
  }
  bool buffered = r.chance(1, 3);
  auto tm = std::make_shared<TileManager>(); tm->setOptions(r.range(1, 5), r.range(1, 5), r.below(2) * 4);
  L.ev({{"e", "Begin"}, {"seed", seed}, {"base", J::raw(bj + "]")}});
  Gen g{r, bases, buffered, tm};
  std::vector<Node> ex; int steps = r.range(8, 20);
  auto rect = [&](int k) {
    Node& n = ex[k]; int w = r.range(1, std::min(6, n.w)), h = r.range(1, std::min(6, n.h)), x = r.range(0, n.w - w), y = r.range(0, n.h - h);
    if (r.chance(1, 4)) { x = n.w - w; y = n.h - h; }
    std::shared_ptr<ImageChunk<F>> ch2; int how = r.below(3);
    if (how == 0) ch2 = n.im->getChunk(x, y, w, h);
    else if (how == 1) ch2 = n.im->getChunk(PixelCoordinate(x, y), PixelCoordinate(x + w - 1, y + h - 1));
    else {
      // a rectangle of a larger rectangle
      int X = r.range(0, x), Y = r.range(0, y), WW = r.range(x + w, n.w) - X, HH = r.range(y + h, n.h) - Y;
      ch2 = n.im->getChunk(X, Y, WW, HH)->getChunk(x - X, y - Y, w, h);
    }
    std::vector<int> v; bool good = ch2->getWidth() == w && ch2->getHeight() == h;
    if (good) for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) v.push_back(whole(r.chance(1, 2) ? ch2->getValue(i, j) : ch2->getValue(PixelCoordinate(i, j))));
    L.ev({{"e", "Rect"}, {"x", k + 1}, {"at", std::vector<int>{x, y, w, h}}, {"v", v}});
  };
  for (int s = 0; s < steps; ++s) {
    int what = r.below(12);
    if (ex.empty() || what < 3) {
      Node n = g.any(false, r.range(1, 4));
      if (r.chance(1, 12)) {
        // signal to noise, in sixtieths
        int v[] = {1, 4, 16};
        Node var{ConstantImage<F>::create(n.w, n.h, F(v[r.below(3)])), "", n.w, n.h, 25, true};
        int q = whole(var.im->getChunk(0, 0, 1, 1)->getValue(0, 0));
        Img im = FunctionalImage<F>::create(SnrImage<F>::create(n.im, var.im), [](int, int, F x) -> F { return 60 * x; });
        if (n.bound < 100000) n = {im, J::obj({{"k", "snr"}, {"i", J::raw(n.s)}, {"var", J::obj({{"k", "const"}, {"w", n.w}, {"h", n.h}, {"v", q}})}}).s, n.w, n.h, n.bound * 60, false};
      }
      if (n.w * n.h > MAXPIX) continue;
      ex.push_back(n);
      L.ev({{"e", "New"}, {"x", J::raw(n.s)}, {"w", n.im->getWidth()}, {"h", n.im->getHeight()}});
      rect(ex.size() - 1);
    } else if (what < 8) rect(r.below(ex.size()));
    else if (what == 8) {
      int k = r.below(ex.size()); Node& n = ex[k];
      ImageAccessor<F> acc(n.im, static_cast<typename ImageAccessor<F>::AccessHint>(r.below(3)), r.range(1, 5), r.range(1, 5));
      for (int i = 0; i < 4; ++i) { int x = r.below(n.w), y = r.below(n.h); L.ev({{"e", "Pix"}, {"x", k + 1}, {"at", std::vector<int>{x, y}}, {"v", whole(acc.getValue(x, y))}}); }
    } else if (what == 9 && !buffered) {
      int k = r.below(bases.size()); auto& b = bases[k]; int x = r.below(b.w), y = r.below(b.h), q = r.below(6), v = b.sq ? q * q : r.range(-60, 60);
      if (r.chance(1, 2)) b.im->setValue(x, y, F(v)); else b.im->at(x, y) = F(v);
      L.ev({{"e", "Set"}, {"b", k + 1}, {"k", y * b.w + x + 1}, {"v", v}});
    } else if (what == 10) {
      int k = r.below(ex.size()); if (ex[k].bound > 5000) continue;
      auto im = r.chance(1, 2) ? copyOf(ex[k].im) : VectorImage<F>::create(*ex[k].im);
      L.ev({{"e", "Copy"}, {"x", k + 1}});
      bases.push_back({im, ex[k].w, ex[k].h, ex[k].sq});
      bases.back().sq = false;
      // the copy of a copy, of the same type
      if (r.chance(1, 3)) {
        auto c2 = VectorImage<F>::create(static_cast<const VectorImage<F>&>(*im));
        ex.push_back(g.vec(bases.size() - 1)); ex.back().bound = 10000;
        L.ev({{"e", "New"}, {"x", J::raw(ex.back().s)}, {"w", im->getWidth()}, {"h", im->getHeight()}});
        L.ev({{"e", "Copy"}, {"x", ex.size()}});
        bases.push_back({c2, ex.back().w, ex.back().h, false});
      }
    } else if (what == 11) { int k = r.below(bases.size()); L.ev({{"e", "Base"}, {"b", k + 1}, {"v", all(*bases[k].im)}}); }
  }
  for (size_t k = 0; k < bases.size(); ++k) L.ev({{"e", "Base"}, {"b", k + 1}, {"v", all(*bases[k].im)}});
  L.ev({{"e", "End"}});
  L.flush();
}
static void access(uint64_t seed) {
  Rng r(seed * 32452843 + 29);
  int w = r.range(1, r.chance(1, 8) ? 150 : 12), h = r.range(1, r.chance(1, 8) ? 150 : 12);
  if (w * h > 2000) h = 2000 / w;
  std::vector<F> d(w * h); for (int i = 0; i < w * h; ++i) d[i] = i;
  std::vector<Base> bases{{VectorImage<F>::create(w, h, d), w, h, false}};
  L.ev({{"e", "Begin"}, {"seed", seed}, {"base", J::raw("[" + J(all(*bases[0].im)).s + "]")}});
  auto tm = std::make_shared<TileManager>(); tm->setOptions(r.range(1, 5), r.range(1, 5), 0);
  Gen g{r, bases, false, tm};
  Node n = g.vec(0);
  if (w * h < 100 && r.chance(1, 2)) n = g.any(false, r.range(1, 2));
  L.ev({{"e", "New"}, {"x", J::raw(n.s)}, {"w", n.im->getWidth()}, {"h", n.im->getHeight()}});
  int na = r.range(1, 4);
  for (int a = 0; a < na; ++a) {
    auto hint = static_cast<typename ImageAccessor<F>::AccessHint>(r.below(3));
    int rw = r.chance(1, 4) ? 64 : r.range(1, n.w + 2), rh = r.chance(1, 4) ? 64 : r.range(1, n.h + 2);
    std::unique_ptr<ImageAccessor<F>> acc;
    switch (r.below(5)) {
      case 0: acc.reset(new ImageAccessor<F>(n.im)); break;
      case 1: acc.reset(new ImageAccessor<F>(*n.im)); break;
      case 2: acc.reset(new ImageAccessor<F>(*n.im, hint, rw, rh)); break;
      default: acc.reset(new ImageAccessor<F>(n.im, hint, rw, rh));
    }
    if (acc->getWidth() != n.w || acc->getHeight() != n.h) L.ev({{"e", "WrongSize"}});
    int steps = r.range(3, 14), x = r.below(n.w), y = r.below(n.h), walk = r.below(5);
    if (r.chance(1, 4)) { x = r.chance(1, 2) ? 0 : n.w - 1; y = r.chance(1, 2) ? 0 : n.h - 1; }
    for (int s = 0; s < steps; ++s) {
      if (r.chance(1, 10)) { std::unique_ptr<ImageAccessor<F>> other(new ImageAccessor<F>(std::move(*acc))); acc = std::move(other); }
      if (r.chance(1, 8)) {
        int cw = r.range(1, std::min(5, n.w - x)), ch = r.range(1, std::min(5, n.h - y));
        auto c = acc->getChunk(x, y, cw, ch); std::vector<int> v;
        for (int j = 0; j < ch; ++j) for (int i = 0; i < cw; ++i) v.push_back(whole(c->getValue(i, j)));
        L.ev({{"e", "Rect"}, {"x", 1}, {"at", std::vector<int>{x, y, cw, ch}}, {"v", v}});
      } else L.ev({{"e", "Pix"}, {"x", 1}, {"at", std::vector<int>{x, y}}, {"v", whole(r.chance(1, 2) ? acc->getValue(x, y) : acc->getValue(PixelCoordinate(x, y)))}});
      switch (walk) {
        case 0: if (++x == n.w) { x = 0; if (++y == n.h) y = 0; } break;
        case 1: if (--x < 0) { x = n.w - 1; if (--y < 0) y = n.h - 1; } break;
        case 2: x = r.below(n.w); y = r.below(n.h); break;
        case 3: x = std::max(0, std::min(n.w - 1, x + r.range(-rw, rw))); y = std::max(0, std::min(n.h - 1, y + r.range(-rh, rh))); break;
        default: x = std::max(0, std::min(n.w - 1, x + r.range(-1, 1))); y = std::max(0, std::min(n.h - 1, y + r.range(-1, 1)));
      }
    }
  }
  L.ev({{"e", "End"}});
  L.flush();
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1);
  std::string mode = arg(argc, argv, "--mode", "compose");
  for (long i = 0; i < n; ++i) if (mode == "compose") compose(first + i); else access(first + i);
}

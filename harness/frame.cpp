// Random settings of a frame, with requests for its layers in between.
#include <cmath>
#include <limits>
#include "vplog.h"
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/FunctionalImage.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
using F = float;
using Img = std::shared_ptr<Image<F>>;
struct Filter : MeasurementImageFrame::ImageFilter {
  int f; explicit Filter(int k) : f(k) {}
  Img processImage(Img im, Img var, F limit) const override {
    int k = f;
    if (k == 1) return FunctionalImage<F>::create(im, [](int, int, F v) -> F { return 4 * v; });
    if (k == 2) return FunctionalImage<F>::create(im, [](int, int, F v) -> F { return -v; });
    if (k == 3) { auto c = VectorImage<F>::create(im->getWidth(), im->getHeight()); auto q = im->getChunk(0, 0, im->getWidth(), im->getHeight()); for (int y = 0; y < im->getHeight(); ++y) for (int x = 0; x < im->getWidth(); ++x) c->setValue(x, y, q->getValue(std::min(x + 1, im->getWidth() - 1), y)); return c; }
    auto v = VectorImage<F>::create(std::shared_ptr<const Image<F>>(var));
    return FunctionalImage<F>::create(im, [v, limit](int x, int y, F p) -> F { return v->getValue(x, y) < limit ? p : 9; });
  }
};
static int whole(double v) { double i = std::floor(v + 0.5); return std::abs(v - i) > 0.02 ? -123456789 : int(i); }
static std::vector<F> random(Rng& r, int n, bool sq) { std::vector<F> d(n); for (auto& v : d) { int q = r.range(1, 5); v = sq ? q * q : r.range(-60, 60); } return d; }
static std::vector<int> ints(const std::vector<F>& d) { std::vector<int> v; for (auto x : d) v.push_back(whole(x)); return v; }
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1);
  static const std::pair<const char*, FrameImageLayer> layers[] = {
    {"original", LayerOriginalImage}, {"interpolated", LayerInterpolatedImage}, {"subtracted", LayerSubtractedImage}, {"filtered", LayerFilteredImage}, {"thresholded", LayerThresholdedImage},
    {"snr", LayerSignalToNoiseMap}, {"original variance", LayerOriginalVarianceMap}, {"unfiltered variance", LayerUnfilteredVarianceMap}, {"variance", LayerVarianceMap}, {"threshold map", LayerDetectionThresholdMap}};
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 67867979 + 5);
    int w = r.range(1, 7), h = r.range(1, 7), gap = r.chance(1, 3) ? 0 : r.below(5), gain = r.below(100), sat = r.below(1000);
    TileManager::getInstance()->setOptions(r.range(1, 5), r.range(1, 5), r.below(2) * 2);
    auto im = random(r, w * h, false), var = random(r, w * h, true);
    int vt = r.chance(1, 5) ? -1 : r.range(1, 27);
    std::shared_ptr<MeasurementImageFrame> f;
    Img vi = VectorImage<F>::create(w, h, var);
    if (r.chance(1, 6)) { vt = 1000000; gap = 0; gain = 0; sat = 0; f = std::make_shared<MeasurementImageFrame>(VectorImage<F>::create(w, h, im), nullptr, vi); }
    else f = std::make_shared<MeasurementImageFrame>(VectorImage<F>::create(w, h, im), vi, vt < 0 ? std::numeric_limits<F>::max() : F(vt), nullptr, gain, sat, gap);
    std::string meta = J::obj({{"vt", vt}, {"gain", gain}, {"sat", sat}, {"rms", 0}, {"label", ""}, {"hdu", 0}}).s;
    L.ev({{"e", "Begin"}, {"seed", first + i}, {"w", w}, {"h", h}, {"s", J::obj({{"im", ints(im)}, {"var", ints(var)}, {"bg", std::vector<int>{}}, {"vt", vt}, {"dt", 0}, {"gap", gap}, {"filter", 0}, {"meta", J::raw(meta)}})}});
    int steps = r.range(6, 20), filter = 0;
    for (int s = 0; s < steps; ++s) {
      int what = r.below(16);
      if (what < 8) {
        int k = r.below(12);
        Img q; const char* name;
        if (k == 11) { name = "background"; q = f->getBackgroundLevelMap(); }
        else {
          k = k == 10 ? 4 : k; name = layers[k].first; if (k == 5 && filter == 2) continue;
          if (r.chance(1, 2)) q = f->getImage(layers[k].second);
          else switch (k) { case 0: q = f->getOriginalImage(); break; case 1: q = f->getInterpolatedImage(); break; case 2: q = f->getSubtractedImage(); break; case 3: q = f->getFilteredImage(); break; case 4: q = f->getThresholdedImage(); break;
            case 5: q = f->getSnrImage(); break; case 6: q = f->getOriginalVarianceMap(); break; case 7: q = f->getUnfilteredVarianceMap(); break; case 8: q = f->getVarianceMap(); break; default: q = f->getDetectionThresholdMap(); }
        }
        double scale = std::string(name) == "snr" ? 60 : 1;
        std::vector<int> v;
        if (q->getWidth() == w && q->getHeight() == h) {
          if (r.chance(1, 2)) { auto c = q->getChunk(0, 0, w, h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) v.push_back(whole(scale * c->getValue(x, y))); }
          else for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) v.push_back(whole(scale * q->getChunk(x, y, 1, 1)->getValue(0, 0)));
        }
        L.ev({{"e", "Layer"}, {"n", name}, {"v", v}});
      } else if (what == 8) {
        float lim = f->getVarianceThreshold();
        L.ev({{"e", "Meta"}, {"v", J::obj({{"vt", lim > 1e30 ? -1 : whole(lim)}, {"gain", whole(f->getGain())}, {"sat", whole(f->getSaturation())}, {"rms", whole(f->getBackgroundMedianRms())}, {"label", f->getLabel()}, {"hdu", f->getHduIndex()}})}});
      } else if (what == 9) { auto d = random(r, w * h, true); f->setVarianceMap(VectorImage<F>::create(w, h, d)); L.ev({{"e", "SetVariance"}, {"v", ints(d)}}); }
      else if (what == 10) { int v = r.range(1, 27); f->setVarianceThreshold(v); L.ev({{"e", "SetLimit"}, {"v", v}}); }
      else if (what == 11) { int v = r.range(-3, 5); f->setDetectionThreshold(v); L.ev({{"e", "SetThreshold"}, {"v", v}}); }
      else if (what < 14) {
        if (r.chance(1, 2)) { int v = r.range(-9, 9); f->setBackgroundLevel(F(v)); L.ev({{"e", "SetBackground"}, {"v", std::vector<int>(w * h, v)}, {"rms", 0}}); }
        else { auto d = random(r, w * h, false); int rms = r.range(0, 50); f->setBackgroundLevel(VectorImage<F>::create(w, h, d), rms); L.ev({{"e", "SetBackground"}, {"v", ints(d)}, {"rms", rms}}); }
      }
      else if (what == 14) { filter = r.below(5); f->setFilter(filter ? std::make_shared<Filter>(filter) : nullptr); L.ev({{"e", "SetFilter"}, {"v", filter}}); }
      else if (r.chance(1, 2)) { std::string t = r.chance(1, 2) ? "a" : "frame"; f->setLabel(t); L.ev({{"e", "SetLabel"}, {"v", t}}); }
      else { int v = r.below(9); f->setHduIndex(v); L.ev({{"e", "SetHdu"}, {"v", v}}); }
    }
    L.ev({{"e", "End"}});
    L.flush();
  }
}

// The curve itself, and the rectangles the BFS segmentation reads when it goes over a frame.
#include "vplog.h"
#include "SEUtils/HilbertCurve.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Source/SourceFactory.h"
#include "SEImplementation/Segmentation/BFSSegmentation.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
static J list(const std::vector<PixelCoordinate>& v) { std::string s = "["; for (auto& p : v) { if (s.size() > 1) s += ","; s += "[" + std::to_string(p.m_x) + "," + std::to_string(p.m_y) + "]"; } return J::raw(s + "]"); }
/// An image with nothing in it that remembers what was read
struct Recorder : Image<SeFloat> {
  int w, h; mutable std::string s = "[";
  Recorder(int a, int b) : w(a), h(b) {}
  std::string getRepr() const override { return "recorder"; }
  int getWidth() const override { return w; }
  int getHeight() const override { return h; }
  std::shared_ptr<ImageChunk<SeFloat>> getChunk(int x, int y, int cw, int ch) const override {
    if (s.size() > 1) s += ","; s += "[" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(cw) + "," + std::to_string(ch) + "]";
    return UniversalImageChunk<SeFloat>::create(std::vector<SeFloat>(cw * ch, -1.f), cw, ch);
  }
};
struct Filter : DetectionImageFrame::ImageFilter {
  std::shared_ptr<Recorder> rec; mutable int n = 0;
  std::shared_ptr<Image<SeFloat>> processImage(std::shared_ptr<Image<SeFloat>> im, std::shared_ptr<Image<SeFloat>>, SeFloat) const override { return n++ == 0 ? std::static_pointer_cast<Image<SeFloat>>(rec) : im; }
};
struct NoSources : SourceFactory { std::unique_ptr<SourceInterface> createSource() const override { return nullptr; } };
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1);
  int curves = argi(argc, argv, "--curves", 20);
  for (int size = 1; size <= curves; ++size) {
    Rng r(size);
    L.ev({{"e", "Begin"}, {"seed", size}, {"w", 0}, {"h", 0}, {"tw", 0}, {"th", 0}});
    HilbertCurve c(size);
    auto pts = c.getCurve();
    L.ev({{"e", "Curve"}, {"size", size}, {"p", list(pts)}});
    for (int k = 0; k < 10; ++k) { int i = r.below(size * size); auto p = c.get2DCoordinate(i); L.ev({{"e", "Point"}, {"of", 1}, {"i", i}, {"p", std::vector<int>{p.m_x, p.m_y}}}); }
    L.ev({{"e", "End"}});
    L.flush();
  }
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 50331653 + 1);
    int tw = r.range(1, 7), th = r.range(1, 7), w = r.range(1, 20), h = r.range(1, 20);
    if (r.chance(1, 4)) { w = r.range(1, 40); h = r.range(1, 4); }
    if (r.chance(1, 4)) { h = r.range(1, 40); w = r.range(1, 4); }
    if (r.chance(1, 5)) w = tw * r.range(1, 5);
    if (r.chance(1, 5)) h = th * r.range(1, 5);
    if (r.chance(1, 20)) { tw = 256; th = 256; }
    TileManager::getInstance()->setOptions(tw, th, 10);
    auto img = ConstantImage<SeFloat>::create(w, h, 0);
    auto frame = std::make_shared<DetectionImageFrame>(img);
    auto f = std::make_shared<Filter>(); f->rec = std::make_shared<Recorder>(w, h);
    frame->setFilter(f);
    L.ev({{"e", "Begin"}, {"seed", first + i}, {"w", w}, {"h", h}, {"tw", tw}, {"th", th}});
    Segmentation seg(nullptr);
    Segmentation::LabellingListener listener(seg, frame);
    BFSSegmentation bfs(std::make_shared<NoSources>(), 1000);
    f->rec->s = "[";
    bfs.labelImage(listener, frame);
    L.ev({{"e", "Tiles"}, {"r", J::raw(f->rec->s + "]")}});
    L.ev({{"e", "End"}});
    L.flush();
  }
}

// Labels images with the real segmentation made by the real factory; records the detections and requests it emits.
#include <fstream>
#include <unistd.h>
#include "vplog.h"
#include "vpconfig.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Property/DetectionFrame.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEImplementation/Grouping/LineSelectionCriteria.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
#include "SEImplementation/Property/SourceId.h"
#include "SEImplementation/Segmentation/SegmentationFactory.h"
#include "SEImplementation/Segmentation/Lutz.h"
#include "vpsources.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
static std::string pixels(const std::vector<PixelCoordinate>& v) {
  std::string s = "[";
  for (auto& p : v) { if (s.size() > 1) s += ","; s += "[" + std::to_string(p.m_x) + "," + std::to_string(p.m_y) + "]"; }
  return s + "]";
}
/// The line a request selects up to, seen only through the criterion itself
static int lineOf(const SelectionCriteria& crit) {
  int best = -1000;
  for (int y = -2; y < 200; ++y) {
    FakeSource s(0);
    static_cast<SourceInterface&>(s).setProperty<PixelCentroid>(0.0, y - 0.5);
    if (crit.mustBeProcessed(s)) best = y; else break;
  }
  return best;
}
struct Sink : PipelineReceiver<SourceInterface>, Observer<SegmentationProgress> {
  std::shared_ptr<DetectionImageFrame> frame;
  unsigned base = 0;
  bool slim = false;
  struct Access : DetectionFrame { using DetectionFrame::getFrame; };
  void receiveSource(std::unique_ptr<SourceInterface> s) override {
    bool fr = (s->getProperty<DetectionFrame>().*(&Access::getFrame))() == frame;
    auto& id = s->getProperty<SourceId>();
    if (!base) base = id.getSourceId();
    L.ev({{"e", "Pub"}, {"px", J::raw(pixels(s->getProperty<PixelCoordinateList>().getCoordinateList()))}, {"fr", fr}, {"id", static_cast<int>(id.getSourceId() - base)}, {"det", static_cast<int>(id.getDetectionId() - base)}});
  }
  void receiveProcessSignal(const ProcessSourcesEvent& e) override {
    bool all = dynamic_cast<const SelectAllCriteria*>(e.m_selection_criteria.get()) != nullptr;
    L.ev({{"e", "Req"}, {"all", all}, {"line", all ? 0 : lineOf(*e.m_selection_criteria)}});
  }
  void handleMessage(const SegmentationProgress& p) override { if (!slim) L.ev({{"e", "Prog"}, {"pos", p.position}, {"total", p.total}}); }
};
static std::vector<int> bits(const Image<SeFloat>& img) {
  std::vector<int> v;
  auto c = img.getChunk(0, 0, img.getWidth(), img.getHeight());
  for (int y = 0; y < img.getHeight(); ++y) for (int x = 0; x < img.getWidth(); ++x) v.push_back(c->getValue(x, y) > 0 ? 1 : 0);
  return v;
}
struct Case { int w, h, tw, th, window, delta, thr; std::string alg; std::vector<float> img, var; bool slim; std::string filter; };
static void run(const Case& k, uint64_t seed) {
  TileManager::getInstance()->setOptions(k.tw, k.th, 1);
  SegmentationFactory f(std::make_shared<TaskProvider>(std::make_shared<TaskFactoryRegistry>()));
  std::vector<std::string> o{"segmentation-algorithm", k.alg, "segmentation-use-filtering", k.filter.empty() ? "false" : "true",
                             "segmentation-lutz-window-size", std::to_string(k.window), "segmentation-bfs-max-delta", std::to_string(k.delta)};
  if (!k.filter.empty() && k.filter != "default") { o.push_back("segmentation-filter"); o.push_back(k.filter); }
  configure(f, o);
  auto seg = f.createSegmentation();
  auto img = VectorImage<SeFloat>::create(k.w, k.h, k.img);
  auto var = VectorImage<WeightImage::PixelType>::create(k.w, k.h, k.var);
  auto frame = std::make_shared<DetectionImageFrame>(img, var, 1e6, nullptr, 1, 1e9, 0);
  frame->setDetectionThreshold(k.thr);
  auto sink = std::make_shared<Sink>();
  sink->frame = frame;
  sink->slim = k.slim;
  seg->setNextStage(sink);
  seg->Observable<SegmentationProgress>::addObserver(sink);
  std::vector<int> on;
  if (k.filter.empty()) { for (size_t i = 0; i < k.img.size(); ++i) on.push_back(k.img[i] > k.thr * std::sqrt(k.var[i]) ? 1 : 0); }
  else {
    // the filtered image as it is without tiles
    TileManager::getInstance()->setOptions(1000, 1000, 100);
    configure(f, o);
    auto f2 = std::make_shared<DetectionImageFrame>(img, var, 1e6, nullptr, 1, 1e9, 0);
    f2->setDetectionThreshold(k.thr);
    struct Null : Segmentation::Labelling { std::shared_ptr<const DetectionImageFrame> got; std::vector<int>* on; Null(std::vector<int>* o) : on(o) {} void labelImage(Segmentation::LabellingListener&, std::shared_ptr<const DetectionImageFrame> fr) override { *on = bits(*fr->getThresholdedImage()); } };
    auto seg2 = f.createSegmentation();
    seg2->setLabelling<Null>(&on);
    seg2->processFrame(f2);
    TileManager::getInstance()->setOptions(k.tw, k.th, 1);
  }
  L.ev({{"e", "Begin"}, {"seed", seed}, {"alg", k.alg}, {"w", k.w}, {"h", k.h}, {"window", k.window}, {"delta", k.delta}, {"tw", k.tw}, {"th", k.th}, {"slim", k.slim}, {"on", on}});
  seg->processFrame(frame);
  L.ev({{"e", "End"}});
  L.flush();
}
/// the labelling used inside the partition steps: a bare list of groups with an offset
static void runList(Rng& r, uint64_t seed) {
  Case k;
  k.w = r.range(1, 14); k.h = r.range(1, 12);
  int d = r.range(1, 9), ox = r.range(-3, 50), oy = r.range(-3, 50);
  TileManager::getInstance()->setOptions(r.range(1, 6), r.range(1, 6), 1);
  std::vector<int> on;
  for (int i = 0; i < k.w * k.h; ++i) { on.push_back(r.below(10) < d ? 1 : 0); k.img.push_back(on.back() ? r.range(1, 5) : -r.below(3)); }
  auto img = VectorImage<SeFloat>::create(k.w, k.h, k.img);
  L.ev({{"e", "Begin"}, {"seed", seed}, {"alg", "list"}, {"w", k.w}, {"h", k.h}, {"window", 0}, {"delta", 0}, {"tw", 0}, {"th", 0}, {"slim", true}, {"on", on}});
  LutzList l;
  l.labelImage(*img, PixelCoordinate(ox, oy));
  int n = 0;
  for (auto& g : l.getGroups()) {
    std::vector<PixelCoordinate> v;
    for (auto& p : g.pixel_list) v.push_back(p - PixelCoordinate(ox, oy));
    L.ev({{"e", "Pub"}, {"px", J::raw(pixels(v))}, {"fr", true}, {"id", n}, {"det", n}});
    ++n;
  }
  L.ev({{"e", "Req"}, {"all", true}, {"line", 0}});
  L.ev({{"e", "End"}});
  L.flush();
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  std::string dir = arg(argc, argv, "--scratch", "/tmp");
  // every image of the given sizes
  std::stringstream sizes(arg(argc, argv, "--all", ""));
  std::string one;
  long id = 0;
  while (std::getline(sizes, one, ',')) {
    int w = one[0] - '0', h = one[1] - '0';
    for (const char* alg : {"LUTZ", "BFS"})
      for (long b = 0; b < (1L << (w * h)); ++b) {
        Case k{w, h, w > 2 ? 2 : 1, h > 3 ? 2 : 1, 0, 1000, 1, alg, {}, {}, true, ""};
        for (int i = 0; i < w * h; ++i) { k.img.push_back((b >> i & 1) ? 3 : 1); k.var.push_back(1); }
        run(k, id++);
      }
  }
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1);
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 7919 + 3);
    if (i % 8 == 7) { runList(r, first + i); continue; }
    bool big = i % 40 == 3;
    Case k;
    k.alg = r.chance(1, 2) ? "LUTZ" : "BFS";
    k.w = r.range(1, big ? 40 : 14); k.h = r.range(1, big ? 40 : 14);
    k.tw = r.range(1, r.chance(1, 2) ? 4 : 20); k.th = r.range(1, r.chance(1, 2) ? 4 : 20);
    k.window = r.chance(1, 2) ? 0 : r.range(1, 6);
    k.delta = r.chance(1, 2) ? 1000 : r.range(0, 8);
    k.thr = r.range(0, 3);
    k.slim = false;
    k.filter = "";
    int d = r.range(1, 9), style = r.below(4);
    for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x) {
      int s = r.range(1, 3);
      k.var.push_back(s * s);
      bool on = r.below(10) < d;
      if (style == 1) on = (x + 2 * y) % 4 < 2 ? r.below(10) < d + 1 : r.below(10) < 1;     // diagonal stripes
      if (style == 2) { int q = std::min(std::min(x, y), std::min(k.w - 1 - x, k.h - 1 - y)); on = q % 2 == 0 && !(x == q + 1 && y == q); if (r.chance(1, 15)) on = !on; }  // rings and spirals
      if (style == 3) on = (x % 2 == 0 && y > r.below(k.h)) || (y == k.h - 1 && r.chance(2, 3));   // combs
      int t = k.thr * s;
      k.img.push_back(on ? t + r.range(1, 4) : t - r.below(3));
    }
    std::string file;
    if (i % 5 == 2) {
      k.filter = "default";
      if (r.chance(2, 3)) {
        file = dir + "/filter-" + std::to_string(getpid()) + ".conv";
        std::ofstream o(file);
        o << "CONV " << (r.chance(1, 2) ? "NORM" : "NONORM") << "\n# comment\n";
        int kw = 2 * r.below(3) + 1, kh = 2 * r.below(3) + 1;
        for (int y = 0; y < kh; ++y) { for (int x = 0; x < kw; ++x) o << (x ? " " : "") << r.range(1, 4) / 4.0; o << "\n"; }
        k.filter = file;
      }
    }
    run(k, first + i);
    if (!file.empty()) unlink(file.c_str());
  }
}

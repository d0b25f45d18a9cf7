// Runs chains of real partition steps on detections and records what every step made of them.
#include <cmath>
#include <map>
#include <set>
#include "vplog.h"
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Pipeline/Partition.h"
#include "SEFramework/Property/DetectionFrame.h"
#include "SEFramework/Source/SourceWithOnDemandProperties.h"
#include "SEFramework/Source/SourceWithOnDemandPropertiesFactory.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEImplementation/Partition/AttractorsPartitionStep.h"
#include "SEImplementation/Partition/MinAreaPartitionStep.h"
#include "SEImplementation/Partition/MultiThresholdPartitionStep.h"
#include "SEImplementation/Plugin/AssocMode/AssocMode.h"
#include "SEImplementation/Plugin/AssocMode/AssocModePartitionStep.h"
#include "SEImplementation/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.h"
#include "SEImplementation/Plugin/DetectionFrameImages/DetectionFrameImages.h"
#include "SEImplementation/Plugin/DetectionFrameImages/DetectionFrameImagesTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFramePixelValues/DetectionFramePixelValues.h"
#include "SEImplementation/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStamp.h"
#include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTaskFactory.h"
#include "SEImplementation/Plugin/PeakValue/PeakValue.h"
#include "SEImplementation/Plugin/PeakValue/PeakValueTaskFactory.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundariesTaskFactory.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroidTaskFactory.h"
#include "SEImplementation/Plugin/ShapeParameters/ShapeParameters.h"
#include "SEImplementation/Plugin/ShapeParameters/ShapeParametersTaskFactory.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
#include "SEImplementation/Property/SourceId.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
static std::string pixels(const SourceInterface& src) {
  std::string s = "[";
  for (auto& p : src.getProperty<PixelCoordinateList>().getCoordinateList()) { if (s.size() > 1) s += ","; s += "[" + std::to_string(p.m_x) + "," + std::to_string(p.m_y) + "]"; }
  return s + "]";
}
struct World {
  std::shared_ptr<DetectionImageFrame> frame;
  std::map<const SourceInterface*, int> handle;
  int next = 1;
  unsigned base = 0;
  int sid(const SourceInterface& s) { try { unsigned v = s.getProperty<SourceId>().getSourceId(); if (!base) base = v; return v - base; } catch (const Elements::Exception&) { return -1; } }
  int det(const SourceInterface& s) { try { return s.getProperty<SourceId>().getDetectionId() - base; } catch (const Elements::Exception&) { return -1; } }
  struct Access : DetectionFrame { using DetectionFrame::getFrame; };
  bool fr(const SourceInterface& s) { try { return (s.getProperty<DetectionFrame>().*(&Access::getFrame))() == frame; } catch (const Elements::Exception&) { return false; } }
};
struct Recorder : PartitionStep {
  std::shared_ptr<PartitionStep> real; World& w; int k;
  Recorder(std::shared_ptr<PartitionStep> r, World& ww, int kk) : real(r), w(ww), k(kk) {}
  std::vector<std::unique_ptr<SourceInterface>> partition(std::unique_ptr<SourceInterface> s) const override {
    const SourceInterface* p = s.get();
    auto it = w.handle.find(p);
    int h = it == w.handle.end() ? -1 : it->second, sid = w.sid(*p);
    std::string px = pixels(*p);
    auto out = real->partition(std::move(s));
    bool same = false;
    for (auto& o : out) same |= o.get() == p;
    if (!same) w.handle.erase(p);
    std::string j = "[";
    for (auto& o : out) {
      bool known = o.get() == p;
      if (!known || !w.handle.count(o.get())) w.handle[o.get()] = w.next++;
      if (j.size() > 1) j += ",";
      j += J::obj({{"h", w.handle[o.get()]}, {"px", J::raw(pixels(*o))}, {"sid", w.sid(*o)}, {"det", w.det(*o)}, {"fr", w.fr(*o)}}).s;
    }
    L.ev({{"e", "Step"}, {"k", k}, {"h", h}, {"sid", sid}, {"px", J::raw(px)}, {"out", J::raw(j + "]")}});
    return out;
  }
};
struct Sink : PipelineReceiver<SourceInterface> {
  World& w;
  explicit Sink(World& ww) : w(ww) {}
  void receiveSource(std::unique_ptr<SourceInterface> s) override {
    auto it = w.handle.find(s.get());
    L.ev({{"e", "Emit"}, {"h", it == w.handle.end() ? -1 : it->second}, {"px", J::raw(pixels(*s))}});
    if (it != w.handle.end()) w.handle.erase(it);
  }
  void receiveProcessSignal(const ProcessSourcesEvent&) override { L.ev({{"e", "Req"}}); }
};
static void run(uint64_t seed) {
  Rng r(seed * 48271 + 11);
  TileManager::getInstance()->setOptions(64, 64, 10);
  auto reg = std::make_shared<TaskFactoryRegistry>();
  auto prov = std::make_shared<TaskProvider>(reg);
  reg->registerTaskFactory<ShapeParametersTaskFactory, ShapeParameters>();
  reg->registerTaskFactory<PixelCentroidTaskFactory, PixelCentroid>();
  reg->registerTaskFactory<DetectionFramePixelValuesTaskFactory, DetectionFramePixelValues>();
  reg->registerTaskFactory<PeakValueTaskFactory, PeakValue>();
  reg->registerTaskFactory<PixelBoundariesTaskFactory, PixelBoundaries>();
  reg->registerTaskFactory<DetectionFrameImagesTaskFactory, DetectionFrameImages>();
  reg->registerTaskFactory<DetectionFrameSourceStampTaskFactory, DetectionFrameSourceStamp>();
  auto factory = std::make_shared<SourceWithOnDemandPropertiesFactory>(prov);
  World w;
  int big = seed % 100 == 7 ? 2 : 1, W = r.range(2, 16) * big, H = r.range(2, 16) * big;
  // the steps of the chain
  std::vector<std::shared_ptr<PartitionStep>> steps;
  std::string sj = "[";
  int n = r.range(1, 5), b = r.chance(2, 3) ? 2 : 3;
  if (b == 3 && n > 3) n = 3;
  auto add = [&](std::shared_ptr<PartitionStep> s, J j) { steps.push_back(std::make_shared<Recorder>(s, w, static_cast<int>(steps.size()) + 1)); if (sj.size() > 1) sj += ","; sj += j.s; };
  auto area = [&] { int m = r.range(0, 8); add(std::make_shared<MinAreaPartitionStep>(m), J::obj({{"t", "area"}, {"min", m}})); };
  auto core = [&] { int m = r.range(1, 6), snr = r.range(5, 30); add(std::make_shared<CoreThresholdPartitionStep>(snr, m), J::obj({{"t", "core"}, {"min", m}, {"snr", snr}})); };
  if (r.chance(1, 6)) { bool q = r.chance(1, 2); add(std::make_shared<AssocModePartitionStep>(q), J::obj({{"t", "assoc"}, {"req", q}})); }
  if (r.chance(1, 3)) area();
  bool attr = r.chance(1, 3);
  if (attr) add(std::make_shared<AttractorsPartitionStep>(factory), J::obj({{"t", "attr"}}));
  else if (r.chance(9, 10)) {
    int m = r.range(1, 4);
    static const int cps[] = {0, 0, 0, 1, 5, 20, 50, 100, 300};
    int cp = cps[r.below(9)], levels = r.chance(1, 5) ? r.range(6, 40) : n;
    add(std::make_shared<MultiThresholdPartitionStep>(factory, static_cast<SeFloat>(cp / 1000.0), levels, m, r.below(1000)), J::obj({{"t", "multi"}, {"n", levels}, {"b", b}, {"min", m}, {"cp", cp}}));
  }
  if (r.chance(1, 3)) core();
  if (r.chance(1, 4)) area();
  // the frame: overlapping peaks on a floor
  int peak = 4; for (int i = 0; i < n; ++i) peak *= b;
  std::set<int> forbidden; { int t = 4; for (int i = 0; i < n; ++i) { forbidden.insert(t); t *= b; } }
  std::vector<int> img(W * H);
  int style = r.below(4), peaks = r.range(1, 5);
  std::vector<std::array<int, 3>> ps;
  for (int i = 0; i < peaks; ++i) ps.push_back({r.below(W), r.below(H), i ? r.range(5, peak) : peak});
  if (attr && r.chance(3, 4)) {  // all values different
    std::vector<std::pair<double, int>> order;
    for (int i = 0; i < W * H; ++i) { double v = 0; for (auto& p : ps) v = std::max(v, p[2] * std::pow(0.7, std::hypot(i % W - p[0], i / W - p[1]))); order.push_back({style ? v + r.below(100) * 1e-3 : r.below(1000), i}); }
    std::sort(order.begin(), order.end());
    for (int i = 0; i < W * H; ++i) img[order[i].second] = i + 5;
  } else {
    double fall = style == 0 ? 0.5 : style == 1 ? 0.7 : 0.4;
    for (int i = 0; i < W * H; ++i) {
      double v = 0;
      for (auto& p : ps) v = std::max(v, p[2] * std::pow(fall, std::hypot(i % W - p[0], i / W - p[1])));
      int k = style == 3 ? r.range(5, peak) : static_cast<int>(v) + r.below(3);
      k = std::max(5, std::min(peak, k));
      while (forbidden.count(k)) ++k;
      if (k > peak) k = peak;
      img[i] = k;
    }
  }
  std::vector<float> fimg(img.begin(), img.end());
  w.frame = std::make_shared<DetectionImageFrame>(VectorImage<SeFloat>::create(W, H, fimg), VectorImage<WeightImage::PixelType>::create(W, H, std::vector<float>(W * H, 1.f)), 1e6, nullptr, 1, 1e9, 0);
  L.ev({{"e", "Begin"}, {"seed", seed}, {"w", W}, {"h", H}, {"img", img}, {"steps", J::raw(sj + "]")}});
  Partition stage(steps);
  stage.setNextStage(std::make_shared<Sink>(w));
  int cnt = r.range(1, 3);
  for (int i = 0; i < cnt; ++i) {
    std::vector<PixelCoordinate> px;
    int x0 = r.below(W), y0 = r.below(H), x1 = r.range(x0, W - 1), y1 = r.range(y0, H - 1), hole = r.below(4), thr = r.chance(1, 2) ? 0 : r.range(5, 12);
    if (r.chance(1, 3)) { x0 = y0 = 0; x1 = W - 1; y1 = H - 1; }
    bool lo = false, hi = false;
    for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) { int v = img[y * W + x]; if (v >= thr && !r.chance(hole, 12)) { px.push_back(PixelCoordinate(x, y)); lo |= v == 5; hi |= v == peak; } }
    auto has = [&](int x, int y) { for (auto& p : px) if (p.m_x == x && p.m_y == y) return true; return false; };
    // bring in the extremes, which make the thresholds whole numbers
    if (r.chance(3, 4)) for (int k = 0; k < W * H && !(lo && hi); ++k) { int v = img[k]; if (((v == 5 && !lo) || (v == peak && !hi)) && !has(k % W, k / W)) { px.push_back(PixelCoordinate(k % W, k / W)); lo |= v == 5; hi |= v == peak; } }
    if (px.empty()) px.push_back(PixelCoordinate(x0, y0));
    if (r.chance(1, 3)) for (size_t k = px.size(); k > 1; --k) std::swap(px[k - 1], px[r.below(k)]);
    auto s = factory->createSource();
    s->setProperty<SourceId>();
    s->setProperty<DetectionFrame>(w.frame);
    s->setProperty<PixelCoordinateList>(px);
    bool match = r.chance(1, 2);
    s->setProperty<AssocMode>(match, std::vector<double>{}, 0., 0., 0);
    int h = w.next++;
    w.handle[s.get()] = h;
    int sid = w.sid(*s);
    L.ev({{"e", "Feed"}, {"h", h}, {"px", J::raw(pixels(*s))}, {"sid", sid}, {"det", w.det(*s)}, {"match", match}});
    stage.receiveSource(std::move(s));
    if (r.chance(1, 4)) stage.receiveProcessSignal(ProcessSourcesEvent(nullptr));
  }
  L.ev({{"e", "End"}});
  L.flush();
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1);
  for (long i = 0; i < n; ++i) run(first + i);
}

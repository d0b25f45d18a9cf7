// Runs chains of real deblending steps on real groups and records what every step made of them.
#include <cmath>
#include <map>
#include <set>
#include "vplog.h"
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Pipeline/Deblending.h"
#include "SEFramework/Property/DetectionFrame.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEFramework/Source/SourceGroupWithOnDemandProperties.h"
#include "SEFramework/Source/SourceWithOnDemandProperties.h"
#include "SEFramework/Source/SourceWithOnDemandPropertiesFactory.h"
#include "SEFramework/Task/SourceTask.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEImplementation/Deblending/Cleaning.h"
#include "SEImplementation/Plugin/DetectionFramePixelValues/DetectionFramePixelValues.h"
#include "SEImplementation/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFrameImages/DetectionFrameImages.h"
#include "SEImplementation/Plugin/DetectionFrameImages/DetectionFrameImagesTaskFactory.h"
#include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStamp.h"
#include "SEImplementation/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTaskFactory.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelEvaluator.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundariesTaskFactory.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
#include "SEImplementation/Property/SourceId.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
static int s_salt = 0;
// the profile of a source: some function of its pixels
struct EvalTask : SourceTask {
  void computeProperties(SourceInterface& s) const override {
    auto& px = s.getProperty<PixelCoordinateList>().getCoordinateList();
    double x = 0, y = 0; unsigned h = 17 + s_salt;
    for (auto& p : px) { x += p.m_x; y += p.m_y; h += p.m_x * 131 + p.m_y * 77; }
    Rng r(h);
    double i0 = r.chance(1, 4) ? r.range(100, 900) : r.range(1, 40);
    MoffatModelFitting mf(x / px.size(), y / px.size(), i0, 0.5 + r.below(20) / 10.0, 2.0, 0.0, 400, 0.5 + r.below(30) / 10.0, 0.5 + r.below(30) / 10.0, r.below(30) / 10.0, 5);
    s.setProperty<MoffatModelEvaluator>(mf);
  }
};
struct EvalFactory : TaskFactory {
  std::shared_ptr<Task> createTask(const PropertyId&) const override { return std::make_shared<EvalTask>(); }
};
static std::string pxs(const std::vector<PixelCoordinate>& v) {
  std::string s = "[";
  for (auto& p : v) { if (s.size() > 1) s += ","; s += "[" + std::to_string(p.m_x) + "," + std::to_string(p.m_y) + "]"; }
  return s + "]";
}
struct World {
  std::shared_ptr<DetectionImageFrame> frame;
  unsigned base = 0;
  int k = 0, rep = 1;
  struct Access : DetectionFrame { using DetectionFrame::getFrame; };
  J group(const SourceGroupInterface& g) {
    std::string j = "[";
    for (auto& s : g) {
      bool fr = false;
      try { fr = (s.getProperty<DetectionFrame>().*(&Access::getFrame))() == frame; } catch (const Elements::Exception&) {}
      auto& id = s.getProperty<SourceId>();
      if (!base) base = id.getSourceId();
      if (j.size() > 1) j += ",";
      j += J::obj({{"sid", static_cast<int>(id.getSourceId() - base)}, {"det", static_cast<int>(id.getDetectionId() - base)}, {"fr", fr}, {"px", J::raw(pxs(s.getProperty<PixelCoordinateList>().getCoordinateList()))}}).s;
    }
    return J::raw(j + "]");
  }
};
struct Small : DeblendStep {  // a step of the driver's own: removes small sources
  size_t m; explicit Small(int mm) : m(mm) {}
  void deblend(SourceGroupInterface& g) const override {
    for (auto it = g.begin(); it != g.end();) if (it->getProperty<PixelCoordinateList>().getCoordinateList().size() < m) it = g.removeSource(it); else ++it;
  }
};
struct Recorder : DeblendStep {
  std::shared_ptr<DeblendStep> real; World& w; int k; std::string t; int min;
  Recorder(std::shared_ptr<DeblendStep> r, World& ww, int kk, std::string tt, int m) : real(r), w(ww), k(kk), t(tt), min(m) {}
  void deblend(SourceGroupInterface& g) const override {
    J in = w.group(g);
    std::vector<PixelCoordinate> all;
    std::string model = "[";
    if (t == "clean") {
      for (auto& s : g) for (auto& p : s.getProperty<PixelCoordinateList>().getCoordinateList()) all.push_back(p);
      for (auto& s : g) {
        auto& ev = s.getProperty<MoffatModelEvaluator>();
        std::vector<int> v;
        for (auto& p : all) v.push_back(static_cast<int>(std::lround(ev.getValue(p.m_x, p.m_y) * 1000)));
        if (model.size() > 1) model += ",";
        model += J::obj({{"sid", static_cast<int>(s.getProperty<SourceId>().getSourceId() - w.base)}, {"v", v}}).s;
      }
    }
    real->deblend(g);
    L.ev({{"e", "Step"}, {"k", k}, {"rep", w.rep}, {"t", t}, {"min", min}, {"in", in}, {"all", J::raw(pxs(all))}, {"model", J::raw(model + "]")}, {"out", w.group(g)}});
  }
};
struct Sink : PipelineReceiver<SourceGroupInterface> {
  World& w; bool got = false;
  explicit Sink(World& ww) : w(ww) {}
  void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { L.ev({{"e", "Emit"}, {"src", w.group(*g)}}); got = true; }
  void receiveProcessSignal(const ProcessSourcesEvent&) override { L.ev({{"e", "Req"}}); }
};
static void history(uint64_t seed, World& w, int W, int H, const std::vector<int>& img, const std::vector<std::pair<std::string, int>>& chain) {
  auto reg = std::make_shared<TaskFactoryRegistry>();
  auto prov = std::make_shared<TaskProvider>(reg);
  reg->registerTaskFactory<DetectionFramePixelValuesTaskFactory, DetectionFramePixelValues>();
  reg->registerTaskFactory<DetectionFrameImagesTaskFactory, DetectionFrameImages>();
  reg->registerTaskFactory<PixelBoundariesTaskFactory, PixelBoundaries>();
  reg->registerTaskFactory<DetectionFrameSourceStampTaskFactory, DetectionFrameSourceStamp>();
  reg->registerTaskFactory<EvalFactory, MoffatModelEvaluator>();
  auto factory = std::make_shared<SourceWithOnDemandPropertiesFactory>(prov);
  std::vector<std::shared_ptr<DeblendStep>> steps;
  for (auto& st : chain) {
    std::shared_ptr<DeblendStep> real;
    if (st.first == "clean") real = std::make_shared<Cleaning>(factory, st.second); else real = std::make_shared<Small>(st.second);
    steps.push_back(std::make_shared<Recorder>(real, w, static_cast<int>(steps.size()) + 1, st.first, st.second));
  }
  Deblending stage(steps);
  auto sink = std::make_shared<Sink>(w);
  stage.setNextStage(sink);
  Rng r(seed * 7919 + 3);
  int groups = r.range(1, 2);
  // scatter the free memory: the order of the addresses has to be irrelevant
  std::vector<void*> mem;
  for (int round = 0; round < 2; ++round) for (size_t sz : {24, 32, 40, 48, 64}) for (int i = 0; i < 12; ++i) mem.push_back(std::malloc(sz));
  Rng lay(seed * 31 + w.rep * 1009);
  for (size_t k = mem.size(); k > 1; --k) std::swap(mem[k - 1], mem[lay.below(k)]);
  for (void* m : mem) std::free(m);
  for (int g = 0; g < groups; ++g) {
    s_salt = static_cast<int>(seed % 100000) * 7 + g;
    int n = r.range(1, 7);
    std::vector<int> owner(W * H, -1);
    // regions around random centres
    std::vector<std::array<int, 3>> ctr;
    for (int i = 0; i < n; ++i) ctr.push_back({r.below(W), r.below(H), r.range(1, 3)});
    std::vector<std::vector<PixelCoordinate>> px(n);
    for (int i = 0; i < n; ++i) owner[ctr[i][1] * W + ctr[i][0]] = i;
    for (int p = 0; p < W * H; ++p) {
      int o = owner[p];
      for (int i = 0; i < n && o < 0; ++i) if (std::abs(p % W - ctr[i][0]) < ctr[i][2] && std::abs(p / W - ctr[i][1]) < ctr[i][2] && !r.chance(1, 6)) o = i;
      if (o >= 0) px[o].push_back(PixelCoordinate(p % W, p / W));
    }
    std::unique_ptr<SourceGroupInterface> group;
    if (r.chance(1, 3)) group.reset(new SimpleSourceGroup()); else group.reset(new SourceGroupWithOnDemandProperties(prov));
    unsigned det = 0;
    for (int i = 0; i < n; ++i) {
      if (px[i].empty()) continue;
      auto s = factory->createSource();
      if (det && r.chance(1, 2)) s->setProperty<SourceId>(det); else s->setProperty<SourceId>();
      det = s->getProperty<SourceId>().getDetectionId();
      s->setProperty<DetectionFrame>(w.frame);
      s->setProperty<PixelCoordinateList>(px[i]);
      group->addSource(std::move(s));
    }
    L.ev({{"e", "Feed"}, {"src", w.group(*group)}});
    sink->got = false;
    stage.receiveSource(std::move(group));
    if (!sink->got) L.ev({{"e", "Dropped"}});
    if (r.chance(1, 4)) stage.receiveProcessSignal(ProcessSourcesEvent(nullptr));
  }
}
static void run(uint64_t seed) {
  Rng r(seed * 48271 + 11);
  TileManager::getInstance()->setOptions(64, 64, 10);
  int W = r.range(3, 9), H = r.range(3, 9);
  std::vector<int> img(W * H);
  int hi = r.range(3, 120);
  for (auto& v : img) v = r.range(1, hi);
  std::vector<float> fimg(img.begin(), img.end());
  std::vector<std::pair<std::string, int>> chain;
  int n = r.chance(1, 12) ? 0 : r.chance(1, 2) ? 1 : r.range(1, 3);
  for (int i = 0; i < n; ++i) { bool cl = r.chance(3, 4); chain.push_back({cl ? "clean" : "small", cl ? (r.chance(1, 2) ? r.range(1, 3) : r.range(0, 8)) : r.range(0, 4)}); }
  World w;
  w.frame = std::make_shared<DetectionImageFrame>(VectorImage<SeFloat>::create(W, H, fimg), VectorImage<WeightImage::PixelType>::create(W, H, std::vector<float>(W * H, 1.f)), 1e6, nullptr, 1, 1e9, 0);
  L.ev({{"e", "Begin"}, {"seed", seed}, {"w", W}, {"h", H}, {"img", img}, {"n", n}});
  for (w.rep = 1; w.rep <= 2; ++w.rep) history(seed, w, W, H, img, chain);
  L.ev({{"e", "End"}});
  L.flush();
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1);
  for (long i = 0; i < n; ++i) run(first + i);
}

// Drives the real grouping stages, made by the real factory from user options, and records what they release.
#include <cmath>
#include "vplog.h"
#include "vpsources.h"
#include "Configuration/ConfigManager.h"
#include "SEFramework/Source/SimpleSourceGroupFactory.h"
#include "SEFramework/Source/SourceGroupWithOnDemandPropertiesFactory.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
#include "SEImplementation/Grouping/GroupingFactory.h"
#include "SEImplementation/Grouping/LineSelectionCriteria.h"
#include "SEImplementation/Plugin/AssocMode/AssocMode.h"
#include "SEImplementation/Plugin/MoffatModelFitting/MoffatModelEvaluator.h"
#include "SEImplementation/Plugin/PeakValue/PeakValue.h"
#include "SEImplementation/Plugin/PixelBoundaries/PixelBoundaries.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Property/SourceId.h"
using namespace SourceXtractor;
using namespace vp;
namespace po = boost::program_options;
static Log L;
struct Sink : PipelineReceiver<SourceGroupInterface> {
  std::vector<std::string> out;
  void receiveSource(std::unique_ptr<SourceGroupInterface> g) override {
    std::vector<int> t;
    for (auto& s : *g) t.push_back(tagOf(s));
    out.push_back(J(t).s);
  }
  void receiveProcessSignal(const ProcessSourcesEvent&) override {}
  J take() { std::string s = "["; for (size_t i = 0; i < out.size(); ++i) s += (i ? "," : "") + out[i]; out.clear(); return J::raw(s + "]"); }
};
struct Attr { int det, gid, box[4], cx, cy, it; std::shared_ptr<MoffatModelEvaluator> ev; double peak; };
static void run(uint64_t seed, int maxn) {
  Rng r(seed * 2654435761u + 9);
  static const char* names[] = {"none", "overlap", "split", "assoc", "moffat"};
  std::string algo = names[seed % 5];
  int n = r.range(1, maxn), limit = r.chance(1, 2) ? 0 : r.range(1, 4), maxdist = r.range(3, 30), thr = r.range(1, 400) * 1000;
  int span = r.chance(1, 4) ? 200 : r.range(4, 40);
  bool big = algo == "moffat" && seed % 500 == 4;  // enough sources at once for the search tree to be divided
  if (big) { n = 140; span = 120; }
  L.ev({{"e", "Begin"}, {"seed", seed}, {"algo", algo}, {"limit", limit}, {"maxdist", maxdist}, {"thr", thr}, {"n", n}});
  std::shared_ptr<SourceGroupFactory> gf;
  if (r.chance(1, 2)) gf = std::make_shared<SimpleSourceGroupFactory>();
  else gf = std::make_shared<SourceGroupWithOnDemandPropertiesFactory>(std::make_shared<TaskProvider>(std::make_shared<TaskFactoryRegistry>()));
  GroupingFactory factory(gf);
  auto& cm = Euclid::Configuration::ConfigManager::getInstance(Euclid::Configuration::ConfigManager::getUniqueManagerId());
  factory.reportConfigDependencies(cm);
  cm.closeRegistration();
  Euclid::Configuration::Configuration::UserValues args;
  std::string spelled = algo;
  if (r.chance(1, 2)) for (auto& ch : spelled) ch = std::toupper(ch);
  args["grouping-algorithm"] = po::variable_value(spelled, false);
  args["grouping-hard-limit"] = po::variable_value(static_cast<unsigned int>(limit), false);
  args["grouping-moffat-threshold"] = po::variable_value(thr / 1e6, false);
  args["grouping-moffat-max-distance"] = po::variable_value(static_cast<double>(maxdist), false);
  cm.initialize(args);
  factory.configure(cm);
  auto grouping = factory.createGrouping();
  auto sink = std::make_shared<Sink>();
  grouping->setNextStage(sink);
  std::vector<Attr> at;
  std::vector<bool> held;
  int line = -5;
  for (int i = 1; i <= n; ++i) {
    Attr a;
    a.det = r.range(1, 3); a.gid = r.range(0, 2);
    a.cx = r.below(span); a.cy = r.below(span);
    int w = r.below(std::max(2, span / 6)), h = r.below(std::max(2, span / 6));
    a.box[0] = a.cx - w / 2; a.box[1] = a.cy - h / 2; a.box[2] = a.box[0] + w; a.box[3] = a.box[1] + h;
    a.it = r.chance(1, 6) ? 0 : r.range(1, 50);
    a.peak = r.range(1, 1000) / 10.0;
    std::string imp = "[";
    if (algo == "moffat") {
      double i0 = r.range(1, 5000) / 10.0;
      MoffatModelFitting mf(a.cx, a.cy, i0, 0.5 + r.range(0, 20) / 10.0, 2.0, 0.0, 400, 0.5 + r.range(0, 30) / 10.0, 0.5 + r.range(0, 30) / 10.0, r.range(0, 30) / 10.0, a.it);
      a.ev = std::make_shared<MoffatModelEvaluator>(mf);
      for (size_t k = 0; k < at.size(); ++k) {
        auto ppm = [](double v) { v *= 1e6; if (!(v < 2e9)) v = 2e9; if (v < -2e9) v = -2e9; return static_cast<long>(std::llround(v)); };
        long xy = ppm(a.ev->getValue(at[k].cx, at[k].cy) / at[k].peak), yx = ppm(at[k].ev->getValue(a.cx, a.cy) / a.peak);
        if (xy == thr || yx == thr) { a.it = 0; if (yx == thr) a.peak *= 1.3; yx = ppm(at[k].ev->getValue(a.cx, a.cy) / a.peak); k = static_cast<size_t>(-1); imp = "["; continue; }
        imp += (imp.size() > 1 ? "," : "") + J(std::vector<long>{static_cast<long>(k + 1), xy, yx}).s;
      }
    }
    imp += "]";
    at.push_back(a);
    std::unique_ptr<FakeSource> s(new FakeSource(i));
    auto& si = static_cast<SourceInterface&>(*s);
    si.setProperty<SourceId>(static_cast<unsigned>(a.det));
    si.setProperty<AssocMode>(a.gid != 0 || r.chance(1, 2), std::vector<double>{}, 1.0, 1.0, static_cast<unsigned>(a.gid));
    si.setProperty<PixelBoundaries>(a.box[0], a.box[1], a.box[2], a.box[3]);
    si.setProperty<PixelCentroid>(a.cx, a.cy);
    si.setProperty<PeakValue>(0.0, a.peak, a.cx, a.cy);
    if (a.ev) {
      MoffatModelFitting mf(a.cx, a.cy, 1, 1, 2, 0, 100, 1, 1, 0, a.it);
      // the model was made above; only the number of iterations may have been cleared since
      if (a.it == 0) si.setProperty<MoffatModelEvaluator>(mf); else si.setProperty<MoffatModelEvaluator>(*a.ev);
    }
    grouping->receiveSource(std::move(s));
    L.ev({{"e", "Recv"}, {"x", i}, {"a", J::obj({{"det", a.det}, {"gid", a.gid}, {"box", std::vector<int>(a.box, a.box + 4)}, {"cx", a.cx}, {"cy", a.cy}, {"it", a.it}, {"imp", J::raw(imp)}})}, {"out", sink->take()}});
    if (big && i < 135) continue;
    if (r.chance(1, 4)) {
      line = r.below(span + 2);
      grouping->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<LineSelectionCriteria>(line)));
      L.ev({{"e", "Proc"}, {"kind", "line"}, {"line", line}, {"out", sink->take()}});
    } else if (r.chance(1, 12)) {
      grouping->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>()));
      L.ev({{"e", "Proc"}, {"kind", "all"}, {"line", 0}, {"out", sink->take()}});
    }
  }
  grouping->receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>()));
  L.ev({{"e", "Proc"}, {"kind", "all"}, {"line", 0}, {"out", sink->take()}});
  L.ev({{"e", "End"}});
  L.flush();
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1), maxn = argi(argc, argv, "--sources", 12);
  for (long i = 0; i < n; ++i) run(first + i, maxn);
}

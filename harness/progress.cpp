// The progress mediator and the logger, told by several threads under the controlled scheduler.
#include <csignal>
#include <thread>
#include "vplog.h"
#include "vpsched.h"
#include "vpsources.h"
#include "ElementsKernel/Logging.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEMain/ProgressMediator.h"
#include "SEMain/ProgressLogger.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
static std::vector<std::vector<long>> s_block;
static void onLog(const std::string& who, char, const std::string& m) {
  if (who != "Progress") return;
  long a = -1, b = -1; char label[40] = "";
  int n = std::sscanf(m.c_str(), "%39[^:]: %ld / %ld", label, &a, &b); if (n < 2) return;
  std::string l = label; long k = l == "Segmentation" ? 1 : l == "Detected" ? 2 : l == "Deblended" ? 3 : l == "Measured" ? 4 : 0;
  if (k) L.ev({{"e", "Line"}, {"k", k}, {"done", a}, {"total", n == 3 ? b : -1}});
  else L.ev({{"e", "Lines"}});
}
struct Shown : Observer<std::list<ProgressInfo>> {
  std::vector<std::shared_ptr<ProgressLogger>> inner;
  void handleMessage(const std::list<ProgressInfo>& i) override {
    std::string s = "["; for (auto& p : i) { if (s.size() > 1) s += ","; s += J::obj({{"l", p.m_label}, {"d", p.m_done}, {"t", p.m_total}}).s; }
    L.ev({{"e", "Shown"}, {"i", J::raw(s + "]")}});
    for (int k = 0; k < 2; ++k) point();
    for (auto& l : inner) l->handleMessage(i);
    L.ev({{"e", "ShownEnd"}});
  }
};
struct Done : Observer<bool> { void handleMessage(const bool& d) override { L.ev({{"e", "Done"}, {"d", d}}); } };
static void execution(uint64_t seed) {
  Rng r(seed * 104729 + 13);
  int nt = r.range(1, 4); bool logger = r.chance(2, 3);
  L.ev({{"e", "Begin"}, {"seed", seed}, {"threads", nt}, {"logger", logger}});
  SchedOptions o; o.seed = seed;
  runControlled(o, [&]() {
    ProgressMediator m;
    auto shown = std::make_shared<Shown>(); m.ProgressObservable::addObserver(shown);
    if (logger) {
      shown->inner.push_back(std::make_shared<ProgressLogger>(std::chrono::seconds(r.chance(1, 2) ? 3600 : 0)));
      auto last = std::make_shared<ProgressLogger>(std::chrono::seconds(3600)); shown->inner.push_back(last); m.DoneObservable::addObserver(last);
    }
    m.DoneObservable::addObserver(std::make_shared<Done>());
    // the first thread reports like the pipeline's own, the others like measurement workers
    std::vector<std::vector<std::pair<int, int>>> plan(nt);
    for (int t = 0; t < nt; ++t) for (int k = r.range(1, 6); k > 0; --k) plan[t].push_back({t == 0 ? r.below(3) : r.chance(1, 5) ? r.range(1, 2) : 3, r.range(0, 4)});
    auto work = [&](int t) {
      int pos = 0;
      for (auto& p : plan[t]) {
        if (p.first == 0) { pos += p.second; L.ev({{"e", "Call"}, {"k", 1}, {"n", pos}}); m.getSegmentationObserver()->handleMessage(SegmentationProgress{pos, 40}); L.ev({{"e", "Ret"}, {"k", 1}, {"n", pos}}); }
        else if (p.first == 1) { FakeSource s(1); L.ev({{"e", "Call"}, {"k", 2}, {"n", 1}}); m.getDetectionObserver()->handleMessage(s); L.ev({{"e", "Ret"}, {"k", 2}, {"n", 1}}); }
        else {
          SimpleSourceGroup g; for (int q = 0; q < p.second; ++q) g.addSource(std::unique_ptr<SourceInterface>(new FakeSource(q)));
          L.ev({{"e", "Call"}, {"k", p.first + 1}, {"n", p.second}}); (p.first == 2 ? m.getDeblendingObserver() : m.getMeasurementObserver())->handleMessage(g); L.ev({{"e", "Ret"}, {"k", p.first + 1}, {"n", p.second}});
        }
        point();
      }
    };
    std::vector<std::thread> ts; for (int t = 1; t < nt; ++t) ts.emplace_back(work, t);
    work(0);
    for (auto& t : ts) t.join();
    L.ev({{"e", "Final"}});
    m.done();
  }, [&](Outcome oc, const std::string& d) {
    L.ev({{"e", "Hang"}, {"how", oc == Outcome::DEADLOCK ? "deadlock" : "no progress"}, {"threads", d}});
    L.flush(); std::_Exit(97);
  });
  L.ev({{"e", "End"}});
  L.flush();
}
int main(int argc, char** argv) {
  std::signal(SIGTERM, SIG_IGN);
  L.open(arg(argc, argv, "--out")); Elements::Logging::hook() = onLog;
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1);
  for (long i = 0; i < n; ++i) execution(first + i);
}

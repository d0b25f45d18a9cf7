// Drives the real Prefetcher under the controlled scheduler and records what is visible at its interface.
#include <deque>
#include <nlohmann/json.hpp>
#include <fstream>
#include "vplog.h"
#include "vpsched.h"
#include "vpsources.h"
#include "AlexandriaKernel/ThreadPool.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEImplementation/Prefetcher/Prefetcher.h"
using namespace SourceXtractor;
using namespace vp;
struct P0 : Property {};
struct P1 : Property {};
class Crit : public SelectionCriteria {
public:
  int id;
  explicit Crit(int i) : id(i) {}
  bool mustBeProcessed(const SourceInterface&) const override { return true; }
};
static Log L;
struct Gate {  // soft order: a step waits for its turn, with patience
  std::vector<std::string> order;
  size_t next = 0;
  size_t given_up = 0;
  void pass(const std::string& what) {
    if (next >= order.size()) return;
    int patience = 600;
    waitUntil([&]() { return next >= order.size() || order[next] == what || --patience < 0; });
    if (next < order.size()) { if (order[next] == what) ++next; else ++given_up; }
  }
};
struct Sink : PipelineReceiver<SourceInterface> {
  int policy = 0;
  Gate* gate = nullptr;
  std::deque<std::unique_ptr<SourceInterface>> kept;
  void receiveSource(std::unique_ptr<SourceInterface> s) override {
    int t = tagOf(*s);
    if (gate) gate->pass("O" + std::to_string(t));
    L.ev({{"e", "Deliver"}, {"k", "src"}, {"id", t}});
    kept.push_back(std::move(s));
    if (policy == 1) kept.clear();
    if (policy == 2 && kept.size() > 1) kept.pop_front();
    point();
    point();
  }
  void receiveProcessSignal(const ProcessSourcesEvent& e) override {
    int id = static_cast<const Crit&>(*e.m_selection_criteria).id;
    if (gate) gate->pass("S" + std::to_string(id));
    L.ev({{"e", "Deliver"}, {"k", "sig"}, {"id", id}});
    if (policy == 3) kept.clear();
    point();
  }
};
static void execution(uint64_t seed, const std::vector<std::string>* sched, int mworkers, int mmaxq, int mprops, int limit) {
  Rng r(seed * 7919 + 3);
  int workers = sched ? mworkers : r.range(1, 4), maxq = sched ? mmaxq : r.range(1, 5), nsrc = r.range(1, limit), nprops = sched ? 1 : r.range(0, 3);
  int policy = sched ? 1 : r.below(4);
  Gate gate;
  if (sched) { gate.order = *sched; nsrc = 0; for (auto& s : *sched) if (s[0] == 'F') nsrc++; }
  std::vector<int> props;
  for (int i = 0; i < nprops; ++i) props.push_back(i);
  L.ev({{"e", "Begin"}, {"seed", seed}, {"maxq", maxq}, {"workers", workers}, {"props", props}});
  SchedOptions o;
  o.seed = seed;
  runControlled(o, [&]() {
    auto pool = std::make_shared<Euclid::ThreadPool>(workers, 20);
    auto sink = std::make_shared<Sink>();
    sink->policy = policy;
    if (sched) sink->gate = &gate;
    {
      Prefetcher pf(pool, maxq);
      std::vector<PropertyId> ids;
      for (int p : props) ids.push_back(p < 2 ? PropertyId::create<P0>(p) : PropertyId::create<P1>(0));
      pf.requestProperties(ids);
      pf.setNextStage(sink);
      FakeSource::Maker maker = [&](FakeSource& s, const PropertyId& id) -> std::unique_ptr<Property> {
        int p = id == PropertyId::create<P0>(0) ? 0 : id == PropertyId::create<P0>(1) ? 1 : id == PropertyId::create<P1>(0) ? 2 : -1;
        if (p < 0) return nullptr;
        for (int k = 0; k < static_cast<int>(s.tag % 3); ++k) point();
        if (sched) gate.pass("C" + std::to_string(s.tag));
        L.ev({{"e", "Compute"}, {"id", s.tag}, {"p", p}});
        if (p == 2) return std::unique_ptr<Property>(new P1());
        return std::unique_ptr<Property>(new P0());
      };
      int sig = 0, idx = 0;
      auto feed = [&](int t) {
        auto s = std::unique_ptr<SourceInterface>(new FakeSource(t, maker));
        L.ev({{"e", "Feed"}, {"id", t}});
        pf.receiveSource(std::move(s));
        L.ev({{"e", "Accept"}});
      };
      auto signal = [&](int k) {
        L.ev({{"e", "Signal"}, {"id", k}});
        pf.receiveProcessSignal(ProcessSourcesEvent(std::make_shared<Crit>(k)));
      };
      if (sched) {
        for (auto& s : *sched) {
          if (s[0] == 'F') { gate.pass(s); feed(std::atoi(s.c_str() + 1)); }
          if (s[0] == 'G') { gate.pass(s); signal(std::atoi(s.c_str() + 1)); }
        }
      } else {
        for (int i = 1; i <= nsrc; ++i) {
          feed(i);
          if (r.chance(1, 3)) signal(++sig);
          if (r.chance(1, 8)) signal(++sig);
          if (r.chance(1, 10)) { pf.synchronize(); L.ev({{"e", "Drained"}}); }
        }
        if (r.chance(1, 2)) { pf.synchronize(); L.ev({{"e", "Drained"}}); }
      }
      if (sched || r.chance(3, 4)) { pf.wait(); L.ev({{"e", "Drained"}}); }
    }
    L.ev({{"e", "Drained"}});
    pool.reset();
  }, [&](Outcome oc, const std::string& d) {
    L.ev({{"e", "Hang"}, {"how", oc == Outcome::DEADLOCK ? "deadlock" : "no progress"}, {"threads", d}});
    L.flush();
    std::_Exit(97);
  });
  L.ev({{"e", "End"}, {"steps", steps()}, {"sched", std::to_string(schedHash())}, {"gave_up", gate.given_up}});
  L.flush();
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1), limit = argi(argc, argv, "--sources", 8);
  std::string sf = arg(argc, argv, "--schedules");
  if (!sf.empty()) {
    std::ifstream in(sf);
    auto j = nlohmann::json::parse(in);
    long k = 0;
    for (auto& s : j["schedules"]) {
      auto v = s.get<std::vector<std::string>>();
      execution(first + k++, &v, j["workers"], j["maxq"], 1, limit);
    }
    return 0;
  }
  for (long i = 0; i < n; ++i) execution(first + i, nullptr, 0, 0, 0, limit);
}

// Drives the real measurement stage under the controlled scheduler and records what is visible at its interface.
#include "vplog.h"
#include "vpsched.h"
#include "vpsources.h"
#include "AlexandriaKernel/ThreadPool.h"
#include "ElementsKernel/Exception.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEImplementation/Measurement/MultithreadedMeasurement.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
#include "SEImplementation/Plugin/SourceIDs/SourceIDTask.h"
#include "SEImplementation/Property/SourceId.h"
#include "SEUtils/Observable.h"
#include <csignal>
using namespace SourceXtractor;
using namespace vp;
static Log L;
static std::vector<int> tags(const SourceGroupInterface& g) {
  std::vector<int> r;
  for (auto& s : g) r.push_back(tagOf(s));
  return r;
}
struct Sink : PipelineReceiver<SourceGroupInterface> {
  int sigs = 0;
  std::vector<std::unique_ptr<SourceGroupInterface>> kept;
  bool keep = false;
  void receiveSource(std::unique_ptr<SourceGroupInterface> g) override {
    L.ev({{"e", "Deliver"}, {"g", tags(*g)}});
    point();
    if (keep) kept.push_back(std::move(g));
  }
  void receiveProcessSignal(const ProcessSourcesEvent&) override { ++sigs; }
};
struct Watch : Observer<SourceGroupInterface> {
  void handleMessage(const SourceGroupInterface& g) override { L.ev({{"e", "Seen"}, {"g", tags(g)}}); }
};
static int s_base = 0, s_max = 0;
static void execution(uint64_t seed, int limit) {
  Rng r(seed * 104729 + 17);
  int workers = r.range(1, 4), ngroups = r.range(0, limit), fail_at = r.chance(1, 8) ? r.range(1, 6) : -1;
  L.ev({{"e", "Begin"}, {"seed", seed}, {"workers", workers}, {"groups", ngroups}, {"fault", fail_at}});
  s_base = s_max;
  SchedOptions o;
  o.seed = seed;
  int sigin = 0, sigout = 0;
  runControlled(o, [&]() {
    auto pool = std::make_shared<Euclid::ThreadPool>(workers, 20);
    auto sink = std::make_shared<Sink>();
    auto watch = std::make_shared<Watch>();
    sink->keep = r.chance(1, 2);
    SourceIDTask idtask;
    FakeSource::Maker maker = [&](FakeSource& s, const PropertyId& id) -> std::unique_ptr<Property> {
      if (!(id == PropertyId::create<SourceID>())) return nullptr;
      idtask.computeProperties(s);
      int n = s.SourceInterface::getProperty<SourceID>().getId();
      s_max = std::max(s_max, n);
      L.ev({{"e", "Id"}, {"src", s.tag}, {"id", n - s_base}});
      return nullptr;
    };
    auto to_row = [&](const SourceInterface& s) -> Euclid::Table::Row {
      int t = tagOf(s);
      for (int k = 0; k < t % 3; ++k) point();
      if (t == fail_at) { L.ev({{"e", "Fail"}, {"src", t}}); throw Elements::Exception() << "measurement fault"; }
      L.ev({{"e", "Row"}, {"src", t}, {"id", s.getProperty<SourceID>().getId() - s_base}});
      return Euclid::Table::Row({Euclid::Table::Row::cell_type(t)}, std::make_shared<Euclid::Table::ColumnInfo>(std::vector<Euclid::Table::ColumnInfo::info_type>{{"ID", typeid(int32_t), "", ""}}));
    };
    {
      MultithreadedMeasurement m(to_row, pool, r.range(1, 50));
      m.setNextStage(sink);
      m.addObserver(watch);
      m.startThreads();
      int tag = 0;
      bool broken = false;
      auto drained = [&](std::function<void()> f) {
        if (broken) return;
        try { f(); L.ev({{"e", "Drained"}}); }
        catch (const Elements::Exception&) { L.ev({{"e", "Reported"}}); broken = true; }
      };
      for (int g = 0; g < ngroups && !broken; ++g) {
        int n = r.range(1, 3);
        std::unique_ptr<SourceGroupInterface> grp(new SimpleSourceGroup());
        std::vector<int> t;
        for (int i = 0; i < n; ++i) {
          t.push_back(++tag);
          std::unique_ptr<FakeSource> s(new FakeSource(tag, maker));
          s->SourceInterface::setProperty<SourceId>(1000 + tag);
          grp->addSource(std::move(s));
        }
        L.ev({{"e", "Put"}, {"g", t}});
        m.receiveSource(std::move(grp));
        L.ev({{"e", "PutRet"}});
        if (r.chance(1, 4)) { ++sigin; m.receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>())); }
        if (r.chance(1, 6)) drained([&]() { m.synchronizeThreads(); });
        for (int k = r.below(g + 2 == ngroups ? 80 : 12); k > 0; --k) point();
      }
      if (r.chance(1, 3)) for (int k = r.below(60); k > 0; --k) point();
      if (r.chance(1, 4)) drained([&]() { m.synchronizeThreads(); });
      // after a reported failure the program stops the threads and gives up; the stage must still shut down
      if (broken) { try { m.stopThreads(); } catch (const Elements::Exception&) {} }
      else drained([&]() { m.stopThreads(); });
    }
    sigout = sink->sigs;
    pool.reset();
  }, [&](Outcome oc, const std::string& d) {
    L.ev({{"e", "Hang"}, {"how", oc == Outcome::DEADLOCK ? "deadlock" : "no progress"}, {"threads", d}});
    L.flush();
    std::_Exit(97);
  });
  L.ev({{"e", "End"}, {"steps", steps()}, {"sched", std::to_string(schedHash())}, {"sigin", sigin}, {"sigout", sigout}});
  L.flush();
}
int main(int argc, char** argv) {
  std::signal(SIGTERM, SIG_IGN);
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1), limit = argi(argc, argv, "--groups", 8);
  for (long i = 0; i < n; ++i) execution(first + i, limit);
}

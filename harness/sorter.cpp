// Every arrival order of every small partition of the source numbers into groups, through the real sorter.
#include <algorithm>
#include "vplog.h"
#include "vpsources.h"
#include "SEFramework/Pipeline/SourceGrouping.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
#include "SEMain/Sorter.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
static std::vector<int> ids(const SourceGroupInterface& g) { std::vector<int> v; for (auto& s : g) v.push_back(s.getProperty<SourceID>().getId()); return v; }
struct Sink : PipelineReceiver<SourceGroupInterface> {
  std::string out; int sig = 0;
  void receiveSource(std::unique_ptr<SourceGroupInterface> g) override { out += (out.empty() ? "" : ",") + J(ids(*g)).s; }
  void receiveProcessSignal(const ProcessSourcesEvent&) override { ++sig; }
};
static void run(const std::vector<int>& sizes, const std::vector<int>& order, Rng& r) {
  int total = 0;
  std::vector<std::vector<int>> g;
  for (int s : sizes) { std::vector<int> v; for (int i = 0; i < s; ++i) v.push_back(++total); for (int i = s - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]); g.push_back(v); }
  L.ev({{"e", "Begin"}, {"sizes", sizes}, {"order", order}, {"total", total}});
  Sorter sorter;
  auto sink = std::make_shared<Sink>();
  sorter.setNextStage(sink);
  for (int k : order) {
    std::unique_ptr<SourceGroupInterface> grp(new SimpleSourceGroup());
    for (int id : g[k]) { std::unique_ptr<FakeSource> s(new FakeSource(id)); static_cast<SourceInterface&>(*s).setProperty<SourceID>(id, r.below(100)); grp->addSource(std::move(s)); }
    auto before = ids(*grp);
    sorter.receiveSource(std::move(grp));
    L.ev({{"e", "Arrive"}, {"g", before}, {"out", J::raw("[" + sink->out + "]")}});
    sink->out.clear();
    if (r.chance(1, 5)) { sink->sig = 0; sorter.receiveProcessSignal(ProcessSourcesEvent(std::make_shared<SelectAllCriteria>())); L.ev({{"e", "Signal"}, {"forwarded", sink->sig}}); }
  }
  L.ev({{"e", "End"}});
  L.flush();
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long seed = argi(argc, argv, "--seed", 1), big = argi(argc, argv, "--big", 50), maxg = argi(argc, argv, "--groups", 5);
  Rng r(seed);
  for (int n = 1; n <= maxg; ++n) {
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i) order[i] = i;
    do {
      std::vector<int> sizes(n);
      int k = n <= 3 ? 27 : 3;
      for (int v = 0; v < k; ++v) { int q = v; for (int i = 0; i < n; ++i) { sizes[i] = n <= 3 ? 1 + q % 3 : r.range(1, 3); q /= 3; } run(sizes, order, r); }
    } while (std::next_permutation(order.begin(), order.end()));
  }
  for (long b = 0; b < big; ++b) {
    int n = r.range(5, 60);
    std::vector<int> sizes(n), order(n);
    for (int i = 0; i < n; ++i) { sizes[i] = r.chance(1, 10) ? r.range(10, 120) : r.range(1, 4); order[i] = i; }
    for (int i = n - 1; i > 0; --i) std::swap(order[i], order[std::max(0, i - r.below(r.chance(1, 2) ? 5 : n))]);
    run(sizes, order, r);
  }
}

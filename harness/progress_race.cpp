// The progress mediator told by threads that really run at the same time (built with the thread sanitizer).
#include <thread>
#include "vplog.h"
#include "vpsources.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEMain/ProgressMediator.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
struct Shown : Observer<std::list<ProgressInfo>> {
  std::vector<int> last{0, 0, 0, 0}; bool back = false, torn = false; long n = 0;
  void handleMessage(const std::list<ProgressInfo>& i) override {
    int k = 0; ++n;
    for (auto& p : i) { if (k < 4) { back = back || p.m_done < last[k]; last[k] = p.m_done; if (k == 0 && p.m_total != p.m_done * 2) torn = true; } ++k; }
  }
};
extern "C" const char* __tsan_default_options() { return "exitcode=66 halt_on_error=1 report_signal_unsafe=0"; }
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 4), first = argi(argc, argv, "--seed", 1), each = argi(argc, argv, "--each", 3000);
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 7919 + 3); int nt = r.range(2, 6), gs = r.range(1, 3);
    L.ev({{"e", "Begin"}, {"seed", first + i}, {"threads", nt}, {"each", each}, {"size", gs}});
    ProgressMediator m; auto s = std::make_shared<Shown>(); m.ProgressObservable::addObserver(s);
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t]() {
      FakeSource src(1); SimpleSourceGroup g; for (int q = 0; q < gs; ++q) g.addSource(std::unique_ptr<SourceInterface>(new FakeSource(q)));
      for (int k = 0; k < each; ++k) {
        m.getDetectionObserver()->handleMessage(src); m.getDeblendingObserver()->handleMessage(g); m.getMeasurementObserver()->handleMessage(g);
        if (t == 0 && k % 4 == 0) m.getSegmentationObserver()->handleMessage(SegmentationProgress{k, 2 * k});
      }
    });
    for (auto& t : ts) t.join();
    L.ev({{"e", "Race"}, {"last", s->last}, {"back", s->back}, {"torn", s->torn}, {"enough", s->n > 0}});
    L.ev({{"e", "End"}}); L.flush();
  }
}

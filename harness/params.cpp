// Parameters, the parameters that depend on them, and those who watch them: random histories on the real classes.
#include <memory>
#include "vplog.h"
#include "ModelFitting/Parameters/ManualParameter.h"
#include "ModelFitting/Parameters/EngineParameter.h"
#include "ModelFitting/Parameters/DependentParameter.h"
#include "ModelFitting/Parameters/NormalizedConverter.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
#include "ModelFitting/Engine/WorldValueResidual.h"
using namespace ModelFitting;
using namespace vp;
using V = std::vector<long>;
using P = std::shared_ptr<BasicParameter>;
static Log L;
extern "C" const char* __asan_default_options() { return "detect_leaks=0"; }
static long whole(double v) { return v == (double)(long)v && v < 1e9 && v > -1e9 ? (long)v : 987654321; }
static J pairs(const std::vector<std::pair<long, long>>& v) { std::string s = "["; for (auto& x : v) { if (s.size() > 1) s += ","; s += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; } return J::raw(s + "]"); }
struct Node { P held; std::weak_ptr<BasicParameter> weak; bool base; bool engine; int norm = 1; };
struct Watcher { int node; std::size_t id; bool on; };
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1), steps = argi(argc, argv, "--steps", 40);
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 6364136223846793005ull + 17);
    L.ev({{"e", "Begin"}, {"seed", first + i}});
    std::vector<Node> nodes; std::vector<Watcher> watchers; std::vector<std::pair<long, long>> told;
    std::vector<std::pair<int, std::unique_ptr<WorldValueResidual>>> residuals;
    auto alive = [&] { V a; for (size_t k = 0; k < nodes.size(); ++k) if (!nodes[k].weak.expired()) a.push_back(k + 1); return a; };
    auto pick = [&](bool base) { V c; for (size_t k = 0; k < nodes.size(); ++k) if (nodes[k].held && (!base || nodes[k].base)) c.push_back(k); return c.empty() ? -1 : (int)c[r.below(c.size())]; };
    auto newBase = [&] {
      Node b; b.base = true; long v = r.range(-9, 9); b.engine = r.chance(1, 2);
      if (b.engine) { b.norm = r.range(1, 3); if (b.norm == 1) b.held = std::make_shared<EngineParameter>((double)v, std::unique_ptr<CoordinateConverter>(new NeutralConverter())); else b.held = std::make_shared<EngineParameter>((double)v, std::unique_ptr<CoordinateConverter>(new NormalizedConverter(1 << b.norm))); }
      else b.held = std::make_shared<ManualParameter>((double)v);
      b.weak = b.held; nodes.push_back(b);
      L.ev({{"e", "New"}, {"n", (int)nodes.size()}, {"v", v}});
    };
    newBase();
    for (long s = 0; s < steps; ++s) {
      int what = r.below(20);
      if (nodes.size() < 3 && what < 5) { newBase(); continue; }
      if (what == 0) { if (nodes.size() < 12) newBase(); continue; }
      if (what < 4) {
        if (nodes.size() >= 12) continue;
        int k = r.range(1, 4); std::vector<P> in; V ids, co{r.range(-3, 3)};
        for (int q = 0; q < k; ++q) { int p = pick(false); if (p < 0) break; if (r.chance(1, 2)) p = std::max(p, pick(false)); in.push_back(nodes[p].held); ids.push_back(p + 1); co.push_back(r.range(-2, 2)); }
        if ((int)in.size() < k) continue;
        Node d; d.base = false; d.engine = false;
        if (k == 1) d.held = createDependentParameter([co](double a) { return co[0] + co[1] * a; }, in[0]);
        if (k == 2) d.held = createDependentParameter([co](double a, double b) { return co[0] + co[1] * a + co[2] * b; }, in[0], in[1]);
        if (k == 3) d.held = createDependentParameter([co](double a, double b, double c) { return co[0] + co[1] * a + co[2] * b + co[3] * c; }, in[0], in[1], in[2]);
        if (k == 4) d.held = createDependentParameter([co](double a, double b, double c, double e) { return co[0] + co[1] * a + co[2] * b + co[3] * c + co[4] * e; }, in[0], in[1], in[2], in[3]);
        d.weak = d.held; nodes.push_back(d);
        L.ev({{"e", "Dep"}, {"n", (int)nodes.size()}, {"in", ids}, {"co", co}});
      } else if (what < 9) {
        int p = pick(true); if (p < 0) continue;
        long v = r.range(-9, 9); told.clear();
        if (!nodes[p].engine) std::static_pointer_cast<ManualParameter>(nodes[p].held)->setValue(v);
        else { auto e = std::static_pointer_cast<EngineParameter>(nodes[p].held); if (r.chance(1, 2)) e->setValue(v); else e->setEngineValue(nodes[p].norm == 1 ? (double)v : (double)v / (1 << nodes[p].norm)); }
        L.ev({{"e", "Set"}, {"n", p + 1}, {"v", v}, {"told", pairs(told)}});
      } else if (what < 12) {
        int p = pick(false); if (p < 0) continue;
        L.ev({{"e", "Get"}, {"n", p + 1}, {"v", whole(nodes[p].held->getValue())}});
      } else if (what < 14) {
        int p = pick(false); if (p < 0 || watchers.size() >= 10) continue;
        long w = watchers.size() + 1; watchers.push_back({p, 0, true});
        watchers.back().id = nodes[p].held->addObserver([&told, w](double v) { told.emplace_back(w, whole(v)); });
        L.ev({{"e", "Watch"}, {"w", w}, {"n", p + 1}});
        if (r.chance(1, 3)) L.ev({{"e", "Get"}, {"n", p + 1}, {"v", whole(nodes[p].held->getValue())}});
      } else if (what == 14) {
        if (watchers.empty()) continue;
        int w = r.below(watchers.size()); auto p = nodes[watchers[w].node].weak.lock(); if (!p) continue;
        bool ret = p->removeObserver(watchers[w].id);
        L.ev({{"e", "Unwatch"}, {"w", w + 1}, {"ret", ret}});
      } else if (what == 15) {
        if (!r.chance(1, 2)) continue;
        int p = pick(false); if (p < 0) continue;
        nodes[p].held.reset();
        L.ev({{"e", "Drop"}, {"n", p + 1}, {"alive", alive()}});
      } else if (what == 16) {
        int p = pick(false); if (p < 0 || residuals.size() >= 6) continue;
        long ex = r.range(-5, 5), we = r.range(-2, 3);
        residuals.emplace_back(p + 1, std::unique_ptr<WorldValueResidual>(new WorldValueResidual(nodes[p].held, ex, we)));
        L.ev({{"e", "Res"}, {"k", (int)residuals.size()}, {"n", p + 1}, {"ex", ex}, {"we", we}});
      } else if (what < 19) {
        if (residuals.empty()) continue;
        int k = r.below(residuals.size()); if (!residuals[k].second) continue;
        double v = 1234567; residuals[k].second->populateResidualBlock(&v);
        L.ev({{"e", "Read"}, {"k", k + 1}, {"v", whole(v)}, {"size", (int)residuals[k].second->numberOfResiduals()}});
      } else {
        if (residuals.empty()) continue;
        int k = r.below(residuals.size()); if (!residuals[k].second || !r.chance(1, 2)) continue;
        residuals[k].second.reset();
        L.ev({{"e", "Forget"}, {"k", k + 1}, {"alive", alive()}});
      }
      L.flush();
    }
    for (auto& w : watchers) (void)w;
    residuals.clear();
    std::vector<int> order; for (size_t k = 0; k < nodes.size(); ++k) order.push_back(k);
    for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below(k)]);
    for (int k : order) nodes[k].held.reset();
    L.ev({{"e", "End"}, {"alive", alive()}}); L.flush();
  }
}

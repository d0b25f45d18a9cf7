// Histories of property requests, settings and membership changes on real sources and groups with generated tasks.
#include <algorithm>
#include "vplog.h"
#include "SEFramework/Source/SourceGroupWithOnDemandProperties.h"
#include "SEFramework/Source/SourceGroupWithOnDemandPropertiesFactory.h"
#include "SEFramework/Source/SourceWithOnDemandPropertiesFactory.h"
#include "SEFramework/Task/GroupTask.h"
#include "SEFramework/Task/SourceTask.h"
#include "SEFramework/Task/TaskFactoryRegistry.h"
#include "SEFramework/Task/TaskProvider.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
static const int TYPES = 5, IDX = 2, NP = TYPES * IDX;
static int s_n;
struct Base : Property { int n, p; Base(int pp) : n(++s_n), p(pp) {} };
template <int K> struct Prop : Base { Prop(int p) : Base(p) {} };
// property number p: type (p-1) / IDX, index (p-1) % IDX
static PropertyId idOf(int p) {
  unsigned i = (p - 1) % IDX;
  switch ((p - 1) / IDX) { case 0: return PropertyId::create<Prop<0>>(i); case 1: return PropertyId::create<Prop<1>>(i); case 2: return PropertyId::create<Prop<2>>(i); case 3: return PropertyId::create<Prop<3>>(i); default: return PropertyId::create<Prop<4>>(i); }
}
static std::unique_ptr<Property> make(int p) {
  switch ((p - 1) / IDX) { case 0: return std::unique_ptr<Property>(new Prop<0>(p)); case 1: return std::unique_ptr<Property>(new Prop<1>(p)); case 2: return std::unique_ptr<Property>(new Prop<2>(p)); case 3: return std::unique_ptr<Property>(new Prop<3>(p)); default: return std::unique_ptr<Property>(new Prop<4>(p)); }
}
// access by type, the way users do it
template <typename T> static const Base& typed(const T& o, int p) {
  unsigned i = (p - 1) % IDX;
  switch ((p - 1) / IDX) { case 0: return o.template getProperty<Prop<0>>(i); case 1: return o.template getProperty<Prop<1>>(i); case 2: return o.template getProperty<Prop<2>>(i); case 3: return o.template getProperty<Prop<3>>(i); default: return o.template getProperty<Prop<4>>(i); }
}
template <typename T> static void put(T& o, int p) {
  unsigned i = (p - 1) % IDX;
  switch ((p - 1) / IDX) { case 0: o.template setIndexedProperty<Prop<0>>(i, p); break; case 1: o.template setIndexedProperty<Prop<1>>(i, p); break; case 2: o.template setIndexedProperty<Prop<2>>(i, p); break; case 3: o.template setIndexedProperty<Prop<3>>(i, p); break; default: o.template setIndexedProperty<Prop<4>>(i, p); }
}
struct Def { std::string kind = "none"; std::vector<std::pair<bool, int>> deps; bool registered = true; };
static std::vector<Def> s_def;
struct STask : SourceTask {
  int p; explicit STask(int pp) : p(pp) {}
  void computeProperties(SourceInterface& s) const override {
    for (auto& d : s_def[p].deps) typed(s, d.second);
    put(s, p);
  }
};
struct GTask : GroupTask {
  int p; explicit GTask(int pp) : p(pp) {}
  void computeProperties(SourceGroupInterface& g) const override {
    for (auto& d : s_def[p].deps) { if (d.first) typed(g, d.second); else for (auto& s : g) typed(s, d.second); }
    if (s_def[p].kind != "each") put(g, p);
    if (s_def[p].kind != "grp") for (auto& s : g) put(s, p);
  }
};
template <int K> struct Factory : TaskFactory {
  std::shared_ptr<Task> createTask(const PropertyId& id) const override {
    int p = K * IDX + id.getIndex() + 1;
    if (s_def[p].kind == "src") return std::make_shared<STask>(p);
    if (s_def[p].kind == "none") return nullptr;
    return std::make_shared<GTask>(p);
  }
};
static std::map<int, const Base*> s_seen;
template <typename T> static void ask(const T& o, int p, int& v, bool& same) {
  v = -2; same = true;
  try {
    const Base& b = typed(o, p);
    v = b.p == p ? b.n : -3;
    auto it = s_seen.find(b.n);
    if (it != s_seen.end()) same = it->second == &b; else s_seen[b.n] = &b;
  } catch (const PropertyNotFoundException&) { v = 0; } catch (const std::exception&) { v = -1; }
}
static void run(uint64_t seed, bool calm) {
  Rng r(seed * 2654435761u + 77);
  s_n = 0; s_seen.clear();
  s_def.assign(NP + 1, Def());
  const int NS = 6, NG = 3;
  std::vector<bool> reg(TYPES);
  std::string pj = "[";
  for (int t = 0; t < TYPES; ++t) reg[t] = r.chance(5, 6);
  static const char* kinds[] = {"none", "src", "grp", "each", "both"};
  for (int p = 1; p <= NP; ++p) {
    Def& d = s_def[p];
    d.kind = reg[(p - 1) / IDX] ? kinds[r.chance(1, 5) ? 0 : r.range(1, 4)] : "none";
    if (d.kind != "none" && p > 1) for (int k = r.below(3); k > 0; --k) {
      int q = r.range(1, p - 1);
      bool g = d.kind != "src" && s_def[q].kind != "none" && s_def[q].kind != "src" && r.chance(1, 2);
      if (s_def[q].kind == "none" && r.chance(2, 3)) continue;
      d.deps.push_back({g, q});
    }
    std::string dj = "[";
    for (auto& x : d.deps) { if (dj.size() > 1) dj += ","; dj += std::string("[\"") + (x.first ? "g" : "m") + "\"," + std::to_string(x.second) + "]"; }
    if (p > 1) pj += ",";
    pj += J::obj({{"kind", d.kind}, {"deps", J::raw(dj + "]")}}).s;
  }
  L.ev({{"e", "Begin"}, {"seed", seed}, {"ns", NS}, {"ng", NG}, {"p", J::raw(pj + "]")}});
  auto registry = std::make_shared<TaskFactoryRegistry>();
  if (reg[0]) registry->registerTaskFactory<Factory<0>, Prop<0>>();
  if (reg[1]) registry->registerTaskFactory<Factory<1>, Prop<1>>();
  if (reg[2]) registry->registerTaskFactory<Factory<2>, Prop<2>>();
  if (reg[3]) registry->registerTaskFactory<Factory<3>, Prop<3>>();
  if (reg[4]) registry->registerTaskFactory<Factory<4>, Prop<4>>();
  auto prov = std::make_shared<TaskProvider>(registry);
  SourceWithOnDemandPropertiesFactory sf(prov);
  SourceGroupWithOnDemandPropertiesFactory gf(prov);
  std::vector<std::unique_ptr<SourceInterface>> src(NS + 1);  // those not in a group
  std::vector<std::unique_ptr<SourceGroupInterface>> grp(NG + 1);
  std::vector<std::vector<int>> mem(NG + 1);
  std::vector<int> where(NS + 1, 0);  // 0: alone, -1: gone
  for (int s = 1; s <= NS; ++s) src[s] = sf.createSource();
  for (int g = 1; g <= NG; ++g) grp[g] = gf.createSourceGroup();
  auto at = [&](int g, size_t i) { auto it = grp[g]->begin(); std::advance(it, i); return it; };
  auto pos = [&](int s) { auto& m = mem[where[s]]; return static_cast<size_t>(std::find(m.begin(), m.end(), s) - m.begin()); };
  auto add = [&](int s, int g) {
    L.ev({{"e", "Add"}, {"s", s}, {"g", g}});
    grp[g]->addSource(std::move(src[s])); mem[g].push_back(s); where[s] = g;
  };
  auto addAll = [&](const std::vector<int>& ss, int g) {
    std::vector<std::unique_ptr<SourceInterface>> v;
    for (int s : ss) { L.ev({{"e", "Add"}, {"s", s}, {"g", g}}); v.push_back(std::move(src[s])); mem[g].push_back(s); where[s] = g; }
    grp[g]->addAllSources(std::move(v));
  };
  auto set = [&](int s, int p) {
    L.ev({{"e", "Set"}, {"s", s}, {"p", p}});
    if (where[s]) { SourceInterface& x = *at(where[s], pos(s)); if (r.chance(1, 2)) put(x, p); else x.setProperty(make(p), idOf(p)); }
    else if (r.chance(1, 2)) put(*src[s], p); else src[s]->setProperty(make(p), idOf(p));
  };
  auto get = [&](int s, int p) {
    int v; bool same;
    if (where[s]) ask(static_cast<const SourceInterface&>(*at(where[s], pos(s))), p, v, same); else ask(static_cast<const SourceInterface&>(*src[s]), p, v, same);
    L.ev({{"e", "Get"}, {"s", s}, {"p", p}, {"v", v}, {"same", same}, {"n", s_n}});
  };
  auto getG = [&](int g, int p) {
    int v; bool same;
    ask(static_cast<const SourceGroupInterface&>(*grp[g]), p, v, same);
    L.ev({{"e", "GetG"}, {"g", g}, {"p", p}, {"v", v}, {"same", same}, {"n", s_n}});
  };
  // what is given by hand at the start
  for (int s = 1; s <= NS; ++s) for (int p = 1; p <= NP; ++p) if (s_def[p].kind == "none" && r.chance(7, 8)) set(s, p);
  for (int s = 1; s <= NS; ++s) if (r.chance(calm ? 3 : 1, 4)) { int g = r.range(1, NG); if (r.chance(1, 2) && s < NS) { addAll({s, s + 1}, g); ++s; } else add(s, g); }
  int steps = r.range(6, 22);
  for (int k = 0; k < steps; ++k) {
    int s = r.range(1, NS), g = r.range(1, NG), p = r.range(1, NP), what = r.below(calm ? 14 : 24);
    if (what < 9) { if (where[s] >= 0) get(s, p); }
    else if (what < 12) getG(g, p);
    else if (what == 12) { if (where[s] >= 0) set(s, p); }
    else if (what == 13) { L.ev({{"e", "SetG"}, {"g", g}, {"p", p}}); put(*grp[g], p); }
    else if (what < 18) { if (where[s] == 0) add(s, g); else if (where[s] > 0) { get(s, p); getG(where[s], r.range(1, NP)); } }
    else if (what < 21) {
      if (where[s] > 0) {
        int w = where[s]; size_t i = pos(s);
        L.ev({{"e", "Remove"}, {"s", s}, {"g", w}});
        grp[w]->removeSource(at(w, i));
        mem[w].erase(mem[w].begin() + i); where[s] = -1;
      }
    } else {
      int h = r.range(1, NG);
      if (h == g) continue;
      L.ev({{"e", "Merge"}, {"g", g}, {"h", h}});
      grp[g]->merge(std::move(*grp[h]));
      for (int x : mem[h]) { mem[g].push_back(x); where[x] = g; }
      mem[h].clear();
    }
  }
  L.ev({{"e", "End"}});
  L.flush();
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1), calm = argi(argc, argv, "--calm", 0);
  for (long i = 0; i < n; ++i) run(first + i, calm);
}

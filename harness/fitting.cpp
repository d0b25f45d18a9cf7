// Converters, the parameter manager, the residual estimator and the engines of a fit, as they are.
#include <cmath>
#include <cstring>
#include <list>
#include <numeric>
#include <array>
#include <algorithm>
#include "vplog.h"
#include "levmar.h"
#include "ElementsKernel/Exception.h"
#include "ModelFitting/Parameters/ManualParameter.h"
#include "ModelFitting/Parameters/EngineParameter.h"
#include "ModelFitting/Parameters/DependentParameter.h"
#include "ModelFitting/Parameters/NormalizedConverter.h"
#include "ModelFitting/Parameters/NeutralConverter.h"
#include "ModelFitting/Parameters/SigmoidConverter.h"
#include "ModelFitting/Parameters/ExpSigmoidConverter.h"
#include "ModelFitting/Engine/EngineParameterManager.h"
#include "ModelFitting/Engine/ResidualEstimator.h"
#include "ModelFitting/Engine/WorldValueResidual.h"
#include "ModelFitting/Engine/EngineValueResidual.h"
#include "ModelFitting/Engine/DataVsModelResiduals.h"
#include "ModelFitting/Engine/ChiSquareComparator.h"
#include "ModelFitting/Engine/LogChiSquareComparator.h"
#include "ModelFitting/Engine/AsinhChiSquareComparator.h"
#include "ModelFitting/Engine/LeastSquareEngineManager.h"
#include "ModelFitting/Engine/GSLEngine.h"
#include "ModelFitting/Engine/LevmarEngine.h"
using namespace ModelFitting;
using namespace vp;
using V = std::vector<long>;
static Log L;
static unsigned long bits(double v) { unsigned long b; std::memcpy(&b, &v, 8); return b & 0x7fffffffffffffffUL; }
static bool isFin(double v) { return bits(v) < 0x7ff0000000000000UL; }
static long scaled(double v, double f) { return isFin(v) && std::fabs(v * f) < 2e9 ? std::lround(v * f) : -2000000001; }
static long whole(double v) { return isFin(v) && v == (double)(long)v && std::fabs(v) < 2e9 ? (long)v : 1987654321; }
static J lists(const std::vector<V>& v) { std::string s = "["; for (auto& x : v) { if (s.size() > 1) s += ","; s += J(x).s; } return J::raw(s + "]"); }
using Conv = std::unique_ptr<CoordinateConverter>;
static const double LN2 = 0.693147180559945309417;
static void converters(Rng& r, long seed) {
  L.ev({{"e", "Begin"}, {"kind", "conv"}, {"seed", seed}});
  for (int t = 0; t < 6; ++t) {
    // engine values k ln 2: the world values are rational (sigmoid) or a power of two times the minimum (exponential)
    long lo = r.range(-20, 20), hi = lo + r.range(1, 40); int k = r.range(-6, 6);
    SigmoidConverter s(lo, hi); double w = s.engineToWorld(k * LN2);
    L.ev({{"e", "Sig"}, {"lo", lo}, {"hi", hi}, {"k", k}, {"w", scaled(w, 1000)}, {"d", scaled(s.getEngineToWorldDerivative(w), 1000)}, {"back", scaled(s.worldToEngine(w), 100000)}});
    int q = r.range(-3, 3); long m = r.range(1, 5), n = ((1 << std::abs(q)) + 1) * (std::abs(q) == 0 ? r.range(1, 5) : std::abs(q) == 1 ? r.range(1, 3) : std::abs(q) == 2 ? r.range(1, 2) : 1);
    ExpSigmoidConverter e(m, m * (double)(1 << n)); double x = e.engineToWorld(q * LN2);
    L.ev({{"e", "Exp"}, {"lo", m}, {"n", n}, {"k", q}, {"w", scaled(x, 1000)}, {"d", scaled(e.getEngineToWorldDerivative(x), 1000)}, {"back", scaled(e.worldToEngine(x), 100000)}});
    long f = r.range(1, 9) * (r.chance(1, 3) ? -1 : 1), v = r.range(-30, 30);
    NormalizedConverter nc(f); NeutralConverter ne;
    L.ev({{"e", "Lin"}, {"f", f}, {"v", v}, {"w", whole(nc.engineToWorld(v))}, {"d", whole(nc.getEngineToWorldDerivative(v))}, {"back", whole(nc.worldToEngine(v * f))},
          {"nw", whole(ne.engineToWorld(v))}, {"nd", whole(ne.getEngineToWorldDerivative(v))}, {"nback", whole(ne.worldToEngine(v))}});
  }
  for (int t = 0; t < 4; ++t) {
    // any range, any engine values in order, extreme ones too
    bool ex = r.chance(1, 2); long lo = ex ? r.range(1, 2000) : r.range(-3000, 3000), hi = lo + (r.chance(1, 8) ? 0 : r.range(1, 4000));
    Conv c; if (ex) c.reset(new ExpSigmoidConverter(lo / 100., hi / 100.)); else c.reset(new SigmoidConverter(lo / 100., hi / 100.));
    std::vector<double> es; for (int q = 0; q < 8; ++q) es.push_back(r.chance(1, 5) ? r.range(-1000000, 1000000) * 1000. : r.range(-600, 600) / 20.);
    std::sort(es.begin(), es.end());
    V ws, bs, es4; bool fin = true;
    for (double e : es) { double w = c->engineToWorld(e); ws.push_back(scaled(w, 100000)); double b = c->worldToEngine(w); fin = fin && isFin(b); bs.push_back(scaled(c->engineToWorld(b), 100000)); }
    V in, back; std::vector<double> tr{(double)lo, (double)hi, (lo + hi) / 2.}; for (int q = 0; q < 4; ++q) tr.push_back(lo + (hi - lo) * r.range(0, 1000) / 1000.);
    for (double w : tr) { double e = c->worldToEngine(w / 100.); fin = fin && isFin(e); in.push_back(scaled(w, 1000)); back.push_back(scaled(c->engineToWorld(e), 100000)); }
    V beyond; for (double w : {lo - r.range(1, 500) / 1., hi + r.range(1, 500) / 1.}) { if (ex && w <= 0) w = lo; double e = c->worldToEngine(w / 100.); fin = fin && isFin(e); beyond.push_back(scaled(c->engineToWorld(e), 100000)); }
    L.ev({{"e", "Range"}, {"lo", lo}, {"hi", hi}, {"ws", ws}, {"again", bs}, {"in", in}, {"back", back}, {"beyond", beyond}, {"fin", fin}});
  }
  for (int t = 0; t < 2; ++t) {
    long lo = r.range(-3, 3), hi = r.range(-3, 3); bool sig = false, ex = false;
    try { SigmoidConverter s(lo, hi); } catch (Elements::Exception&) { sig = true; }
    try { ExpSigmoidConverter s(lo, hi); } catch (Elements::Exception&) { ex = true; }
    L.ev({{"e", "Refuse"}, {"lo", lo}, {"hi", hi}, {"sig", sig}, {"exp", ex}});
  }
  L.ev({{"e", "End"}});
}
static void manager(Rng& r, long seed) {
  int n = r.range(1, 6); EngineParameterManager m; std::vector<std::shared_ptr<EngineParameter>> ps; V fs, init;
  for (int i = 0; i < n; ++i) {
    long f = r.range(1, 4), v = r.range(-8, 8); fs.push_back(1 << (f - 1)); init.push_back(v * (1 << (f - 1)));
    ps.push_back(std::make_shared<EngineParameter>((double)init.back(), f == 1 ? Conv(new NeutralConverter()) : Conv(new NormalizedConverter(1 << (f - 1)))));
  }
  // some are not registered, in any order
  V order(n); std::iota(order.begin(), order.end(), 0); for (int i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  order.resize(r.range(1, n));
  L.ev({{"e", "Begin"}, {"kind", "manager"}, {"seed", seed}, {"f", fs}, {"init", init}, {"order", order}});
  for (long k : order) m.registerParameter(ps[k]);
  std::vector<V> seen;
  for (int i = 0; i < n; ++i) ps[i]->addObserver([&, i](double w) { seen.push_back({i, whole(w), whole(ps[i]->getEngineValue())}); });
  for (int t = 0; t < 8; ++t) {
    int what = r.below(3);
    if (what == 0) {
      std::vector<double> v(order.size() + 2, 777.); std::list<double> l(order.size() + 1, 777.);
      if (r.chance(1, 2)) m.getEngineValues(v.begin()); else { m.getEngineValues(l.begin()); std::copy(l.begin(), l.end(), v.begin()); }
      V o; for (double x : v) o.push_back(whole(x));
      L.ev({{"e", "Values"}, {"n", (int)m.numberOfParameters()}, {"v", o}});
    } else if (what == 1) {
      std::vector<double> v; V o; for (size_t k = 0; k < order.size(); ++k) { o.push_back(r.range(-9, 9)); v.push_back(o.back()); }
      seen.clear(); m.updateEngineValues(v.begin());
      V w; for (auto& p : ps) w.push_back(whole(p->getValue()));
      L.ev({{"e", "Update"}, {"v", o}, {"w", w}, {"seen", lists(seen)}});
      if (r.chance(1, 3)) {
        int k = r.below(n); long x = r.range(-6, 6) * 8; seen.clear(); ps[k]->setValue(x);
        L.ev({{"e", "SetWorld"}, {"i", k}, {"v", x}, {"w", whole(ps[k]->getValue())}, {"ev", whole(ps[k]->getEngineValue())}, {"seen", lists(seen)}});
      }
    } else {
      size_t k = order.size(); std::vector<double> c; V ci, o; for (size_t q = 0; q < k * k; ++q) { ci.push_back(r.range(-9, 9)); c.push_back(ci.back()); }
      for (double x : m.convertCovarianceMatrixToWorldSpace(c)) o.push_back(whole(x));
      L.ev({{"e", "Cov"}, {"c", ci}, {"o", o}});
    }
  }
  L.ev({{"e", "End"}});
}
static void residuals(Rng& r, long seed) {
  ResidualEstimator est; std::vector<std::shared_ptr<EngineParameter>> ps; int np = r.range(1, 3); V init;
  for (int i = 0; i < np; ++i) { init.push_back(r.range(-5, 5) * 2); ps.push_back(std::make_shared<EngineParameter>((double)init.back(), Conv(new NormalizedConverter(2)))); }
  L.ev({{"e", "Begin"}, {"kind", "residuals"}, {"seed", seed}, {"init", init}});
  int nb = r.range(0, 6);
  std::vector<std::vector<double>*> models;
  for (int b = 0; b < nb; ++b) {
    int kind = r.below(5);
    if (kind < 2) {
      int n = r.range(0, 6); std::vector<double> d, m; std::vector<float> w; V di, mi, wi;
      for (int q = 0; q < n; ++q) { di.push_back(r.range(-9, 9)); mi.push_back(r.range(-9, 9)); wi.push_back(r.range(0, 3)); d.push_back(di.back()); m.push_back(mi.back()); w.push_back(wi.back()); }
      est.registerBlockProvider(createDataVsModelResiduals(std::move(d), std::move(m), std::move(w), ChiSquareComparator{}));
      L.ev({{"e", "Data"}, {"d", di}, {"m", mi}, {"w", wi}});
    } else if (kind == 2) {
      // the curved comparators at arguments where they are multiples of ln 2
      bool lg = r.chance(1, 2); int n = r.range(0, 4); std::vector<double> d, m; std::vector<float> w; V ks, zs;
      for (int q = 0; q < n; ++q) {
        int k = r.range(-5, 5); double u = lg ? (std::pow(2., std::abs(k)) - 1) * (k < 0 ? -1 : 1) : (std::pow(2., k) - std::pow(2., -k)) / 2; ks.push_back(k);
        long we = r.range(0, 2); zs.push_back(we); d.push_back(we ? 10 * u / we + 3 : 10 * u); m.push_back(3); w.push_back(we);
      }
      if (lg) est.registerBlockProvider(createDataVsModelResiduals(std::move(d), std::move(m), std::move(w), LogChiSquareComparator{10.}));
      else est.registerBlockProvider(createDataVsModelResiduals(std::move(d), std::move(m), std::move(w), AsinhChiSquareComparator{10.}));
      L.ev({{"e", "Curved"}, {"k", ks}, {"w", zs}});
    } else {
      int p = r.below(np); long ex = r.range(-9, 9), we = r.range(-2, 3);
      if (kind == 3) est.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new WorldValueResidual(ps[p], ex, we)));
      else est.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new EngineValueResidual(*ps[p], ex, we)));
      L.ev({{"e", kind == 3 ? "World" : "Engine"}, {"p", p + 1}, {"ex", ex}, {"we", we}});
    }
  }
  for (int t = 0; t < 6; ++t) {
    if (r.chance(1, 2)) {
      int p = r.below(np); long v = r.range(-9, 9);
      if (r.chance(1, 2)) { ps[p]->setEngineValue(v); } else ps[p]->setValue(2 * v);
      L.ev({{"e", "Set"}, {"p", p + 1}, {"v", v}});
    }
    size_t n = est.numberOfResiduals(); if (n > 100) n = 100; std::vector<double> out(n + 3, 555.); int how = r.below(3);
    if (how == 0) est.populateResiduals(out.data() + 1);
    else if (how == 1) est.populateResiduals(out.begin() + 1);
    else { std::list<double> l(n + 3, 555.); est.populateResiduals(std::next(l.begin())); std::copy(l.begin(), l.end(), out.begin()); }
    V o; for (double x : out) o.push_back(scaled(x, 1000));
    L.ev({{"e", "Residuals"}, {"how", how}, {"n", (long)est.numberOfResiduals()}, {"v", o}});
  }
  int a = r.range(0, 3), b = r.range(0, 3), c = r.range(0, 3); bool refused = false;
  try { createDataVsModelResiduals(std::vector<double>(a), std::vector<double>(b), std::vector<double>(c), ChiSquareComparator{}); } catch (Elements::Exception&) { refused = true; }
  L.ev({{"e", "Sizes"}, {"a", a}, {"b", b}, {"c", c}, {"refused", refused}});
  L.ev({{"e", "End"}});
}
// a linear problem: the residuals are weights times (A p - d), through dependent parameters
struct Problem { int m; std::vector<V> a; V d, w; };
static Problem problem(Rng& r, int np) {
  Problem p; do { p.m = r.range(np + 1, 5); p.a.clear(); for (int i = 0; i < p.m; ++i) p.a.push_back({r.range(-1, 2), np == 2 ? r.range(-1, 2) : 0}); long s11 = 0, s12 = 0, s22 = 0; for (auto& x : p.a) { s11 += x[0] * x[0]; s12 += x[0] * x[1]; s22 += x[1] * x[1]; } if (np == 2 ? s11 * s22 - s12 * s12 > 0 : s11 > 0) break; } while (true);
  for (int i = 0; i < p.m; ++i) { p.d.push_back(r.range(-3, 3)); p.w.push_back(r.range(1, 2)); }
  return p;
}
static void registerProblem(const Problem& p, const std::vector<std::shared_ptr<EngineParameter>>& ps, ResidualEstimator& est) {
  for (int i = 0; i < p.m; ++i) {
    auto a = p.a[i];
    std::shared_ptr<BasicParameter> q;
    if (ps.size() == 2) q = createDependentParameter([a](double x, double y) { return a[0] * x + a[1] * y; }, ps[0], ps[1]);
    else q = createDependentParameter([a](double x) { return a[0] * x; }, ps[0]);
    est.registerBlockProvider(std::unique_ptr<ResidualBlockProvider>(new WorldValueResidual(q, p.d[i], p.w[i])));
  }
}
static Conv conv(Rng& r, V& kinds) {
  int k = r.below(3); kinds.push_back(k);
  if (k == 0) return Conv(new NeutralConverter());
  if (k == 1) return Conv(new NormalizedConverter(r.range(1, 5)));
  return Conv(new SigmoidConverter(-60, 70));
}
static void gsl(Rng& r, long seed) {
  int np = r.range(1, 2); auto p = problem(r, np); V kinds;
  std::vector<std::shared_ptr<EngineParameter>> ps; for (int i = 0; i < np; ++i) ps.push_back(std::make_shared<EngineParameter>((double)r.range(-5, 5), conv(r, kinds)));
  L.ev({{"e", "Begin"}, {"kind", "gsl"}, {"seed", seed}, {"np", np}, {"a", lists(p.a)}, {"d", p.d}, {"w", p.w}, {"conv", kinds}});
  EngineParameterManager m; for (auto& x : ps) m.registerParameter(x);
  ResidualEstimator est; registerProblem(p, ps, est);
  int itmax = r.chance(1, 2) ? 200 : r.range(1, 6);
  V start; for (auto& x : ps) start.push_back((long)std::llround(x->getValue()));
  auto s = LeastSquareEngineManager::create("gsl", itmax)->solveProblem(m, est);
  std::vector<double> left(p.m); est.populateResiduals(left.begin()); double cost = 0; for (double x : left) cost += x * x;
  auto info = boost::any_cast<std::array<double, 10>>(s.underlying_framework_info);
  V v, g; for (auto& x : ps) v.push_back(scaled(x->getValue(), 10000)); for (double x : s.parameter_sigmas) g.push_back(scaled(x * x, 1000));
  L.ev({{"e", "Fit"}, {"itmax", itmax}, {"start", start}, {"status", (int)s.status_flag}, {"reason", s.engine_stop_reason}, {"it", (long)s.iteration_no}, {"v", v}, {"s2", g},
        {"chi0", scaled(info[0], 100)}, {"chi", scaled(info[1], 10000)}, {"left", scaled(cost, 10000)}});
  L.ev({{"e", "End"}});
}
static struct Script { std::vector<std::vector<double>> points; int best; std::vector<double> covar; int reason, iterations, ret; std::vector<std::vector<double>> got; std::vector<double> start; int itmax; } S;
int dlevmar_dif(void (*func)(double* p, double* hx, int m, int n, void* adata), double* p, double*, int m, int n, int itmax, double*, double* info, double* work, double* covar, void* adata) {
  S.start.assign(p, p + m); S.itmax = itmax;
  for (int i = 0; i < LM_DIF_WORKSZ(m, n); ++i) work[i] = 3.;
  for (auto& x : S.points) { std::vector<double> pp(x), hx(n, -99.); func(pp.data(), hx.data(), m, n, adata); S.got.push_back(hx); }
  if (S.best >= 0) std::copy(S.points[S.best].begin(), S.points[S.best].end(), p);
  std::copy(S.covar.begin(), S.covar.end(), covar);
  for (int i = 0; i < 10; ++i) info[i] = i; info[5] = S.iterations; info[6] = S.reason;
  return S.ret;
}
static void levmar(Rng& r, long seed) {
  int np = r.range(1, 2); auto p = problem(r, np); V fs, init;
  std::vector<std::shared_ptr<EngineParameter>> ps; for (int i = 0; i < np; ++i) { fs.push_back(r.range(1, 4)); init.push_back(r.range(-5, 5)); ps.push_back(std::make_shared<EngineParameter>((double)init.back() * fs.back(), Conv(new NormalizedConverter(fs.back())))); }
  S = Script(); int k = r.range(1, 5); std::vector<V> pts;
  for (int i = 0; i < k; ++i) { V q; std::vector<double> x; for (int j = 0; j < np; ++j) { q.push_back(r.range(-9, 9)); x.push_back(q.back()); } pts.push_back(q); S.points.push_back(x); }
  S.best = r.below(k); V cov; for (int i = 0; i < np * np; ++i) { int e = r.range(0, 5); cov.push_back(e * e); S.covar.push_back(e * e); }
  S.reason = r.range(1, 7); S.iterations = r.range(0, 20); S.ret = r.chance(1, 6) ? -1 : S.iterations; int itmax = r.range(1, 500);
  L.ev({{"e", "Begin"}, {"kind", "levmar"}, {"seed", seed}, {"np", np}, {"a", lists(p.a)}, {"d", p.d}, {"w", p.w}, {"f", fs}, {"init", init}, {"points", lists(pts)}, {"best", S.best}, {"cov", cov}, {"reason", S.reason}, {"iter", S.iterations}, {"ret", S.ret}, {"itmax", itmax}});
  EngineParameterManager m; for (auto& x : ps) m.registerParameter(x);
  ResidualEstimator est; registerProblem(p, ps, est);
  auto s = LeastSquareEngineManager::create(r.chance(1, 2) ? "levmar" : "LevMar", itmax)->solveProblem(m, est);
  std::vector<V> res; for (auto& g : S.got) { V q; for (double x : g) q.push_back(whole(x)); res.push_back(q); }
  V start, v, g; for (double x : S.start) start.push_back(whole(x)); for (auto& x : ps) v.push_back(whole(x->getValue())); for (double x : s.parameter_sigmas) g.push_back(whole(x));
  L.ev({{"e", "Lev"}, {"start", start}, {"itmax", S.itmax}, {"res", lists(res)}, {"v", v}, {"sig", g}, {"status", (int)s.status_flag}, {"it", (long)s.iteration_no}, {"reason", s.engine_stop_reason}, {"def", LeastSquareEngineManager::getDefault() == "levmar"}});
  L.ev({{"e", "End"}});
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1); std::string mode = arg(argc, argv, "--mode");
  GSLEngine keep; LevmarEngine keep2;
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 6364136223846793005ull + 29);
    if (mode == "conv") { if (r.chance(1, 2)) converters(r, first + i); else manager(r, first + i); }
    else if (mode == "res") residuals(r, first + i);
    else { if (r.chance(1, 2)) gsl(r, first + i); else levmar(r, first + i); }
    L.flush();
  }
}

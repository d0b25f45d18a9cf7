// Aperture photometry: fluxes, flags, Kron radius and growth curve of the real tasks.
#include <cmath>
#include "vplog.h"
#include "vpsources.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Frame/Frame.h"
#include "SEFramework/Aperture/CircularAperture.h"
#include "SEFramework/Aperture/EllipticalAperture.h"
#include "SEFramework/Aperture/TransformedAperture.h"
#include "SEFramework/Aperture/FluxMeasurement.h"
#include "SEFramework/Aperture/Flagging.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometry.h"
#include "SEImplementation/Plugin/AperturePhotometry/AperturePhotometryTask.h"
#include "SEImplementation/Plugin/AperturePhotometry/ApertureFlag.h"
#include "SEImplementation/Plugin/AperturePhotometry/ApertureFlagTask.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometry.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryTask.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryFlag.h"
#include "SEImplementation/Plugin/AutoPhotometry/AutoPhotometryFlagTask.h"
#include "SEImplementation/Plugin/BlendedFlag/BlendedFlag.h"
#include "SEImplementation/Plugin/SaturateFlag/SaturateFlag.h"
#include "SEImplementation/Plugin/MeasurementFrameInfo/MeasurementFrameInfo.h"
#include "SEImplementation/Plugin/MeasurementFrameImages/MeasurementFrameImages.h"
#include "SEImplementation/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroid.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfo.h"
#include "SEImplementation/Plugin/DetectionFrameImages/DetectionFrameImages.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Plugin/ShapeParameters/ShapeParameters.h"
#include "SEImplementation/Plugin/KronRadius/KronRadius.h"
#include "SEImplementation/Plugin/KronRadius/KronRadiusTask.h"
#include "SEImplementation/Plugin/GrowthCurve/GrowthCurve.h"
#include "SEImplementation/Plugin/GrowthCurve/GrowthCurveTask.h"
#include "SEImplementation/Plugin/Jacobian/Jacobian.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
using V = std::vector<int>;
using Img = std::shared_ptr<Image<SeFloat>>;
#include <cstring>
// -ffast-math (the flag the repository compiles with) makes std::isnan useless
static unsigned long bits(double v) { unsigned long b; std::memcpy(&b, &v, 8); return b & 0x7fffffffffffffffUL; }
static bool isNan(double v) { return bits(v) > 0x7ff0000000000000UL; }
static bool isFin(double v) { return bits(v) < 0x7ff0000000000000UL; }
static long r100(double v) { return isFin(v) && std::fabs(v) < 1e7 ? std::lround(v * 100) : -999999999; }
static Img img(const V& v, int w, int h) { return VectorImage<SeFloat>::create(w, h, std::vector<SeFloat>(v.begin(), v.end())); }
static const int JACS[][4] = {{1,0,0,1},{1,0,0,1},{1,0,0,1},{-1,0,0,1},{1,0,0,-1},{0,1,-1,0},{0,1,1,0},{1,1,0,1},{1,0,-1,1},{2,0,0,2},{2,0,0,1},{1,1,-1,1},{2,1,1,1},{3,0,0,1},{1,0,0,3},{3,4,0,1},{1,0,3,4}};
struct Scene {
  int w, h, mask2; V px, var; bool sym;
  float thr() const { return mask2 / 2.f; }
};
static Scene scene(Rng& r, bool squares) {
  Scene s; s.w = r.range(2, 10); s.h = r.range(2, 10); s.sym = r.chance(1, 2);
  static const int SQ[] = {1, 4, 9};
  bool fewBad = r.chance(1, 3);
  for (int i = 0; i < s.w * s.h; ++i) { s.px.push_back(r.range(-2, 9)); s.var.push_back(squares ? SQ[fewBad && !r.chance(1, 12) ? 0 : r.below(3)] : fewBad && !r.chance(1, 12) ? 1 : r.range(1, 9)); }
  s.mask2 = squares ? (s.sym ? (r.chance(1, 2) ? 13 : 7) : r.chance(1, 3) ? 8 : 13) : s.sym ? r.range(1, 9) * 2 + 1 : r.range(2, 19);
  if (r.chance(1, 4)) s.mask2 = 101;
  return s;
}
static J jj(int k) { return J(V{JACS[k][0], JACS[k][1], JACS[k][2], JACS[k][3]}); }
static std::tuple<double, double, double, double> jt(int k) { return std::make_tuple((double)JACS[k][0], (double)JACS[k][1], (double)JACS[k][2], (double)JACS[k][3]); }
static J box(const Aperture& a, float x, float y) { auto p = a.getMinPixel(x, y), q = a.getMaxPixel(x, y); return J(V{p.m_x, p.m_y, q.m_x, q.m_y}); }
static int centre(Rng& r, int w) { return r.chance(1, 6) ? 16 * r.range(-6, w + 5) : r.chance(1, 3) ? r.range(-40, 16 * w + 40) : r.range(0, 16 * w - 16); }
static int inside(Rng& r, int w) { return r.chance(1, 4) ? 16 * r.range(0, w - 1) : r.range(-7, 16 * w - 9); }
struct Ell { int a, b, c, r; };   // cxx, cyy, cxy in eighths, radius in 64ths (odd)
static Ell ell(Rng& r, int maxr) { Ell e; do { e.a = r.range(1, 16); e.b = r.range(1, 16); e.c = r.range(-12, 12); } while (16 * e.a * e.b - 4 * e.c * e.c < 16 || 4 * e.a * e.b - e.c * e.c < 3 * e.a || 4 * e.a * e.b - e.c * e.c < 3 * e.b); e.r = 2 * r.range(4, maxr / 2) + 1; return e; }
static std::shared_ptr<Aperture> make(const Ell& e) { return std::make_shared<EllipticalAperture>(e.a / 8.f, e.b / 8.f, e.c / 8.f, e.r / 64.f); }
static ShapeParameters shape(const Ell& e) { return ShapeParameters(.01f, .01f, 0, 1, e.a / 8.f, e.b / 8.f, e.c / 8.f, 1, 1, false); }
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1);
  std::string mode = arg(argc, argv, "--mode", "all");
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 2685821657736338717ull + 11);
    int kind = r.below(6); if (kind == 5) kind = 1;
    if (kind == 0) {          // measureFlux and computeFlags as they are
      Scene s = scene(r, true);
      int k = r.chance(1, 2) ? -1 : r.below(13), cx = centre(r, s.w), cy = centre(r, s.h);
      bool circ = r.chance(1, 2) && (k < 0 || std::abs(JACS[k][0] * JACS[k][3] - JACS[k][1] * JACS[k][2]) == 1);
      Ell e = ell(r, 220); int r32 = 2 * r.range(0, 60) + 1;
      std::shared_ptr<Aperture> a = circ ? std::make_shared<CircularAperture>(r32 / 32.f) : make(e);
      if (k >= 0) a = std::make_shared<TransformedAperture>(a, jt(k));
      L.ev({{"e", "Begin"}, {"kind", "flux"}, {"seed", first + i}, {"w", s.w}, {"h", s.h}, {"px", s.px}, {"var", s.var}, {"mask2", s.mask2}, {"sym", s.sym}});
      float x = cx / 16.f, y = cy / 16.f;
      auto m = measureFlux(a, x, y, img(s.px, s.w, s.h), img(s.var, s.w, s.h), s.thr(), s.sym);
      J ap = J::raw(""); (void)ap;
      L.ev({{"e", "Flux"}, {"circ", circ}, {"r", circ ? r32 : e.r}, {"ell", V{e.a, e.b, e.c}}, {"jac", k >= 0 ? jj(k) : J(V{1, 0, 0, 1})}, {"cx", cx}, {"cy", cy}, {"box", box(*a, x, y)},
            {"flux", r100(m.m_flux)}, {"v", r100(m.m_variance)}, {"area", r100(m.m_total_area)}, {"bad", r100(m.m_bad_area)}, {"flags", (long)flags2long(m.m_flags)}});
      if (cx >= -7 && cy >= -7 && cx <= 16 * s.w - 9 && cy <= 16 * s.h - 9) {
        std::vector<PixelCoordinate> pl; V own(s.w * s.h, 0); int d = r.range(1, 3);
        for (int q = 0; q < s.w * s.h; ++q) if (r.below(d) == 0) { own[q] = 1; pl.emplace_back(q % s.w, q / s.w); }
        V t; for (int q = 0; q < s.w * s.h; ++q) t.push_back(r.range(-4, 2));
        auto f = computeFlags(a, x, y, pl, img(s.px, s.w, s.h), img(s.var, s.w, s.h), img(t, s.w, s.h), s.thr());
        L.ev({{"e", "DetFlags"}, {"circ", circ}, {"r", circ ? r32 : e.r}, {"ell", V{e.a, e.b, e.c}}, {"jac", k >= 0 ? jj(k) : J(V{1, 0, 0, 1})}, {"cx", cx}, {"cy", cy}, {"box", box(*a, x, y)},
              {"own", own}, {"t", t}, {"flags", (long)flags2long(f)}});
      }
      L.ev({{"e", "End"}}); L.flush();
      continue;
    }
    // a source on a detection frame and a measurement frame
    Scene d = scene(r, true), s = scene(r, false); if (kind == 4) d.mask2 |= 1;
    int level = r.range(-1, 2), dlevel = r.range(-1, 2), dthr = r.range(0, 2), gain = r.chance(1, 3) ? 0 : 1 << r.below(3), zp = r.range(-3, 25);
    auto mf = std::make_shared<MeasurementImageFrame>(img(s.px, s.w, s.h), img(s.var, s.w, s.h), s.thr(), nullptr, gain, 0, 0); mf->setBackgroundLevel((SeFloat)level);
    auto df = std::make_shared<DetectionImageFrame>(img(d.px, d.w, d.h), img(d.var, d.w, d.h), d.thr(), nullptr, gain, 0, 0); df->setBackgroundLevel((SeFloat)dlevel); df->setDetectionThreshold((SeFloat)dthr);
    std::vector<PixelCoordinate> pl; V own(d.w * d.h, 0); int dens = r.range(1, 3);
    for (int q = 0; q < d.w * d.h; ++q) if (r.below(dens) == 0) { own[q] = 1; pl.emplace_back(q % d.w, q / d.w); }
    int k = kind == 1 ? r.below(9) : r.below(13), cx = centre(r, s.w), cy = centre(r, s.h), dx = inside(r, d.w), dy = inside(r, d.h);
    int grow = 1; if (kind == 3 && (k = r.below(7)) < 3 && r.chance(3, 4)) { k = 13 + r.below(4); grow = k < 15 ? 3 : 5; }
    bool sat = r.chance(1, 3), blended = r.chance(1, 3), noDet = kind == 1 && r.chance(1, 4);
    Ell e = ell(r, 160); int factor = r.range(1, 3) | 1, minr = 2 * r.range(1, 60) + 1, kr = 2 * r.range(0, 40) + 1, rl = 2 * r.range(1, 6) + 1;
    if (kind == 4) { e.a = r.range(8, 24); e.b = r.range(8, 24); e.c = r.range(-4, 4); }
    int inst = r.below(4);
    FakeSource src(1);
    src.setIndexedProperty<MeasurementFrameInfo>(inst, s.w, s.h, (double)gain, 0., (double)s.thr(), 1.);
    src.setIndexedProperty<MeasurementFrameImages>(inst, mf, s.w, s.h);
    src.setIndexedProperty<MeasurementFramePixelCentroid>(inst, cx / 16.f, cy / 16.f);
    src.setIndexedProperty<JacobianSource>(inst, (double)JACS[k][0], (double)JACS[k][1], (double)JACS[k][2], (double)JACS[k][3]);
    src.setIndexedProperty<SaturateFlag>(inst, sat);
    src.setProperty<BlendedFlag>(blended);
    src.setProperty<DetectionFrameInfo>(d.w, d.h, (double)gain, 0., (double)d.thr(), 1.);
    src.setProperty<DetectionFrameImages>(df, d.w, d.h);
    src.setProperty<PixelCentroid>(dx / 16.f, dy / 16.f);
    src.setProperty<PixelCoordinateList>(pl);
    src.setProperty<ShapeParameters>(shape(e));
    if (kind != 4) src.setProperty<KronRadius>(kind == 3 ? rl / 2.f : kr / 64.f, 0L);
    src.setProperty<SourceID>(7u, 7u);
    auto lev = [](V v, int b) { for (auto& p : v) p -= b; return v; };
    L.ev({{"e", "Begin"}, {"kind", "source"}, {"seed", first + i}, {"w", s.w}, {"h", s.h}, {"px", lev(s.px, level)}, {"var", s.var}, {"mask2", s.mask2}, {"sym", s.sym}, {"gain", gain},
          {"jac", jj(k)}, {"cx", cx}, {"cy", cy}, {"sat", sat}, {"blended", blended}, {"noDet", noDet}, {"dw", d.w}, {"dh", d.h}, {"dpx", lev(d.px, dlevel)}, {"dvar", d.var}, {"dmask2", d.mask2}, {"dthr", dthr}, {"dx", dx}, {"dy", dy}, {"own", own}});
    auto result = [&](const char* name, bool circ, int rr, const J& b, const J& db, double flux, double err, double mag, double magErr, Flags f) {
      bool nanMag = isNan(mag);
      L.ev({{"e", name}, {"circ", circ}, {"r", rr}, {"ell", V{e.a, e.b, e.c}}, {"box", b}, {"dbox", db}, {"flux", r100(flux)}, {"err2", r100(err * err)}, {"nanErr", isNan(err)}, {"nanMag", nanMag},
            {"mag", nanMag ? 0 : r100(std::pow(10., (zp - mag) / 2.5))}, {"err", r100(err)}, {"magErr", r100(magErr * flux / 1.0857)}, {"flags", (long)flags2long(f)}});
    };
    if (kind == 1) {
      V r64; std::vector<SeFloat> dia; int na = r.range(1, 3);
      std::vector<int> rs; for (int q = 0; q < na; ++q) rs.push_back(2 * r.range(0, 60) + 1);
      std::sort(rs.begin(), rs.end()); rs.erase(std::unique(rs.begin(), rs.end()), rs.end());
      if (r.chance(1, 2)) std::reverse(rs.begin(), rs.end());
      for (int q : rs) dia.push_back(q / 16.f);
      if (!noDet) {
        std::vector<SeFloat> all = dia; all.push_back(8.f); std::reverse(all.begin(), all.end());
        ApertureFlagTask(all).computeProperties(src);
      }
      AperturePhotometryTask(dia, inst, zp, s.sym).computeProperties(src);
      auto& p = src.getProperty<AperturePhotometry>(inst);
      for (size_t q = 0; q < rs.size(); ++q) {
        CircularAperture c(rs[q] / 32.f); TransformedAperture t(std::make_shared<CircularAperture>(c), jt(k));
        result("Aper", true, rs[q], box(t, cx / 16.f, cy / 16.f), box(c, dx / 16.f, dy / 16.f), p.getFluxes().at(q), p.getFluxErrors().at(q), p.getMags().at(q), p.getMagErrors().at(q), p.getFlags().at(q));
      }
      L.ev({{"e", "Count"}, {"n", (int)p.getFluxes().size()}, {"want", (int)rs.size()}});
    } else if (kind == 2) {
      AutoPhotometryFlagTask(factor, minr / 64.f).computeProperties(src);
      AutoPhotometryTask(inst, zp, factor, minr / 64.f, s.sym).computeProperties(src);
      Ell f = e; f.r = std::max(factor * kr, minr);
      auto& p = src.getProperty<AutoPhotometry>(inst);
      auto a = make(f); TransformedAperture t(a, jt(k));
      L.ev({{"e", "Kron"}, {"factor", factor}, {"kr", kr}, {"minr", minr}});
      result("Auto", false, f.r, box(t, cx / 16.f, cy / 16.f), box(*a, dx / 16.f, dy / 16.f), p.getFlux(), p.getFluxError(), p.getMag(), p.getMagError(), p.getFlags());
    } else if (kind == 3) {
      GrowthCurveTask(inst, s.sym).computeProperties(src);
      auto& g = src.getProperty<GrowthCurve>(inst);
      V at, v; for (int q = 1; q < 16; q += 2) { at.push_back(q * rl * grow); v.push_back((int)r100(g.getCurve().at(4 * q - 1))); }
      L.ev({{"e", "Growth"}, {"rl", rl * grow}, {"max", r100(g.getMax())}, {"size", (int)g.getCurve().size()}, {"at", at}, {"v", v}});
    } else {
      src.setProperty<ShapeParameters>(shape(e));
      KronRadiusTask().computeProperties(src);
      auto& p = src.getProperty<KronRadius>();
      L.ev({{"e", "KronRadius"}, {"ell", V{e.a, e.b, e.c}}, {"v", std::lround(p.getKronRadius() * 1024)}, {"flag", (long)p.getFlag()}});
    }
    L.ev({{"e", "End"}}); L.flush();
  }
}

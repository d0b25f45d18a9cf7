// Flags: the algebra and the printed form, and the flags that tasks give to sources.
#include <sstream>
#include "vplog.h"
#include "vpsources.h"
#include "SEFramework/Source/SourceFlags.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Frame/Frame.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
#include "SEImplementation/Plugin/SourceFlags/SourceFlagsSourceTask.h"
#include "SEImplementation/Plugin/BoundaryFlag/BoundaryFlagTaskFactory.h"
#include "SEImplementation/Plugin/SaturateFlag/SaturateFlagTaskFactory.h"
#include "SEImplementation/Plugin/BlendedFlag/BlendedFlagTask.h"
#include "SEImplementation/Plugin/BlendedFlag/BlendedFlag.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfo.h"
#include "SEImplementation/Plugin/ExternalFlag/ExternalFlagTask.h"
#include "SEImplementation/Plugin/SourceIDs/SourceID.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
using V = std::vector<int>;
static J strs(const std::vector<std::string>& v) { std::string s = "["; for (auto& x : v) { if (s.size() > 1) s += ","; s += "\"" + x + "\""; } return J::raw(s + "]"); }
static J lists(const std::vector<V>& v) { std::string s = "["; for (auto& x : v) { if (s.size() > 1) s += ","; s += "["; for (size_t i = 0; i < x.size(); ++i) s += (i ? "," : "") + std::to_string(x[i]); s += "]"; } return J::raw(s + "]"); }
static std::vector<std::string> printed(Flags f, bool& ok) {
  std::ostringstream o;
  ok = true;
  try { o << f; } catch (std::exception&) { ok = false; return {}; }
  std::string s = o.str();
  if (s == "NONE") return {};
  std::vector<std::string> r;
  if (s.size() < 2 || s.front() != '(' || s.back() != ')') { ok = false; return {}; }
  s = s.substr(1, s.size() - 2);
  for (;;) { auto p = s.find(" | "); r.push_back(s.substr(0, p)); if (p == std::string::npos) break; s = s.substr(p + 3); }
  return r;
}
static const int BITS[] = {0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13};
static Flags some(Rng& r) { int64_t v = 0; int d = r.range(1, 5); for (int b : BITS) if (r.below(d) == 0) v |= 1ll << b; return static_cast<Flags>(v); }
struct Frm { int w, h, sat; std::vector<float> px; int kind; int x0, y0, x1, y1; };
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1);
  // all the combinations
  for (int hi = 0; hi < 16; ++hi) {
    L.ev({{"e", "Begin"}, {"kind", "print"}});
    for (int k = 0; k < 256; ++k) {
      int64_t v = 0; for (int b = 0; b < 12; ++b) if ((hi * 256 + k) >> b & 1) v |= 1ll << BITS[b];
      bool ok; auto p = printed(static_cast<Flags>(v), ok);
      auto back = flags2long(static_cast<Flags>(v));
      L.ev({{"e", "Print"}, {"v", (long)v}, {"n", (long)back}, {"ok", ok}, {"p", strs(p)}});
    }
    L.ev({{"e", "End"}}); L.flush();
  }
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 6364136223846793005ull + 3);
    L.ev({{"e", "Begin"}, {"kind", "ops"}});
    Flags acc = Flags::NONE;
    for (int k = 0; k < 20; ++k) {
      Flags a = some(r), b = some(r); bool t = r.chance(1, 2);
      if (r.chance(1, 4)) b = acc;
      acc |= a * t;
      auto both = flags2long(std::vector<Flags>{a, b, a | b});
      L.ev({{"e", "Op"}, {"a", (long)flags2long(a)}, {"b", (long)flags2long(b)}, {"t", t}, {"or", (long)flags2long(a | b)}, {"and", (long)flags2long(a & b)}, {"acc", (long)flags2long(acc)},
            {"list", V{(int)both[0], (int)both[1], (int)both[2]}}});
    }
    L.ev({{"e", "End"}}); L.flush();
  }
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 2862933555777941757ull + 5);
    int nf = r.range(1, 4);
    std::vector<Frm> fr; std::vector<V> rects, dims, pixels; V sats, kinds;
    std::vector<std::shared_ptr<MeasurementImageFrame>> frames;
    for (int f = 0; f < nf; ++f) {
      Frm m; m.w = r.range(1, 7); m.h = r.range(1, 7); m.sat = r.chance(1, 4) ? 0 : r.range(1, 12);
      m.px.resize(m.w * m.h); int top = r.range(1, 14); for (auto& p : m.px) p = r.range(-3, top);
      m.kind = r.chance(1, 5) ? r.range(1, 2) : 0;  // 0: a rectangle, 1: outside, 2: bad projection
      m.x0 = r.range(0, m.w - 1); m.x1 = r.range(m.x0, m.w - 1); m.y0 = r.range(0, m.h - 1); m.y1 = r.range(m.y0, m.h - 1);
      fr.push_back(m); rects.push_back({m.x0, m.y0, m.x1, m.y1}); dims.push_back({m.w, m.h}); sats.push_back(m.sat); kinds.push_back(m.kind); pixels.push_back(V(m.px.begin(), m.px.end()));
      frames.push_back(std::make_shared<MeasurementImageFrame>(VectorImage<SeFloat>::create(m.w, m.h, std::vector<SeFloat>(m.px.begin(), m.px.end()))));
      // what the frame is measured on is not what says whether it is saturated
      frames.back()->setBackgroundLevel(std::shared_ptr<Image<SeFloat>>(VectorImage<SeFloat>::create(m.w, m.h, std::vector<SeFloat>(m.w * m.h, -20))), 1);
    }
    std::map<std::string, std::vector<unsigned>> groups; std::vector<V> gl;
    int ng = r.range(1, 3);
    for (int g = 0; g < ng; ++g) { V l; for (int f = 0; f < nf; ++f) if (r.chance(1, 2)) { l.push_back(f + 1); groups[std::string(1, 'a' + g)].push_back(f * 3 + 1); } if (!l.empty()) gl.push_back(l); }
    // the detection image, its pixels and external flag images
    int dw = r.range(1, 5), dh = r.range(1, 5); std::vector<V> pix; std::vector<PixelCoordinate> pc;
    for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) if (r.chance(1, 2)) { pix.push_back({x, y}); pc.push_back({x, y}); }
    if (pc.empty()) { pix.push_back({0, 0}); pc.push_back({0, 0}); }
    if (r.chance(1, 2)) { std::reverse(pix.begin(), pix.end()); std::reverse(pc.begin(), pc.end()); }
    int hdu = r.below(3), fw = dw, fh = dh; if (r.chance(1, 10)) { fw += r.range(0, 1); fh += r.range(-1, 1); if (fh < 1) fh = 1; }
    std::vector<std::shared_ptr<FlagImage>> fimg; std::vector<V> fval;
    for (int k = 0; k < 3; ++k) {
      std::vector<int64_t> v(fw * fh); int m = r.chance(1, 3) ? 2 : r.chance(1, 2) ? 9 : 1 << 20;
      for (auto& p : v) p = r.chance(1, 3) ? 0 : r.below(m);
      if (r.chance(1, 6)) for (auto& p : v) p = 5;
      fval.push_back(V(v.begin(), v.end())); fimg.push_back(VectorImage<int64_t>::create(fw, fh, v));
    }
    bool split = r.chance(1, 2);
    auto maker = [&](FakeSource& s, const PropertyId& id) -> std::unique_ptr<Property> {
      int k = ((int)id.getIndex() - 1) / 3;
      if (id.getTypeId() == typeid(MeasurementFrameInfo)) return std::unique_ptr<Property>(new MeasurementFrameInfo(fr[k].w, fr[k].h, 1, fr[k].sat, 1, 1));
      if (id.getTypeId() == typeid(MeasurementFrameImages)) return std::unique_ptr<Property>(new MeasurementFrameImages(frames[k], fr[k].w, fr[k].h));
      if (id.getTypeId() == typeid(MeasurementFrameRectangle)) return std::unique_ptr<Property>(fr[k].kind ? new MeasurementFrameRectangle(fr[k].kind == 2) : new MeasurementFrameRectangle(PixelCoordinate(fr[k].x0, fr[k].y0), PixelCoordinate(fr[k].x1, fr[k].y1)));
      if (id.getTypeId() == typeid(BoundaryFlag) || id.getTypeId() == typeid(SaturateFlag)) {
        std::shared_ptr<Task> t = id.getTypeId() == typeid(BoundaryFlag) ? BoundaryFlagTaskFactory().createTask(id) : SaturateFlagTaskFactory().createTask(id);
        std::dynamic_pointer_cast<SourceTask>(t)->computeProperties(s); return nullptr;
      }
      if (id.getTypeId() == typeid(BlendedFlag)) { BlendedFlagTask().computeProperties(s); return nullptr; }
      if (id.getTypeId() == typeid(DetectionFrameInfo)) return std::unique_ptr<Property>(new DetectionFrameInfo(dw, dh, 1, 0, 1, 1, {}, hdu));
      return nullptr;
    };
    FakeSource s(1, maker);
    // a source that came out of another one carries the number of its detection
    SourceId whole; if (split) s.setProperty<SourceId>(whole.getSourceId()); else s.setProperty<SourceId>();
    s.setProperty<PixelCoordinateList>(pc);
    L.ev({{"e", "Begin"}, {"kind", "source"}, {"seed", first + i}, {"rects", lists(rects)}, {"dims", lists(dims)}, {"sats", sats}, {"kinds", kinds}, {"pixels", lists(pixels)}, {"groups", lists(gl)}, {"split", split},
          {"pix", lists(pix)}, {"dw", dw}, {"dh", dh}, {"fw", fw}, {"fh", fh}, {"hdu", hdu}, {"fval", lists(fval)}});

    for (int f = 0; f < nf; ++f) {
      if (r.chance(1, 3)) L.ev({{"e", "Boundary"}, {"f", f + 1}, {"v", s.getProperty<BoundaryFlag>(f * 3 + 1).getBoundaryFlag()}});
      if (r.chance(1, 3)) L.ev({{"e", "Saturate"}, {"f", f + 1}, {"v", s.getProperty<SaturateFlag>(f * 3 + 1).getSaturateFlag()}});
    }
    SourceFlagsSourceTask(groups).computeProperties(s);
    V got; for (auto v : flags2long(s.getProperty<SourceFlags>().getSourceFlags())) got.push_back((int)v);
    L.ev({{"e", "Flags"}, {"v", got}});
    auto ext = [&](const char* name, SourceTask& t, unsigned inst) {
      bool threw = false; long flag = 0, count = 0;
      try { t.computeProperties(s); auto& p = s.getProperty<ExternalFlag>(inst); flag = p.getFlag(); count = p.getCount(); } catch (Elements::Exception&) { threw = true; }
      if (name[0] == 'A' && flag > 0x7fffffff) flag = -1;   // no pixels at all: every bit
      L.ev({{"e", "Ext"}, {"type", name}, {"threw", threw}, {"flag", flag}, {"count", count}});
    };
    unsigned k = r.below(5);
    ExternalFlagTaskOr o(fimg, k); ext("OR", o, k);
    ExternalFlagTaskAnd a(fimg, k + 1); ext("AND", a, k + 1);
    ExternalFlagTaskMin m(fimg, k + 2); ext("MIN", m, k + 2);
    ExternalFlagTaskMax x(fimg, k + 3); ext("MAX", x, k + 3);
    ExternalFlagTaskMost t(fimg, k + 4); ext("MOST", t, k + 4);
    L.ev({{"e", "End"}}); L.flush();
  }
}

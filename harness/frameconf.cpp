// Detection and measurement frames assembled by the real configuration classes from real FITS files and options.
#include <cmath>
#include <cstring>
#include <fitsio.h>
#include <boost/filesystem.hpp>
#include "common/vplog.h"
#include "common/vpconfig.h"
#include "SEFramework/FITS/FitsImageSource.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/ConstantImage.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Frame/Frame.h"
#include "SEImplementation/Background/BackgroundAnalyzerFactory.h"
#include "SEImplementation/Background/SE/SEBackgroundLevelAnalyzer.h"
#include "SEImplementation/Background/SimpleBackgroundAnalyzer.h"
#include "SEImplementation/Configuration/BackgroundConfig.h"
#include "SEImplementation/Configuration/DetectionFrameConfig.h"
#include "SEImplementation/Configuration/DetectionImageConfig.h"
#include "SEImplementation/Configuration/MeasurementFrameConfig.h"
#include "SEImplementation/Configuration/MeasurementImageConfig.h"
#include "SEImplementation/Configuration/WeightImageConfig.h"
#include "SEImplementation/PythonConfig/PythonInterpreter.h"
using namespace SourceXtractor;
using vp::J; using vp::Rng;
static vp::Log L;
static std::map<int, PyMeasurementImage> g_images;
// The measurement images a configuration script would define
namespace SourceXtractor {
static Elements::Logging g_python = Elements::Logging::getLogger("Python");
PythonInterpreter::PythonInterpreter() : m_out_wrapper(g_python), m_err_wrapper(g_python) {}
PythonInterpreter::~PythonInterpreter() {}
PythonInterpreter& PythonInterpreter::getSingleton() { static PythonInterpreter* p = new PythonInterpreter; return *p; }
void PythonInterpreter::runFile(const std::string&, const std::vector<std::string>&) {}
void PythonInterpreter::setupContext() {}
std::map<int, PyMeasurementImage> PythonInterpreter::getMeasurementImages() { return g_images; }
}
static std::string arr(const std::vector<J>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i].s; } return s + "]"; }
static bool huge(float v) { uint32_t b; std::memcpy(&b, &v, 4); return (b & 0x7fffffffu) >= 0x7f000000u; }   // the largest floats, infinity, not a number
static bool isinf_(float v) { uint32_t b; std::memcpy(&b, &v, 4); return b == 0x7f800000u; }
// scaled to an integer; -1: infinite or as good as
static J sc(double v, double s) { return J(static_cast<int>(std::lround(v * s))); }
static J scf(float v, double s) { return huge(v) ? J(-1) : sc(v, s); }
template <typename T> static J pix(const Image<T>& im, double s, bool inf = false) {
  std::vector<J> v;
  ImageAccessor<T> a(im);
  for (int y = 0; y < im.getHeight(); ++y) for (int x = 0; x < im.getWidth(); ++x) { float f = a.getValue(x, y); v.push_back(inf ? (isinf_(f) ? J(-1) : huge(f) ? J(-2) : sc(f, s)) : scf(f, s)); }
  return J::raw(arr(v));
}
static J opt(bool has, int v) { return has ? J::raw("[" + std::to_string(v) + "]") : J::raw("[]"); }
struct Ext { int w, h, d; std::vector<std::vector<float>> planes; bool hg, hs, hf; int g2, s2, f4, mark; bool gi; };
static void die(const char* w, int st) { if (st) { char m[40]; fits_get_errstatus(st, m); std::fprintf(stderr, "%s: %s\n", w, m); std::exit(2); } }
static void write(const std::string& path, const std::vector<Ext>& es, bool emptyPrimary, const std::string& badkey) {
  int st = 0; fitsfile* f = nullptr;
  fits_create_file(&f, ("!" + path).c_str(), &st); die(path.c_str(), st);
  if (emptyPrimary) fits_create_img(f, FLOAT_IMG, 0, nullptr, &st);
  for (auto& e : es) {
    long n[3] = {e.w, e.h, e.d};
    fits_create_img(f, FLOAT_IMG, e.d > 1 ? 3 : 2, n, &st);
    for (size_t p = 0; p < e.planes.size(); ++p) { long first[3] = {1, 1, static_cast<long>(p) + 1}; fits_write_pix(f, TFLOAT, first, e.w * e.h, const_cast<float*>(e.planes[p].data()), &st); }
    auto num = [&](const char* k, double v, bool in) { long l = std::lround(v); if (in && l == v) fits_update_key(f, TLONG, k, &l, nullptr, &st); else fits_update_key(f, TDOUBLE, k, &v, nullptr, &st); };
    if (e.hg) num("GAIN", e.g2 / 2., e.gi);
    if (e.hs) num("SATURATE", e.s2 / 2., e.gi);
    if (e.hf) num("FLXSCALE", e.f4 / 4., e.gi);
    if (e.mark) num("VPMARK", e.mark, true);
    if (!badkey.empty() && &e == &es.back()) fits_update_key(f, TSTRING, badkey.c_str(), const_cast<char*>("much"), nullptr, &st);
    die("write", st);
  }
  fits_close_file(f, &st); die("close", st);
}
static Ext mkimage(Rng& r, int d) {
  Ext e{r.range(4, 9), r.range(4, 9), d, {}, r.chance(1, 2), r.chance(1, 2), r.chance(1, 3), r.range(0, 9), r.range(0, 200), 1 << r.below(5), r.range(1, 999), r.chance(1, 2)};
  for (int p = 0; p < d; ++p) {
    std::vector<float> v(e.w * e.h);
    int base = r.range(0, 20);
    for (auto& x : v) x = base + r.range(-3, 3) + (r.chance(1, 12) ? r.range(0, 12) : 0);
    e.planes.push_back(v);
  }
  return e;
}
// weights in quarters
static Ext mkweight(Rng& r, int w, int h, int d, bool flat) {
  static const int W[] = {0, 2, 4, 8, 16, -4, 4, 4, 8};
  Ext e{w, h, d, {}, false, false, false, 0, 0, 4, 0, false};
  for (int p = 0; p < d; ++p) { std::vector<float> v(w * h); int c = W[r.below(9)]; for (auto& x : v) x = (flat ? std::max(2, c) : W[r.below(9)]) / 4.f; e.planes.push_back(v); }
  return e;
}
static J jext(const Ext& e, double s) {
  std::vector<J> planes;
  for (auto& p : e.planes) { std::vector<J> v; for (auto x : p) v.push_back(sc(x, s)); planes.push_back(J::raw(arr(v))); }
  return J::obj({{"w", e.w}, {"h", e.h}, {"planes", J::raw(arr(planes))}, {"gain", opt(e.hg, e.g2)}, {"sat", opt(e.hs, e.s2)}, {"flx", opt(e.hf, e.f4)}, {"mark", e.mark}});
}
static std::string num(double v) { std::ostringstream o; o << v; return o.str(); }
static const char* WT[] = {"none", "background", "rms", "variance", "weight"};
// what became of the weights: the factor they were multiplied with (thousandths); -1: stayed infinite, -3: stayed zero, -9: neither
static int factor(float v, float w) { return huge(w) ? (huge(v) ? -1 : -9) : huge(v) ? -9 : w == 0 ? (v == 0 ? -3 : -9) : static_cast<int>(std::lround(double(v) / w * 1000)); }
static J frame(const DetectionImageFrame& f, std::shared_ptr<WeightImage> w, float wthr) {
  auto var = f.getOriginalVarianceMap();
  auto thr = f.getDetectionThresholdMap();
  ImageAccessor<SeFloat> av(*var), at(*thr);
  int dt = -1;   // threshold in units of the noise, where the noise is known
  for (int y = 0; y < var->getHeight(); ++y) for (int x = 0; x < var->getWidth(); ++x) { float v = av.getValue(x, y); if (!huge(v) && v > 0.01) dt = std::lround(at.getValue(x, y) / std::sqrt(v) * 1000); }
  std::vector<J> q, bad;
  for (int y = 0; y < var->getHeight(); ++y) for (int x = 0; x < var->getWidth(); ++x) bad.push_back(!(av.getValue(x, y) < f.getVarianceThreshold()));
  if (w) { ImageAccessor<SeFloat> aw(*w); for (int y = 0; y < var->getHeight(); ++y) for (int x = 0; x < var->getWidth(); ++x) q.push_back(factor(av.getValue(x, y), aw.getValue(x, y))); }
  int mark = -1;
  auto it = f.getMetadata().find("VPMARK");
  if (it != f.getMetadata().end()) if (auto* i = boost::get<int64_t>(&it->second.m_value)) mark = *i;
  return J::obj({{"pix", pix(*f.getOriginalImage(), 64)}, {"gain", sc(f.getGain(), 64)}, {"sat", sc(f.getSaturation(), 64)},
      {"thr", scf(f.getVarianceThreshold(), 4096)}, {"tq", factor(f.getVarianceThreshold(), wthr)}, {"var", pix(*var, 4096)}, {"q", J::raw(arr(q))}, {"bad", J::raw(arr(bad))}, {"filled", pix(*f.getInterpolatedImage(), 64)}, {"bg", pix(*f.getBackgroundLevelMap(), 64)}, {"rms", scf(f.getBackgroundMedianRms(), 1024)},
      {"dt", dt}, {"label", f.getLabel()}, {"hdu", static_cast<int>(f.getHduIndex())}, {"mark", mark}, {"wcs", f.getCoordinateSystem() != nullptr}});
}
static J model(const BackgroundAnalyzer& a, std::shared_ptr<DetectionImage> im, std::shared_ptr<WeightImage> w, WeightImage::PixelType thr) {
  auto m = a.analyzeBackground(im, w, ConstantImage<unsigned char>::create(im->getWidth(), im->getHeight(), false), thr);
  return J::obj({{"se", dynamic_cast<const SEBackgroundLevelAnalyzer*>(&a) != nullptr}, {"level", pix(*m.getLevelMap(), 64)}, {"var", pix(*m.getVarianceMap(), 4096)}, {"f", scf(m.getScalingFactor(), 1000)}, {"rms", scf(m.getMedianRms(), 1024)}});
}
template <typename C> struct Configured {
  Euclid::Configuration::ConfigManager& cm;
  Configured() : cm(Euclid::Configuration::ConfigManager::getInstance(Euclid::Configuration::ConfigManager::getUniqueManagerId())) {}
  void run(const std::vector<std::string>& options) {
    namespace po = boost::program_options;
    cm.registerConfiguration<C>();
    auto desc = cm.closeRegistration();
    std::stringstream file;   // the form of a configuration file, where a value can be empty
    for (size_t i = 0; i + 1 < options.size(); i += 2) file << options[i] << "=" << options[i + 1] << "\n";
    po::variables_map vm;
    po::store(po::parse_config_file(file, desc, true), vm);
    Euclid::Configuration::Configuration::UserValues uv;
    for (auto& v : vm) uv[v.first] = v.second;
    cm.initialize(uv);
  }
};
static void fail(const std::exception& e) { if (std::getenv("VP_VERBOSE")) std::fprintf(stderr, "refused: %s\n", e.what()); }
static void one(int c, Rng& r, const std::string& dir) {
  std::string det = dir + "/det.fits", wgt = dir + "/weight.fits", cube = dir + "/cube.fits", wcube = dir + "/wcube.fits", ref = dir + "/ref.fits";
  // the files
  int n = r.range(1, 3);
  bool emptyp = r.chance(1, 3), wempty = r.chance(1, 3), flat = r.chance(1, 3);
  std::string badkey = r.chance(1, 20) ? std::vector<std::string>{"GAIN", "SATURATE", "FLXSCALE"}[r.below(3)] : "";
  std::vector<Ext> de, we;
  for (int i = 0; i < n; ++i) de.push_back(mkimage(r, 1));
  for (int i = 0; i < n; ++i) we.push_back(mkweight(r, de[i].w, de[i].h, 1, flat));
  if (r.chance(1, 25)) we.push_back(mkweight(r, 4, 4, 1, flat));
  bool fewer = n > 1 && r.chance(1, 8);
  if (fewer && we.size() > 1) we.pop_back();
  write(det, de, emptyp, badkey); write(wgt, we, wempty, "");
  // the options
  std::vector<std::string> o;
  int kind = r.below(20);   // 0: no detection image  1: reference image only  2: both  3: one HDU by name
  bool hasdet = kind != 0 && kind != 1, hasref = kind == 1 || kind == 2, pick = kind >= 3 && kind <= 6;
  int picked = pick ? r.below(n) : -1;
  if (hasref) { write(ref, {mkimage(r, 1)}, false, ""); o.insert(o.end(), {"reference-image", ref}); }
  std::string suffix = pick ? "[" + std::to_string(picked + (emptyp ? 1 : 0)) + "]" : "", wsuffix = pick ? "[" + std::to_string(picked + (wempty ? 1 : 0)) + "]" : "";
  if (pick && picked >= static_cast<int>(we.size())) { picked = 0; suffix = emptyp ? "[1]" : "[0]"; wsuffix = wempty ? "[1]" : "[0]"; }
  if (hasdet) o.insert(o.end(), {"detection-image", det + suffix});
  bool og = r.chance(1, 4), os = r.chance(1, 4), of = r.chance(1, 4);
  int g2 = r.range(0, 9), s2 = r.range(0, 200), f4 = 1 << r.below(5);
  if (og) o.insert(o.end(), {"detection-image-gain", num(g2 / 2.)});
  if (os) o.insert(o.end(), {"detection-image-saturation", num(s2 / 2.)});
  if (of) o.insert(o.end(), {"detection-image-flux-scale", num(f4 / 4.)});
  bool interp = r.chance(3, 4), hgap = r.chance(1, 2); int gap = hgap ? r.range(-2, 9) : 5;
  if (!interp) o.insert(o.end(), {"detection-image-interpolation", "false"});
  if (hgap) o.insert(o.end(), {"detection-image-interpolation-gap", std::to_string(gap)});
  bool wimg = r.chance(3, 4);
  int wt = wimg ? (r.chance(1, 25) ? r.below(2) : r.range(2, 4)) : (r.chance(1, 6) ? r.range(2, 4) : r.below(2));
  bool unknown = r.chance(1, 25), wabs = wimg ? r.chance(1, 2) : r.chance(1, 10), hthr = r.chance(1, 2);
  int ws2 = 1 << r.below(3), thr4 = std::vector<int>{0, 1, 2, 4, 8, 16, 32, -4}[r.below(8)];
  std::string wname = unknown ? "sigma" : WT[wt];
  if (r.chance(1, 4)) for (auto& ch : wname) ch = std::toupper(ch);
  if (fewer) wabs = false;
  o.insert(o.end(), {"weight-type", wname});
  if (wimg) o.insert(o.end(), {"weight-image", wgt + wsuffix});
  if (wabs) o.insert(o.end(), {"weight-absolute", "true"});
  if (ws2 != 2 || r.chance(1, 2)) o.insert(o.end(), {"weight-scaling", num(ws2 / 2.)});
  if (hthr) o.insert(o.end(), {"weight-threshold", num(thr4 / 4.)});
  bool hbg = r.chance(1, 4), hdt = r.chance(1, 2); int bg = r.range(-5, 20), dt4 = hdt ? r.range(1, 20) : 6;
  if (hbg) o.insert(o.end(), {"background-value", std::to_string(bg)});
  if (hdt) o.insert(o.end(), {"detection-threshold", num(dt4 / 4.)});
  bool cells = r.chance(4, 5), smooth = r.chance(4, 5);
  o.insert(o.end(), {"background-cell-size", cells ? std::to_string(r.range(3, 5)) : ""});
  o.insert(o.end(), {"smoothing-box-size", smooth ? std::to_string(r.below(2) * 3) : ""});
  // measurement images
  g_images.clear();
  int nm = r.below(3);
  std::vector<J> jm;
  int cd = r.range(2, 3);
  auto ce = mkimage(r, cd); auto cw = mkweight(r, ce.w, ce.h, cd, flat);
  bool anycube = nm > 0 && r.chance(1, 2), missing = nm > 0 && r.chance(1, 15);
  if (anycube) { write(cube, {ce}, false, ""); write(wcube, {cw}, false, ""); }
  for (int i = 0; i < nm; ++i) {
    bool isc = anycube && r.chance(1, 2);
    int ext = isc ? 0 : r.below(std::min<int>(n, we.size()));
    PyMeasurementImage p(isc ? cube : det, "", "");
    bool pw = r.chance(2, 3), un = r.chance(1, 40), ht = r.chance(1, 2), cst = r.chance(1, 4);
    int pt = pw ? (r.chance(1, 30) ? r.below(2) : r.range(2, 4)) : (r.chance(1, 25) ? r.range(2, 4) : r.below(2));
    int pg2 = r.range(0, 9), ps2 = r.range(0, 200), pf4 = r.chance(1, 2) ? 4 : 1 << r.below(5), pws2 = 1 << r.below(3), pt4 = std::vector<int>{0, 1, 2, 4, 8, 16, 32, -4}[r.below(8)], cb = r.range(-5, 20);
    int layer = isc ? r.below(cd) : 0, wlayer = isc ? r.below(cd) : 0;
    if (isc && r.chance(1, 15)) layer = cd;
    p.gain = pg2 / 2.; p.saturation = ps2 / 2.; p.flux_scale = pf4 / 4.;
    p.weight_file = pw ? (isc ? wcube : wgt) : "";
    if (missing && i == 0) (pw && r.chance(1, 2) ? p.weight_file : p.file) = dir + "/nowhere.fits";
    p.weight_type = un ? "sigma" : WT[pt];
    p.weight_absolute = r.chance(1, 2); p.weight_scaling = pws2 / 2.;
    p.has_weight_threshold = ht; p.weight_threshold = pt4 / 4.;
    p.is_background_constant = cst; p.constant_background_value = cb;
    p.image_hdu = isc ? 0 : ext + (emptyp ? 1 : 0); p.weight_hdu = isc ? 0 : ext + (wempty ? 1 : 0); p.psf_hdu = r.below(4);
    p.is_data_cube = isc; p.image_layer = layer; p.weight_layer = wlayer; p.psf_renormalize = r.chance(1, 2);
    g_images.emplace(p.id, p);
    jm.push_back(J::obj({{"id", p.id}, {"cube", isc}, {"ext", ext + 1}, {"layer", layer}, {"wlayer", wlayer}, {"exists", !(missing && i == 0)}, {"wimg", pw}, {"wtype", p.weight_type},
        {"wabs", p.weight_absolute}, {"ws2", pws2}, {"thr", opt(ht, pt4)}, {"g2", pg2}, {"s2", ps2}, {"f4", pf4}, {"bg", opt(cst, cb)}, {"hdu", p.image_hdu + 1}, {"phdu", p.psf_hdu + 1}, {"whdu", p.weight_hdu + 1}, {"renorm", p.psf_renormalize}}));
  }
  std::vector<J> jd, jw;
  for (auto& e : de) jd.push_back(jext(e, 1));
  for (auto& e : we) jw.push_back(jext(e, 4));
  L.ev({{"c", c}, {"e", "Begin"}, {"det", J::raw(arr(jd))}, {"wgt", J::raw(arr(jw))}, {"cube", jext(ce, 1)}, {"wcube", jext(cw, 4)}, {"badkey", badkey},
      {"hasdet", hasdet}, {"hasref", hasref}, {"picked", picked + 1}, {"gain", opt(og, g2)}, {"sat", opt(os, s2)}, {"flx", opt(of, f4)}, {"interp", interp}, {"gap", gap},
      {"wimg", wimg}, {"wtype", unknown ? "sigma" : WT[wt]}, {"wabs", wabs}, {"ws2", ws2}, {"thr", opt(hthr, thr4)}, {"bg", opt(hbg, bg)}, {"dt", dt4 * 250}, {"se", cells && smooth}, {"meas", J::raw(arr(jm))}});
  {
    Configured<DetectionFrameConfig> cf; bool ok = true;
    try { cf.run(o); } catch (const std::exception& e) { ok = false; fail(e); }
    if (ok) {
      auto& ic = cf.cm.template getConfiguration<DetectionImageConfig>(); auto& wc = cf.cm.template getConfiguration<WeightImageConfig>();
      auto& fc = cf.cm.template getConfiguration<DetectionFrameConfig>(); auto& fac = cf.cm.template getConfiguration<BackgroundAnalyzerFactory>();
      L.ev({{"c", c}, {"e", "Detection"}, {"ok", true}, {"n", static_cast<int>(ic.getExtensionsNb())}, {"frames", static_cast<int>(fc.getDetectionFrames().size())}, {"ref", ic.isReferenceImage()}});
      for (size_t i = 0; i < fc.getDetectionFrames().size(); ++i) {
        auto im = ic.getDetectionImage(i); auto w = wc.getWeightImage(i);
        L.ev({{"c", c}, {"e", "Image"}, {"i", static_cast<int>(i) + 1}, {"pix", pix(*im, 64)}, {"gain", sc(ic.getGain(i), 64)}, {"sat", sc(ic.getSaturation(i), 64)}, {"gap", ic.getInterpolationGap(i)}, {"flx", sc(ic.getOriginalFluxScale(i), 4)}});
        L.ev({{"c", c}, {"e", "Weight"}, {"i", static_cast<int>(i) + 1}, {"has", w != nullptr}, {"pix", w ? pix(*w, 4096, true) : J::raw("[]")}, {"thr", scf(wc.getWeightThreshold(i), 4096)}});
        L.ev({{"c", c}, {"e", "Frame"}, {"i", static_cast<int>(i) + 1}, {"m", model(*fac.createBackgroundAnalyzer(), im, w, wc.getWeightThreshold(i))}, {"f", frame(*fc.getDetectionFrames()[i], w, wc.getWeightThreshold(i))}});
      }
    } else L.ev({{"c", c}, {"e", "Detection"}, {"ok", false}, {"n", 0}, {"frames", 0}, {"ref", false}});
  }
  {
    Configured<MeasurementFrameConfig> cf; bool ok = true;
    try { cf.run(o); } catch (const std::exception& e) { ok = false; fail(e); }
    if (ok) {
      auto& mc = cf.cm.template getConfiguration<MeasurementImageConfig>(); auto& fc = cf.cm.template getConfiguration<MeasurementFrameConfig>(); auto& fac = cf.cm.template getConfiguration<BackgroundAnalyzerFactory>();
      std::vector<J> ids; for (auto& f : fc.getFrames()) ids.push_back(f.first);
      L.ev({{"c", c}, {"e", "Measurement"}, {"ok", true}, {"n", static_cast<int>(mc.getImageInfos().size())}, {"ids", J::raw(arr(ids))}});
      int k = 0;
      for (auto& in : mc.getImageInfos()) {
        ++k;
        L.ev({{"c", c}, {"e", "Info"}, {"i", k}, {"id", in.m_id}, {"pix", pix(*in.m_measurement_image, 64)}, {"gain", sc(in.m_gain, 64)}, {"sat", sc(in.m_saturation_level, 64)},
            {"has", in.m_weight_image != nullptr}, {"wpix", in.m_weight_image ? pix(*in.m_weight_image, 4096, true) : J::raw("[]")}, {"thr", scf(in.m_weight_threshold, 4096)},
            {"hdus", J::raw(arr({in.m_image_hdu, in.m_psf_hdu, in.m_weight_hdu}))}, {"renorm", in.m_psf_renormalize}, {"wcs", in.m_coordinate_system != nullptr}});
        L.ev({{"c", c}, {"e", "MFrame"}, {"i", k}, {"m", model(*fac.createBackgroundAnalyzer(in.m_weight_type), in.m_measurement_image, in.m_weight_image, in.m_weight_threshold)}, {"f", frame(*fc.getFrames().at(in.m_id), in.m_weight_image, in.m_weight_threshold)}});
      }
    } else L.ev({{"c", c}, {"e", "Measurement"}, {"ok", false}, {"n", 0}, {"ids", J::raw("[]")}});
  }
  TileManager::getInstance()->flush();
  L.ev({{"c", c}, {"e", "End"}});
  L.flush();
}
int main(int argc, char** argv) {
  L.open(vp::arg(argc, argv, "--out"));
  int n = vp::argi(argc, argv, "--n", 500); long seed = vp::argi(argc, argv, "--seed", 1);
  auto tmp = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path("vpframes-%%%%%%%%");
  boost::filesystem::create_directory(tmp);
  for (int c = 1; c <= n; ++c) { Rng r(seed + c * 7919L); auto d = tmp / std::to_string(c); boost::filesystem::create_directory(d); one(c, r, d.native()); boost::filesystem::remove_all(d); }
  boost::system::error_code e; boost::filesystem::remove_all(tmp, e);
  return 0;
}

// Model fitting in the real program: linear fits whose solution is known, against the images and the catalogue.
#include "common/vpmain.h"
#include "Configuration/ConfigManager.h"
using vp::J; using vp::Rng; using vp::Plane;
static vp::Log L;
static uint64_t g_seed;
static std::string num(int v) { return std::to_string(v); }
static J ints(const std::vector<float>& v, double s = 1) { std::vector<J> o; for (auto x : v) o.push_back(vp::scaled(x, s)); return vp::list(o); }
static J ints(const std::vector<double>& v, double s = 1) { std::vector<J> o; for (auto x : v) o.push_back(vp::scaled(x, s)); return vp::list(o); }
static void child(int c, vp::Log& L, const std::string& dir) {
  Rng r(g_seed * 100003 + c);
  bool classic = r.chance(1, 5), level = !classic && r.chance(1, 4), overlap = !level && r.chance(3, 4);
  int nm = r.chance(1, 2) ? 2 : 1, bg = 0;
  Plane d{r.range(10, overlap ? 17 : 24), r.range(8, 14), {}, {}};
  d.v.assign(d.w * d.h, 0);
  int n = r.range(overlap ? 2 : 1, 5);
  struct Spot { int x, y; };
  std::vector<Spot> spots;
  for (int i = 0; i < n; ++i) {
    int bx = r.range(0, d.w - 1), by = r.range(0, d.h - 1), bw = r.range(1, 4), bh = r.range(1, 4);
    for (int y = by; y < std::min(d.h, by + bh); ++y) for (int x = bx; x < std::min(d.w, bx + bw); ++x) if (r.chance(6, 7)) d.v[y * d.w + x] = r.range(8, 30);
    spots.push_back({bx + bw / 2, by + bh / 2});
  }
  // slanted neighbours: apart, with boxes that overlap
  if (overlap && r.chance(3, 4)) {
    int k = r.range(2, 3), len = r.range(3, 5), x0 = r.range(0, 5), y0 = r.range(0, 3), up = r.chance(1, 2);
    d.v.assign(d.w * d.h, 0);
    if (spots.size() > 1 || r.chance(1, 2)) spots.clear();
    for (int j = 0; j < k; ++j) {
      for (int i = 0; i < len; ++i) { int x = x0 + 3 * j + i, y = up ? y0 + len - i : y0 + i; if (x < d.w && y < d.h) d.v[y * d.w + x] = r.range(8, 30); }
      spots.push_back({x0 + 3 * j + len / 2, y0 + len / 2});
    }
  }
  Plane one = d;
  for (auto& x : one.v) x = 1;
  vp::writeFits(dir + "/d.fits", {d});
  vp::writeFits(dir + "/s.fits", {one});
  // the point spread function: small integers, or a wider one
  int pw = r.chance(1, 2) ? 5 : r.chance(1, 8) ? 1 : 3;
  Plane psf{pw, pw, {}, {}};
  int psum = 0;
  for (int y = 0; y < pw; ++y) for (int x = 0; x < pw; ++x) { int m = std::abs(x - pw / 2) + std::abs(y - pw / 2), v = m == 0 ? r.range(3, 4) : m == 1 ? r.range(0, 2) : r.chance(1, m + (pw == 3)) ? 1 : 0; psf.v.push_back(v); psum += v; }
  // with the blank border of half a kernel the interpolation of the program wants
  Plane wide{pw + 8, pw + 8, {}, {}};
  wide.v.assign(wide.w * wide.h, 0);
  for (int y = 0; y < pw; ++y) for (int x = 0; x < pw; ++x) wide.v[(y + 4) * wide.w + x + 4] = psf.v[y * pw + x];
  vp::writeFits(dir + "/psf.fits", {wide});
  std::string py = "from sourcextractor.config import *\nimport math\n";
  std::vector<J> jm;
  bool gain = !level && r.chance(1, 4), hidden = r.chance(1, 10);
  int sat = r.chance(1, 4) ? r.range(20, 38) : 0;
  for (int k = 0; k < nm; ++k) {
    bool away = r.chance(1, 12);
    Plane m{r.range(8, 26), r.range(8, 18), {}, {}};
    int ox = away ? 40 : r.range(-3, 4), oy = r.range(-3, 4);
    int back = sat || hidden ? 0 : r.range(0, 4), cx = r.range(0, 3), cy = r.range(0, 3);
    m.v.assign(m.w * m.h, 0);
    for (auto& x : m.v) x = r.below(5);
    for (auto& s : spots) for (int y = -2; y <= 2; ++y) for (int x = -2; x <= 2; ++x) {
      int px = s.x + x - ox, py2 = s.y + y - oy, a = 18 / (1 + x * x + y * y);
      if (px >= 0 && py2 >= 0 && px < m.w && py2 < m.h && r.chance(7, 8)) m.v[py2 * m.w + px] = std::min<float>(40, m.v[py2 * m.w + px] + a);
    }
    for (auto& x : m.v) x += back;
    if (hidden) for (auto& x : m.v) x += 1;
    Plane s = m;
    bool varied = r.chance(1, 2);
    for (auto& x : s.v) x = varied && r.chance(1, 3) ? 4 : 1;
    m.keys = {{"CRPIX1", double(cx + 1)}, {"CRPIX2", double(cy + 1)}, {"CRVAL1", double(ox + cx)}, {"CRVAL2", double(oy + cy)}, {"CDELT1", 1.}, {"CDELT2", 1.}};
    auto f = "m" + num(k);
    vp::writeFits(dir + "/" + f + ".fits", {m});
    vp::writeFits(dir + "/w" + f + ".fits", {s});
    py += f + " = MeasurementGroup(load_fits_image('" + dir + "/" + f + ".fits', psf='" + dir + "/psf.fits', weight='" + dir + "/w" + f + ".fits', weight_type='variance', weight_absolute=True, constant_background=" + num(back) + ".0, gain=" + (gain ? "1.0" : "0.0") + ", saturation=" + (hidden ? "0.5" : num(sat) + ".0") + "))\n";
    jm.push_back(J::obj({{"w", m.w}, {"h", m.h}, {"v", ints(m.v)}, {"s", ints(s.v)}, {"bg", back}, {"ox", ox}, {"oy", oy}}));
  }
  // the detection image is at 0, 0 of the world
  {
    Plane k = d;
    k.keys = {{"CRPIX1", 1.}, {"CRPIX2", 1.}, {"CRVAL1", 0.}, {"CRVAL2", 0.}, {"CDELT1", 1.}, {"CDELT2", 1.}};
    vp::writeFits(dir + "/d.fits", {k});
  }
  // the models
  bool own = nm == 2 && !level && r.chance(1, 3);
  int twice = nm == 2 && !own && r.chance(1, 2) ? 2 : 1;
  bool iso = r.chance(1, 2);
  int f0 = r.range(5, 120);
  auto start = iso ? std::string("lambda o: o.isophotal_flux") : num(f0) + ".0";
  int rg = r.below(4);
  auto range = rg == 0 ? "Range((-2000.0, 4000.0), RangeType.LINEAR)" : rg == 1 ? "Unbounded(lambda v, o: v)" : "Unbounded(" + num(r.range(1, 50)) + ".0)";
  py += "x = ConstantParameter(lambda o: math.floor(o.centroid_x + 0.5))\ny = ConstantParameter(lambda o: math.floor(o.centroid_y + 0.5))\n";
  py += "f0 = FreeParameter(" + start + ", " + range + ")\nf1 = " + (own ? "FreeParameter(" + start + ", " + range + ")" : "DependentParameter(lambda f: f * " + num(twice) + ".0, f0)") + "\n";
  py += "q = DependentParameter(lambda f, x: 2.0 * f - x, f0, x)\n";
  if (level) py += "b = FreeParameter(" + num(r.range(0, 3)) + ".0, Unbounded(1.0))\nadd_output_column('b', b)\n";
  for (int k = 0; k < nm; ++k) {
    py += "add_model(m" + num(k) + ", PointSourceModel(x, y, f" + num(k) + "))\n";
    if (level) py += "add_model(m" + num(k) + ", ConstantModel(b))\n";
  }
  bool prior = r.chance(1, 4);
  int pm = r.range(10, 200), ps = r.range(1, 12);
  if (prior) py += "add_prior(f0, " + num(pm) + ".0, " + num(ps) + ".0)\n";
  py += "add_output_column('f0', f0)\nadd_output_column('f1', f1)\nadd_output_column('q', q)\nadd_output_column('v', [x, f0, y])\n";
  int meta = r.range(1, 4), deblend = r.range(0, 2), window = r.chance(1, 2) ? 1 : r.range(1, 8);
  bool stop = r.chance(1, 5);
  py += "set_engine('gsl')\nset_max_iterations(200)\nset_modified_chi_squared_scale(1e5)\nuse_iterative_fitting(" + std::string(classic ? "False" : "True") + ")\nset_meta_iterations(" + num(meta) + ")\nset_deblend_factor(" + (deblend == 2 ? "1.0" : deblend ? "0.5" : "0.0") + ")\nset_meta_iteration_stop(" + (stop ? "1e12" : "0.0") + ")\nset_window_type(WindowType(" + num(window) + "))\n";
  std::ofstream(dir + "/c.py") << py;
  if (std::getenv("VP_VERBOSE")) std::fprintf(stderr, "%s\n", py.c_str());
  int threads = r.chance(1, 2) ? r.range(1, 4) : 0;
  std::vector<std::pair<std::string, std::string>> o = {
    {"detection-image", dir + "/d.fits"}, {"weight-image", dir + "/s.fits"}, {"weight-type", "variance"}, {"weight-absolute", "1"}, {"background-value", "0"},
    {"detection-threshold", "3.5"}, {"detection-minimum-area", "1"}, {"segmentation-algorithm", "LUTZ"}, {"segmentation-use-filtering", "0"}, {"partition-multithreshold", r.chance(1, 3) ? "1" : "0"},
    {"grouping-algorithm", overlap ? "SPLIT" : "NONE"}, {"use-cleaning", "0"}, {"thread-count", num(threads)}, {"python-config-file", dir + "/c.py"}, {"output-catalog-filename", dir + "/out.fits"},
    {"output-properties", "SourceIDs,GroupInfo,PixelBoundaries,PixelCentroid,IsophotalFlux,FlexibleModelFitting"},
    {"check-image-model-fitting", dir + "/model.fits"}, {"check-image-residual", dir + "/residual.fits"}, {"check-image-fitting-window", dir + "/window.fits"}};
  if (overlap) o[10] = {"grouping-algorithm", r.chance(5, 6) ? "OVERLAP" : "SPLIT"};
  L.ev({{"e", "Begin"}, {"c", c}, {"dw", d.w}, {"dh", d.h}, {"m", vp::list(jm)}, {"psf", ints(psf.v)}, {"pw", pw}, {"psum", psum}, {"gain", gain}, {"sat", sat}, {"hidden", hidden}, {"classic", classic}, {"level", level}, {"own", own}, {"twice", twice},
    {"iso", iso}, {"f0", f0}, {"prior", prior}, {"pm", pm}, {"ps", ps}, {"meta", meta}, {"deblend", deblend}, {"window", window}, {"stop", stop}, {"threads", threads}});
  L.flush();
  Euclid::Configuration::ConfigManager::anyOrder() = 1 + r.below(1000000);
  std::vector<vp::Part> parts;
  int rc = vp::program(o, parts);
  std::vector<J> rows;
  for (auto& p : parts) for (auto& row : p.rows) {
    auto i = [&](const char* c) { return J(static_cast<int>(vp::number(row, c))); };
    auto f = [&](const char* c, double s) { return vp::scaled(vp::number(row, c), s); };
    double S = psum;
    rows.push_back(J::obj({{"id", i("source_id")}, {"grp", i("group_id")}, {"box", vp::list({i("pixel_boundaries_min_x"), i("pixel_boundaries_min_y"), i("pixel_boundaries_max_x"), i("pixel_boundaries_max_y")})},
      {"cx", vp::scaled(vp::number(row, "pixel_centroid_x") - 1, 1000)}, {"cy", vp::scaled(vp::number(row, "pixel_centroid_y") - 1, 1000)}, {"iso", i("isophotal_flux")},
      {"g", vp::list({f("f0", 100 / S), f("f1", 100 / S)})}, {"f", vp::list({f("f0", 100), f("f1", 100)})}, {"e", vp::list({f("f0_err", 100), f("f1_err", 100)})}, {"q", f("q", 100)}, {"qe", f("q_err", 100)},
      {"b", level ? f("b", 100) : J(0)}, {"v", ints(vp::numbers(row, "v"), 100)}, {"ve", ints(vp::numbers(row, "v_err"), 100)}, {"chi", f("fmf_reduced_chi_2", 1000)}, {"n", i("fmf_iterations")}, {"flags", i("fmf_flags")},
      {"chis", ints(vp::numbers(row, "fmf_chi2_per_meta"), 1000)}, {"ns", ints(vp::numbers(row, "fmf_iterations_per_meta"))}, {"meta", i("fmf_meta_iterations")},
      {"ax", ints(vp::numbers(row, "fmf_fitting_areas_x"))}, {"ay", ints(vp::numbers(row, "fmf_fitting_areas_y"))}}));
  }
  L.ev({{"e", "Rows"}, {"rc", rc}, {"rows", vp::list(rows)}});
  for (auto* kind : {"model", "residual", "window"}) for (int k = 0; k < nm; ++k) {
    auto file = dir + "/" + kind + "_m" + num(k) + "_1.fits";
    bool ok = boost::filesystem::exists(file);
    Plane p{0, 0, {}, {}};
    if (ok) p = vp::readFits(file);
    L.ev({{"e", "Image"}, {"kind", kind}, {"k", k + 1}, {"there", ok}, {"w", p.w}, {"h", p.h}, {"v", ints(p.v, kind[0] == 'w' ? 1 : 100)}});
  }
}
int main(int argc, char** argv) {
  L.open(vp::arg(argc, argv, "--out", "/dev/stdout"));
  g_seed = vp::argi(argc, argv, "--seed", 1);
  int n = vp::argi(argc, argv, "--n", 10), from = vp::argi(argc, argv, "--from", 0);
  if (std::getenv("VP_VERBOSE")) Elements::Logging::hook() = [](const std::string& n, char l, const std::string& t) { std::fprintf(stderr, "%c %s: %s\n", l, n.c_str(), t.c_str()); };
  auto dir = std::string(vp::arg(argc, argv, "--out", "/tmp/fitrun")) + ".dir";
  vp::forkAll(L, dir, from, from + n, 1, vp::argi(argc, argv, "--jobs", 8), 100, child);
  boost::filesystem::remove_all(dir);
  return 0;
}

// The check images of a run, against its images and its catalogue.
#include "common/vpmain.h"
#include "Configuration/ConfigManager.h"
using vp::J; using vp::Rng; using vp::Plane;
static vp::Log L;
static uint64_t g_seed;
static std::string num(int v) { return std::to_string(v); }
static J ints(const std::vector<float>& v, double s = 1) { std::vector<J> o; for (auto x : v) o.push_back(vp::scaled(x, s)); return vp::list(o); }
static double key(fitsfile* f, const char* k, double def) { double v; int st = 0; fits_read_key(f, TDOUBLE, k, &v, nullptr, &st); return st ? def : v; }
// where a file says its first pixel is, and its steps, in halves
static std::vector<J> where(const std::string& path) {
  int st = 0;
  fitsfile* f = nullptr;
  fits_open_file(&f, path.c_str(), READONLY, &st);
  if (st) return {};
  std::vector<J> o, step;
  for (int i = 1; i <= 2; ++i) {
    auto n = num(i);
    double cd = key(f, ("CD" + n + "_" + n).c_str(), 1e99), s = cd < 1e98 ? cd : key(f, ("CDELT" + n).c_str(), 1) * key(f, ("PC" + n + "_" + n).c_str(), 1);
    o.push_back(vp::scaled(key(f, ("CRVAL" + n).c_str(), 0) + (1 - key(f, ("CRPIX" + n).c_str(), 0)) * s, 2));
    step.push_back(vp::scaled(s, 2));
  }
  fits_close_file(f, &st);
  return {o[0], o[1], step[0], step[1]};
}
static void child(int c, vp::Log& L, const std::string& dir) {
  Rng r(g_seed * 100003 + c);
  int hdus = r.chance(1, 3) ? 2 : 1, nm = hdus == 1 && r.chance(2, 3) ? r.range(1, 2) : 0, bg = r.range(0, 4);
  auto frame = [&](Plane& p, std::vector<int>& w) {
    static const double step[] = {1, 2, -1, 0.5};
    double sx = step[r.below(4)], sy = step[r.below(4)];
    int ox = r.range(-3, 3), oy = r.range(-3, 3), cx = r.range(0, 3), cy = r.range(0, 3);
    if (sx < 0) ox += p.w;
    if (sy < 0) oy += p.h;
    p.keys = {{"CRPIX1", double(cx + 1)}, {"CRPIX2", double(cy + 1)}, {"CRVAL1", ox + sx * cx}, {"CRVAL2", oy + sy * cy}, {"CDELT1", sx}, {"CDELT2", sy}};
    w = {2 * ox, 2 * oy, static_cast<int>(2 * sx), static_cast<int>(2 * sy)};
  };
  auto desc = [&](const Plane& p, const Plane& s, const std::vector<int>& w, int back) { return J::obj({{"w", p.w}, {"h", p.h}, {"v", ints(p.v)}, {"s", ints(s.v)}, {"bg", back}, {"at", vp::list({w[0], w[1], w[2], w[3]})}}); };
  std::vector<Plane> im, va;
  std::vector<J> jd, jm;
  for (int k = 0; k < hdus; ++k) {
    Plane d{r.range(6, 18), r.range(6, 14), {}, {}};
    d.v.assign(d.w * d.h, bg);
    if (r.chance(1, 2)) for (auto& x : d.v) x += r.below(3);
    Plane s = d;
    bool varied = r.chance(1, 2);
    for (auto& x : s.v) x = varied && r.chance(1, 5) ? 9 : 1;
    int n = r.range(0, 5);
    for (int i = 0; i < n; ++i) {
      int bx = r.range(0, d.w - 1), by = r.range(0, d.h - 1), bw = r.range(1, 5), bh = r.range(1, 5);
      for (int y = by; y < std::min(d.h, by + bh); ++y) for (int x = bx; x < std::min(d.w, bx + bw); ++x) if (r.chance(6, 7)) d.v[y * d.w + x] = bg + r.range(4, 30);
    }
    std::vector<int> w;
    frame(d, w);
    im.push_back(d);
    va.push_back(s);
    jd.push_back(desc(d, s, w, bg));
  }
  vp::writeFits(dir + "/d.fits", im);
  vp::writeFits(dir + "/s.fits", va);
  bool multi = r.chance(1, 2), clean = r.chance(1, 4), overlap = r.chance(1, 2);
  int area = r.range(1, 3), threads = r.chance(1, 2) ? r.range(1, 4) : 0;
  auto out = dir + (r.chance(1, 2) ? "/images" : "");
  boost::filesystem::create_directories(out);
  std::vector<std::pair<std::string, std::string>> o = {
    {"detection-image", dir + "/d.fits"}, {"weight-image", dir + "/s.fits"}, {"weight-type", "variance"}, {"weight-absolute", "1"}, {"background-value", num(bg)},
    {"detection-threshold", "3.5"}, {"detection-minimum-area", num(area)}, {"segmentation-algorithm", r.chance(1, 2) ? "LUTZ" : "BFS"}, {"segmentation-use-filtering", "0"},
    {"partition-multithreshold", multi ? "1" : "0"}, {"partition-minimum-area", num(r.range(1, 3))}, {"partition-threshold-count", num(r.range(3, 20))}, {"partition-minimum-contrast", "0.01"},
    {"grouping-algorithm", overlap ? "OVERLAP" : "NONE"}, {"use-cleaning", clean ? "1" : "0"}, {"thread-count", num(threads)}, {"tile-size", num(r.range(2, 9))}, {"tile-memory-limit", r.chance(1, 2) ? "1" : "64"}, {"output-catalog-filename", dir + "/out.fits"}};
  std::string props = "SourceIDs,GroupInfo,HduNumber,PixelBoundaries,NDetectedPixels,PixelCentroid,ShapeParameters,IsophotalFlux,KronRadius,AutoPhotometry";
  std::vector<std::string> labels;
  std::vector<int> radii;
  if (nm) {
    std::string py = "from sourcextractor.config import *\n";
    for (int k = 0; k < nm; ++k) {
      Plane m{r.range(6, 18), r.range(6, 14), {}, {}};
      for (int i = 0; i < m.w * m.h; ++i) m.v.push_back(r.below(9));
      Plane s = m;
      for (auto& x : s.v) x = 1 + r.below(4);
      std::vector<int> w;
      frame(m, w);
      int back = r.range(0, 4);
      vp::writeFits(dir + "/m" + num(k) + ".fits", {m});
      vp::writeFits(dir + "/ms" + num(k) + ".fits", {s});
      py += "m" + num(k) + " = MeasurementGroup(load_fits_image('" + dir + "/m" + num(k) + ".fits', weight='" + dir + "/ms" + num(k) + ".fits', weight_type='variance', weight_absolute=True, constant_background=" + num(back) + ".0))\n";
      labels.push_back("m" + num(k) + "_1");
      jm.push_back(desc(m, s, w, back));
    }
    for (int k = r.range(1, 2); k > 0; --k) radii.push_back(k == 2 ? r.range(2, 4) : r.range(4, 7));
    std::string list;
    for (int x : radii) list += (list.empty() ? "" : ", ") + num(2 * x);
    py += "a = add_aperture_photometry([" + std::string(nm == 2 ? "m0, m1" : "m0") + "], [" + list + "])\nadd_output_column('ap', a)\n";
    std::ofstream(dir + "/c.py") << py;
    o.push_back({"python-config-file", dir + "/c.py"});
    props += ",AperturePhotometry";
  } else { labels = {"d_1"}; jm = {jd[0]}; }
  o.push_back({"output-properties", props});
  // which images, and where they are to go
  struct File { std::string kind; int k; bool measured; };
  std::vector<std::pair<std::string, File>> want;
  static const char* DET[] = {"segmentation", "partition", "grouping", "background", "variance", "filtered", "thresholded", "snr", "auto-aperture", "aperture"};
  static const char* MEAS[] = {"measurement-background", "measurement-variance", "auto-aperture", "aperture"};
  std::string asked;
  for (auto* k : {"segmentation", "partition", "grouping", "background", "variance", "filtered", "thresholded", "snr", "auto-aperture", "aperture", "measurement-background", "measurement-variance"}) if (r.chance(4, 5)) {
    std::string n = k;
    std::replace(n.begin(), n.end(), '-', r.chance(1, 2) ? '_' : '.');   // a dot in the name is no extension
    auto base = out + "/ci_" + n;
    o.push_back({std::string("check-image-") + k, base + ".fits"});
    for (auto* d : DET) if (!std::strcmp(d, k)) for (int i = 0; i < hdus; ++i) want.push_back({base + (hdus > 1 ? "_" + num(i) : "") + ".fits", {k, i, false}});
    for (auto* d : MEAS) if (!std::strcmp(d, k)) for (size_t i = 0; i < labels.size(); ++i) want.push_back({base + "_" + labels[i] + ".fits", {k, static_cast<int>(i), true}});
  }
  std::vector<J> jr2;
  for (int x : radii) jr2.push_back(J(x));
  L.ev({{"e", "Begin"}, {"c", c}, {"d", vp::list(jd)}, {"m", vp::list(jm)}, {"multi", multi}, {"clean", clean}, {"overlap", overlap}, {"area", area}, {"radii", vp::list(jr2)}, {"python", nm > 0}, {"threads", threads}});
  L.flush();
  Euclid::Configuration::ConfigManager::anyOrder() = 1 + r.below(1000000);
  std::vector<vp::Part> parts;
  int rc = vp::program(o, parts);
  std::vector<J> rows;
  for (auto& p : parts) for (auto& row : p.rows) {
    auto i = [&](const char* c) { return J(static_cast<int>(vp::number(row, c))); };
    auto f = [&](const char* c, double s) { return vp::scaled(vp::number(row, c), s); };
    rows.push_back(J::obj({{"hdu", i("hdu_number")}, {"id", i("source_id")}, {"det", i("detection_id")}, {"grp", i("group_id")},
      {"box", vp::list({i("pixel_boundaries_min_x"), i("pixel_boundaries_min_y"), i("pixel_boundaries_max_x"), i("pixel_boundaries_max_y")})}, {"n", i("n_detected_pixels")}, {"flux", i("isophotal_flux")},
      {"x", vp::scaled(vp::number(row, "pixel_centroid_x") - 1, 100)}, {"y", vp::scaled(vp::number(row, "pixel_centroid_y") - 1, 100)},
      {"cxx", f("ellipse_cxx", 1e3)}, {"cyy", f("ellipse_cyy", 1e3)}, {"cxy", f("ellipse_cxy", 1e3)}, {"kron", f("kron_radius", 1e2)}}));
  }
  L.ev({{"e", "Rows"}, {"rc", rc}, {"rows", vp::list(rows)}});
  int there = 0;
  for (boost::filesystem::directory_iterator i(out), end; i != end; ++i) if (i->path().filename().string().substr(0, 3) == "ci_") ++there;
  int found = 0;
  for (auto& wf : want) {
    bool ok = boost::filesystem::exists(wf.first);
    found += ok;
    auto& f = wf.second;
    Plane p{0, 0, {}, {}};
    if (ok) p = vp::readFits(wf.first);
    // thresholds are halves, sigmas 1 and 3
    L.ev({{"e", "Image"}, {"kind", f.kind}, {"k", f.k + 1}, {"measured", f.measured}, {"there", ok}, {"w", p.w}, {"h", p.h}, {"at", vp::list(ok ? where(wf.first) : std::vector<J>())}, {"v", ints(p.v, f.kind == "thresholded" ? 2 : f.kind == "snr" ? 3 : 1)}});
  }
  L.ev({{"e", "Files"}, {"there", there}, {"found", found}});
}
int main(int argc, char** argv) {
  L.open(vp::arg(argc, argv, "--out", "/dev/stdout"));
  g_seed = vp::argi(argc, argv, "--seed", 1);
  int n = vp::argi(argc, argv, "--n", 10), from = vp::argi(argc, argv, "--from", 0);
  if (std::getenv("VP_VERBOSE")) Elements::Logging::hook() = [](const std::string& n, char l, const std::string& t) { std::fprintf(stderr, "%c %s: %s\n", l, n.c_str(), t.c_str()); };
  auto dir = std::string(vp::arg(argc, argv, "--out", "/tmp/checkimg")) + ".dir";
  vp::forkAll(L, dir, from, from + n, 1, vp::argi(argc, argv, "--jobs", 8), 100, child);
  boost::filesystem::remove_all(dir);
  return 0;
}

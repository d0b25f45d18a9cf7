// What is measured of the detections, through the columns of the program's catalogue.
#include "common/vpmain.h"
#include "Configuration/ConfigManager.h"
using vp::J; using vp::Rng; using vp::Plane;
static vp::Log L;
static uint64_t g_seed;
static std::string num(int v) { return std::to_string(v); }
static J ints(const std::vector<float>& v) { std::vector<J> o; for (auto x : v) o.push_back(J(static_cast<int>(x))); return vp::list(o); }
static J scaledList(const std::vector<double>& v, double s) { std::vector<J> o; for (auto x : v) o.push_back(vp::scaled(x, s)); return vp::list(o); }
static void child(int c, vp::Log& L, const std::string& dir) {
  Rng r(g_seed * 100003 + c);
  Plane d{r.range(7, 15), r.range(7, 12), {}, {}};
  d.v.assign(d.w * d.h, 0);
  if (r.chance(1, 2)) for (auto& x : d.v) x = r.below(3);
  Plane s = d;
  bool varied = r.chance(1, 2);
  for (auto& x : s.v) x = varied && r.chance(1, 5) ? 4 : 1;
  int n = r.range(1, 4);
  for (int k = 0; k < n; ++k) {
    int kind = r.below(8), bx = r.range(0, d.w - 1), by = r.range(0, d.h - 1), len = r.range(1, 4);
    auto put = [&](int x, int y, int v) { if (x >= 0 && y >= 0 && x < d.w && y < d.h) d.v[y * d.w + x] = v; };
    int flat = r.chance(1, 3) ? r.range(8, 9) : 0;
    auto val = [&] { return flat ? flat : r.range(4, 9); };
    if (kind == 0) for (int i = 0; i < len; ++i) put(bx + i, by + i, val());                 // lines, also along the diagonals
    else if (kind == 1) for (int i = 0; i < len; ++i) put(bx + i, by - i, val());
    else if (kind == 2) for (int i = 0; i < len; ++i) put(bx + i, by, val());
    else if (kind == 3) for (int i = 0; i < len; ++i) put(bx, by + i, val());
    else if (kind == 4) { put(bx, by, r.range(40, 60)); for (int i = 0; i < 2; ++i) put(bx + r.range(-1, 1), by + r.range(-1, 1), r.range(4, 5)); }   // nearly singular
    else { int bw = r.range(1, 4), bh = r.range(1, 4); for (int y = 0; y < bh; ++y) for (int x = 0; x < bw; ++x) if (r.chance(5, 6)) put(bx + x, by + y, val()); }
  }
  // world = value at the origin + step * pixel (from 0), along x and y
  auto frame = [&](Plane& p, std::vector<int>& w) {
    static const double step[] = {1, 2, -1, 0.5};
    double sx = step[r.below(4)], sy = step[r.below(4)];
    int ox = r.range(-3, 3), oy = r.range(-3, 3);
    if (sx < 0) ox += p.w;
    if (sy < 0) oy += p.h;
    // CRPIX and CRVAL share the offset
    int cx = r.range(0, 3), cy = r.range(0, 3);
    p.keys = {{"CRPIX1", double(cx + 1)}, {"CRPIX2", double(cy + 1)}, {"CRVAL1", ox + sx * cx}, {"CRVAL2", oy + sy * cy}, {"CDELT1", sx}, {"CDELT2", sy}};
    w = {2 * ox, 2 * oy, static_cast<int>(2 * sx), static_cast<int>(2 * sy)};
  };
  std::vector<int> dw;
  frame(d, dw);
  int gain = r.chance(1, 2) ? r.range(1, 4) : 0, zero = r.chance(1, 2) ? r.range(20, 30) : 0;
  vp::writeFits(dir + "/d.fits", {d});
  vp::writeFits(dir + "/s.fits", {s});
  int vw = r.range(1, 11), vh = r.range(1, 11);
  std::vector<std::pair<std::string, std::string>> o = {
    {"detection-image", dir + "/d.fits"}, {"weight-image", dir + "/s.fits"}, {"weight-type", "variance"}, {"weight-absolute", "1"}, {"background-value", "0"},
    {"detection-threshold", "3.5"}, {"detection-minimum-area", num(1)}, {"segmentation-algorithm", r.chance(1, 2) ? "LUTZ" : "BFS"},
    {"partition-multithreshold", "0"}, {"grouping-algorithm", "NONE"}, {"segmentation-use-filtering", "0"}, {"detection-image-gain", num(gain)}, {"magnitude-zero-point", num(zero)},
    {"thread-count", "0"}, {"tile-size", num(r.range(2, 9))}, {"output-catalog-filename", dir + "/out.fits"}, {"vignet-size", num(vw) + "," + num(vh)}, {"vignet-default-pixval", "-7"}};
  int nm = r.range(0, 2);
  std::vector<J> frames;
  std::string props = "SourceIDs,PixelBoundaries,NDetectedPixels,PeakValue,PixelCentroid,ShapeParameters,IsophotalFlux,SNRRatio,GroupStamp,ErrorEllipse,WorldCentroid,Vignet";
  auto desc = [&](const Plane& p, const std::vector<int>& w) { return J::obj({{"w", p.w}, {"h", p.h}, {"v", ints(p.v)}, {"at", vp::list({w[0], w[1], w[2], w[3]})}}); };
  if (nm) {
    std::string py = "from sourcextractor.config import *\n";
    for (int k = 0; k < nm; ++k) {
      Plane m{r.range(5, 14), r.range(5, 12), {}, {}};
      m.v.assign(m.w * m.h, 0);
      for (auto& x : m.v) x = r.range(0, 9);
      std::vector<int> w;
      frame(m, w);
      vp::writeFits(dir + "/m" + num(k) + ".fits", {m});
      Plane ms = m;
      for (auto& x : ms.v) x = 1;
      vp::writeFits(dir + "/ms" + num(k) + ".fits", {ms});
      py += "m" + num(k) + " = MeasurementGroup(load_fits_image('" + dir + "/m" + num(k) + ".fits', weight='" + dir + "/ms" + num(k) + ".fits', weight_type='variance', weight_absolute=True, constant_background=0.0))\n";
      frames.push_back(desc(m, w));
    }
    // apertures that hold all of the image and none of it
    py += "a = add_aperture_photometry([" + std::string(nm == 2 ? "m0, m1" : "m0") + "], [400, 800])\nadd_output_column('everything', a)\n";
    std::ofstream(dir + "/c.py") << py;
    o.push_back({"python-config-file", dir + "/c.py"});
    props += ",AperturePhotometry";
  } else frames.push_back(desc(d, dw));
  o.push_back({"output-properties", props});
  L.ev({{"e", "Begin"}, {"c", c}, {"d", desc(d, dw)}, {"s", ints(s.v)}, {"m", vp::list(frames)}, {"gain", gain}, {"zero", zero}, {"vignet", vp::list({vw, vh})}, {"python", nm > 0}});
  L.flush();
  Euclid::Configuration::ConfigManager::anyOrder() = 1 + r.below(1000000);
  std::vector<vp::Part> parts;
  int rc = vp::program(o, parts);
  std::vector<J> rows;
  for (auto& p : parts) for (auto& row : p.rows) {
    auto i = [&](const char* c) { return J(static_cast<int>(vp::number(row, c))); };
    auto f = [&](const char* c, double s) { return vp::scaled(vp::number(row, c), s); };
    if (std::getenv("VP_COLUMNS")) for (size_t k = 0; k < row.size(); ++k) std::fprintf(stderr, "%s = %s\n", row.getColumnInfo()->getDescription(k).name.c_str(), vp::text(row, k).c_str());
    double t = vp::number(row, "ellipse_theta") * M_PI / 90, te = vp::number(row, "error_ellipse_theta") * M_PI / 90;
    rows.push_back(J::obj({
      {"box", vp::list({i("pixel_boundaries_min_x"), i("pixel_boundaries_min_y"), i("pixel_boundaries_max_x"), i("pixel_boundaries_max_y")})},
      {"n", i("n_detected_pixels")}, {"peak", vp::list({i("peak_value"), i("peak_value_x"), i("peak_value_y")})},
      {"centre", vp::list({f("pixel_centroid_x", 1e4), f("pixel_centroid_y", 1e4)})},
      {"flux", i("isophotal_flux")}, {"err", f("isophotal_flux_err", 1e3)}, {"mag", f("isophotal_mag", 1e5)}, {"magerr", f("isophotal_mag_err", 1e5)}, {"snr", f("snrratio", 1e3)},
      {"a", f("ellipse_a", 1e3)}, {"b", f("ellipse_b", 1e3)}, {"theta", f("ellipse_theta", 1e3)}, {"cos", vp::scaled(std::cos(t), 1e4)}, {"sin", vp::scaled(std::sin(t), 1e4)},
      {"cxx", f("ellipse_cxx", 1e3)}, {"cyy", f("ellipse_cyy", 1e3)}, {"cxy", f("ellipse_cxy", 1e3)}, {"area", i("area")}, {"elong", f("elongation", 1e3)}, {"ellip", f("ellipticity", 1e3)},
      {"ex", f("error_centroid_x2", 1e6)}, {"ey", f("error_centroid_y2", 1e6)}, {"exy", f("error_centroid_xy", 1e6)},
      {"ea", f("error_ellipse_a", 1e4)}, {"eb", f("error_ellipse_b", 1e4)}, {"etheta", f("error_ellipse_theta", 1e3)}, {"ecos", vp::scaled(std::cos(te), 1e4)}, {"esin", vp::scaled(std::sin(te), 1e4)},
      {"world", vp::list({f("world_centroid_alpha", 1e4), f("world_centroid_delta", 1e4)})},
      {"stamp", vp::list({i("group_stamp_left"), i("group_stamp_top"), i("group_stamp_width"), i("group_stamp_height")})},
      {"vignet", scaledList(vp::numbers(row, "vignet"), 1)},
      {"all", nm ? scaledList(vp::numbers(row, "everything_flux"), 10) : vp::list({})}}));
  }
  L.ev({{"e", "Rows"}, {"rc", rc}, {"rows", vp::list(rows)}});
}
int main(int argc, char** argv) {
  L.open(vp::arg(argc, argv, "--out", "/dev/stdout"));
  g_seed = vp::argi(argc, argv, "--seed", 1);
  int n = vp::argi(argc, argv, "--n", 10), from = vp::argi(argc, argv, "--from", 0);
  if (std::getenv("VP_VERBOSE")) Elements::Logging::hook() = [](const std::string& n, char l, const std::string& t) { std::fprintf(stderr, "%c %s: %s\n", l, n.c_str(), t.c_str()); };
  auto dir = std::string(vp::arg(argc, argv, "--out", "/tmp/quant")) + ".dir";
  vp::forkAll(L, dir, from, from + n, 1, vp::argi(argc, argv, "--jobs", 8), 100, child);
  boost::filesystem::remove_all(dir);
  return 0;
}

// A catalogue of objects to associate with the detections: its configuration, the matches, the sources made of it.
#include <fstream>
#include "common/vpmain.h"
#include "common/vpconfig.h"
#include "Table/TableReader.h"
#include "SEFramework/Source/SimpleSource.h"
#include "SEFramework/FITS/FitsImageSource.h"
#include "SEFramework/CoordinateSystem/WCS.h"
#include "SEImplementation/Configuration/DetectionImageConfig.h"
#include "SEImplementation/Configuration/PartitionStepConfig.h"
#include "SEImplementation/Segmentation/SegmentationFactory.h"
#include "SEImplementation/Plugin/AssocMode/AssocMode.h"
#include "SEImplementation/Plugin/AssocMode/AssocModeConfig.h"
#include "SEImplementation/Plugin/AssocMode/AssocModeTaskFactory.h"
#include "SEImplementation/Plugin/AssocMode/AssocModePartitionStep.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfo.h"
#include "SEImplementation/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinates.h"
#include "SEImplementation/Plugin/MeasurementFrameInfo/MeasurementFrameInfo.h"
#include "SEImplementation/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangle.h"
#include "SEImplementation/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTaskNoDetect.h"
#include "SEImplementation/Plugin/PixelCentroid/PixelCentroid.h"
#include "SEImplementation/Plugin/ReferenceCoordinates/ReferenceCoordinates.h"
#include "SEImplementation/Plugin/WorldCentroid/WorldCentroid.h"
#include "SEImplementation/Property/SourceId.h"
#include "SEImplementation/Property/PixelCoordinateList.h"
#include "SEImplementation/PythonConfig/ObjectInfo.h"
using vp::J; using vp::Rng; using namespace SourceXtractor;
namespace Table = Euclid::Table;
static uint64_t g_seed;
static J ints(const std::vector<int>& v) { std::vector<J> o; for (auto x : v) o.push_back(J(x)); return vp::list(o); }
static std::string num(double v) { std::ostringstream o; o << v; return o.str(); }
static J q(double v, double s = 1000) { return vp::scaled(v, s); }
/// Numbers in quarters; the last column can be text
struct Cat { std::vector<std::string> types; std::vector<std::vector<int>> rows; };
static Table::Table table(const Cat& k) {
  std::vector<Table::ColumnDescription> d;
  for (size_t i = 0; i < k.types.size(); ++i) d.push_back({"c" + num(i), k.types[i] == "int" ? typeid(int32_t) : k.types[i] == "long" ? typeid(int64_t) : k.types[i] == "float" ? typeid(float) : k.types[i] == "double" ? typeid(double) : typeid(std::string)});
  auto info = std::make_shared<Table::ColumnInfo>(d);
  std::vector<Table::Row> rows;
  for (auto& r : k.rows) {
    std::vector<Table::Row::cell_type> v;
    for (size_t i = 0; i < r.size(); ++i) {
      auto& t = k.types[i];
      if (t == "int") v.push_back(int32_t(r[i] / 4)); else if (t == "long") v.push_back(int64_t(r[i] / 4)); else if (t == "float") v.push_back(float(r[i] / 4.)); else if (t == "double") v.push_back(r[i] / 4.); else v.push_back(std::string("x"));
    }
    rows.emplace_back(v, info);
  }
  return Table::Table(rows);
}
/// world = at + step * pixel (from 0); quarters
struct Lin { int w, h, ox, oy, sx, sy; };
static vp::Plane plane(Rng& r, Lin& l) {
  static const int step[] = {4, 8, -4, 2};
  l = {r.range(10, 20), r.range(10, 20), 4 * r.range(-3, 20), 4 * r.range(-3, 20), step[r.below(4)], step[r.below(4)]};
  vp::Plane p{l.w, l.h, std::vector<float>(l.w * l.h, 1.f), {}};
  int cx = r.range(0, 3), cy = r.range(0, 3);
  p.keys = {{"CRPIX1", double(cx + 1)}, {"CRPIX2", double(cy + 1)}, {"CRVAL1", (l.ox + l.sx * cx) / 4.}, {"CRVAL2", (l.oy + l.sy * cy) / 4.}, {"CDELT1", l.sx / 4.}, {"CDELT2", l.sy / 4.}};
  return p;
}
static J jlin(const Lin& l) { return ints({l.ox, l.oy, l.sx, l.sy}); }
static std::string anycase(Rng& r, std::string s) { int k = r.below(3); if (k) for (auto& c : s) c = k == 1 ? std::tolower(c) : (r.chance(1, 2) ? std::tolower(c) : std::toupper(c)); return s; }
static std::string join(const std::vector<int>& v) { std::string s; for (auto x : v) s += (s.empty() ? "" : ",") + num(x); return s; }
static J jvalues(const AssocMode& a, double s) { std::vector<J> v; for (auto x : a.getAssocValues()) v.push_back(q(x, s)); return vp::list(v); }
/// a magnitude as a flux
static J jfluxes(const AssocMode& a) { std::vector<J> v; for (auto x : a.getAssocValues()) v.push_back(q(std::pow(10., -.4 * x), 100)); return vp::list(v); }
struct Receiver : public PipelineReceiver<SourceInterface> {
  std::vector<std::unique_ptr<SourceInterface>> got;
  int signals = 0;
  void receiveSource(std::unique_ptr<SourceInterface> s) override { got.push_back(std::move(s)); }
  void receiveProcessSignal(const ProcessSourcesEvent&) override { ++signals; }
};
static void unit(int c, vp::Log& L, const std::string& dir) {
  Rng r(g_seed * 1000003 + c);
  static const char* MODES[] = {"FIRST", "NEAREST", "MEAN", "MAG_MEAN", "SUM", "MAG_SUM", "MIN", "MAX"};
  std::string mode = MODES[r.below(8)];
  int exts = r.chance(1, 4) ? 0 : r.range(1, 2);
  bool world = exts == 0 ? r.chance(9, 10) : r.chance(1, 2);
  std::vector<Lin> lins(exts);
  if (exts) { std::vector<vp::Plane> ps; for (auto& l : lins) ps.push_back(plane(r, l)); vp::writeFits(dir + "/d.fits", ps, r.chance(1, 2)); }
  // the catalogue
  bool large = r.chance(1, 5), few = r.chance(1, 2);
  int nc = r.range(3, 8), nr = large ? r.range(101, 240) : r.range(1, 12), side = large ? 30 : few ? 6 : 12;
  Cat k;
  std::vector<int> order(nc);
  for (int i = 0; i < nc; ++i) { order[i] = i + 1; std::swap(order[i], order[r.below(i + 1)]); }
  // roles of the columns, from 1; 0: none
  int at = 0;
  auto take = [&] { return at < nc ? order[at++] : 0; };
  int X = take(), Y = take(), W = r.chance(2, 3) ? take() : 0, G = r.chance(1, 3) ? take() : 0, S = r.chance(1, 3) ? take() : 0, HW = 0, HH = 0;
  if (r.chance(1, 4)) { HW = take(); HH = take(); if (!HH) HW = 0; }
  std::vector<int> copies;
  while (at < nc && r.chance(3, 4)) copies.push_back(take());
  if (r.chance(1, 8) && !copies.empty()) copies.push_back(copies[0]);
  if (r.chance(1, 8)) copies.push_back(X);
  bool text = r.chance(1, 25);
  for (int i = 1; i <= nc; ++i) {
    static const char* T[] = {"int", "long", "float", "double"};
    std::string t = i == X || i == Y ? (r.chance(1, 5) ? "int" : "double") : i == G ? "int" : T[r.below(4)];
    k.types.push_back(t);
  }
  if (text) k.types[r.below(nc)] = "text";
  auto isText = [&](int col) { return col >= 1 && col <= nc && k.types[col - 1] == "text"; };
  if (isText(X) || isText(Y) || isText(W) || isText(G) || isText(S) || isText(HW) || isText(HH)) { text = false; for (auto& t : k.types) if (t == "text") t = "double"; }
  bool mags = mode == "MAG_SUM";
  if (mags) for (auto& cc : copies) if (cc == X || cc == Y) cc = 0;
  copies.erase(std::remove(copies.begin(), copies.end(), 0), copies.end());
  for (int i = 0; i < nr; ++i) {
    std::vector<int> row;
    for (int col = 1; col <= nc; ++col) {
      auto& t = k.types[col - 1];
      bool whole = t == "int" || t == "long";
      int v;
      if (col == X || col == Y) v = r.range(0, 4 * side);
      else if (col == G) v = 4 * r.range(0, 4);
      else if (col == S || col == HW || col == HH) v = r.range(0, 30);
      else if (col == W) v = mode == "MAG_MEAN" ? (whole ? 20 * r.below(2) : 10 * r.below(3)) : r.range(1, few ? 8 : 16);
      else v = mags ? (whole ? 20 * r.below(2) : 10 * r.range(-1, 2)) : r.range(-40, 40);
      if (whole) v = v / 4 * 4;
      if (col == W && whole && mode != "MAG_MEAN") v = std::max(4, v);
      row.push_back(v);
    }
    k.rows.push_back(row);
  }
  std::string cat = dir + "/cat.txt";
  bool absent = r.chance(1, 10), missing = !absent && r.chance(1, 25);
  if (!missing) Table::readerTables()[cat] = std::make_shared<Table::Table>(table(k));
  // the options
  std::vector<std::string> o;
  auto opt = [&](const std::string& n, const std::string& v) { o.push_back(n); o.push_back(v); };
  opt("detection-minimum-area", "1");
  if (exts) opt("detection-image", dir + "/d.fits");
  if (!absent) opt("assoc-catalog", cat);
  int radius4 = r.chance(1, 2) ? r.range(1, 12) : r.range(4, 40);
  bool dflt = r.chance(1, 8);
  if (dflt) radius4 = 8; else opt("assoc-radius", num(radius4 / 4.));
  std::string given = mode, filter = "ALL", fgiven;
  bool badmode = r.chance(1, 30), badfilter = r.chance(1, 30);
  if (badmode) given = "MEDIAN";
  if (!(mode == "NEAREST" && !badmode && r.chance(1, 2))) opt("assoc-mode", anycase(r, given));
  if (r.chance(1, 2) || badfilter) { filter = r.chance(1, 2) ? "MATCHED" : r.chance(1, 2) ? "UNMATCHED" : "ALL"; opt("assoc-filter", badfilter ? "SOME" : anycase(r, filter)); }
  int size4 = 20;
  if (r.chance(1, 3)) { size4 = r.range(1, 30); opt("assoc-default-pixel-size", num(size4 / 4.)); }
  bool test = r.chance(1, 40);
  std::vector<J> lines;
  bool file = r.chance(1, 2), nofile = false;
  std::vector<int> columns{X, Y}; if (W) columns.push_back(W);
  std::string oddcol;
  if (file) {
    // name and column; without a column, the one after the last
    std::vector<std::pair<std::string, int>> a{{world ? "ra" : "x", X}, {world ? "dec" : "y", Y}};
    if (W) a.push_back({"weight", W});
    if (G) a.push_back({"group_id", G});
    if (S) a.push_back({"pixel_size", S});
    if (HW) { a.push_back({"pixel_half_width", HW}); a.push_back({"pixel_half_height", HH}); }
    static const char* NAMES[] = {"flux", "Mag_z", "id", "zphot", "A", "_b"};
    std::vector<std::string> names(NAMES, NAMES + 6);
    std::sort(copies.begin(), copies.end()); copies.erase(std::unique(copies.begin(), copies.end()), copies.end()); if (copies.size() > 6) copies.resize(6);
    for (size_t i = 0; i < copies.size(); ++i) { int j = r.below(names.size()); a.push_back({names[j], copies[i]}); names.erase(names.begin() + j); }
    if (r.chance(1, 15)) { if (r.chance(1, 2)) a.push_back({world ? "x" : "ra", Y}); else a[r.below(2)].first = "elsewhere"; }   // both or not enough
    if (r.chance(1, 20)) a.push_back({"far", nc + r.range(1, 3)});
    if (r.chance(1, 40)) { auto& z = a[r.below(a.size())]; if (z.first.find("pixel") != 0) z.second = 0; }
    if (r.chance(1, 2)) std::sort(a.begin(), a.end(), [](const auto& p, const auto& s) { return p.second < s.second; });
    else for (size_t i = a.size() - 1; i > 0; --i) std::swap(a[i], a[r.below(i + 1)]);
    int oddline = r.chance(1, 20) ? r.below(a.size()) : -1;
    nofile = r.chance(1, 30);
    if (!nofile) {
      std::ofstream f(dir + "/assoc.conf");
      int next = 1;
      for (size_t i = 0; i < a.size(); ++i) {
        while (r.chance(1, 5)) f << (r.chance(1, 2) ? "# x = 9" : r.chance(1, 2) ? "" : "   ") << "\n";
        auto name = a[i].first;
        bool known = name == "x" || name == "y" || name == "ra" || name == "dec" || name == "weight" || name.find("pixel") == 0 || name == "group_id";
        auto written = known ? anycase(r, name) : name;
        if (r.chance(1, 5)) f << "  ";
        bool bare = a[i].second == next && static_cast<int>(i) != oddline && r.chance(3, 4);
        if (bare) f << written << (r.chance(1, 4) ? "  " : ""); else {
          f << written << (r.chance(1, 2) ? " = " : "=");
          if (static_cast<int>(i) == oddline) f << (r.chance(1, 2) ? "" : r.chance(1, 2) ? "two" : "c1"); else f << a[i].second;
        }
        f << (r.chance(1, 8) ? "\r\n" : "\n");
        lines.push_back(J::obj({{"name", name}, {"col", ints(bare ? std::vector<int>{} : std::vector<int>{a[i].second})}, {"odd", static_cast<int>(i) == oddline}}));
        next = a[i].second + 1;
      }
    }
    opt("assoc-config", dir + "/assoc.conf");
    if (r.chance(1, 4)) opt("assoc-columns", "2,3");    // not read then
    if (r.chance(1, 4)) opt("assoc-group-id", "1");
  } else {
    if (r.chance(1, 25)) columns.pop_back();
    if (r.chance(1, 25)) { while (columns.size() < 3) columns.push_back(1); columns.push_back(1); }
    if (r.chance(1, 30)) columns[r.below(columns.size())] = r.chance(1, 2) ? 0 : nc + r.range(1, 3);
    if (r.chance(1, 30) && !copies.empty()) copies[r.below(copies.size())] = r.chance(1, 2) ? 0 : nc + r.range(1, 3);
    if (r.chance(1, 30)) oddcol = r.chance(1, 2) ? "columns" : "copy";
    if (!(columns == std::vector<int>{1, 2}) || oddcol == "columns" || r.chance(1, 2)) opt("assoc-columns", join(columns) + (oddcol == "columns" ? ",y" : ""));
    if (!copies.empty() || oddcol == "copy") opt("assoc-copy", join(copies) + (oddcol == "copy" ? (copies.empty() ? "c1" : ",") : ""));
    if (S) opt("assoc-source-sizes", num(S));
    if (HW) { opt("assoc-source-half-widths", num(HW)); opt("assoc-source-half-heights", num(HH)); }
    if (G) opt("assoc-group-id", num(G));
    if (r.chance(1, 30)) { opt("assoc-coord-type", "SKY"); oddcol = "type"; }
    else if (world || r.chance(1, 2)) opt("assoc-coord-type", anycase(r, world ? "WORLD" : "PIXEL"));
  }
  bool segment = !exts;
  if (segment) opt("segmentation-algorithm", "ASSOC");
  if (test) opt("assoc-test", "");
  std::vector<J> jt, jr, jl;
  for (auto& t : k.types) jt.push_back(t);
  for (auto& row : k.rows) jr.push_back(ints(row));
  for (auto& l : lins) jl.push_back(jlin(l));
  L.ev({{"e", "Begin"}, {"types", vp::list(jt)}, {"rows", vp::list(jr)}, {"exts", vp::list(jl)}, {"mode", badmode ? "?" : mode}, {"filter", badfilter ? "?" : filter}, {"radius", radius4}, {"size", size4},
        {"cat", !absent}, {"there", !missing}, {"test", test}, {"file", file}, {"nofile", nofile}, {"lines", vp::list(lines)},
        {"world", world}, {"columns", ints(columns)}, {"copy", ints(copies)}, {"odd", oddcol}, {"S", S}, {"HW", HW}, {"HH", HH}, {"G", G}});
  // the configuration, with what depends on it
  struct Both { AssocModeTaskFactory task; SegmentationFactory seg{nullptr}; bool withSeg;
    void reportConfigDependencies(Euclid::Configuration::ConfigManager& cm) { task.reportConfigDependencies(cm); cm.registerConfiguration<PartitionStepConfig>(); cm.registerConfiguration<AssocModeConfig>(); if (withSeg) seg.reportConfigDependencies(cm); }
    void configure(Euclid::Configuration::ConfigManager& cm) { task.configure(cm); if (withSeg) seg.configure(cm); } } both;
  both.withSeg = segment;
  Euclid::Configuration::ConfigManager* cmp = nullptr;
  try { cmp = &vp::configure(both, o); }
  catch (const std::exception& e) { L.ev({{"e", "Refused"}, {"why", std::string(e.what()).substr(0, 100)}}); return; }
  auto& cm = *cmp;
  auto& conf = cm.getConfiguration<AssocModeConfig>();
  static const std::map<AssocModeConfig::AssocMode, std::string> back{{AssocModeConfig::AssocMode::FIRST, "FIRST"}, {AssocModeConfig::AssocMode::NEAREST, "NEAREST"}, {AssocModeConfig::AssocMode::MIN, "MIN"}, {AssocModeConfig::AssocMode::MAX, "MAX"},
      {AssocModeConfig::AssocMode::MEAN, "MEAN"}, {AssocModeConfig::AssocMode::MAG_MEAN, "MAG_MEAN"}, {AssocModeConfig::AssocMode::SUM, "SUM"}, {AssocModeConfig::AssocMode::MAG_SUM, "MAG_SUM"}, {AssocModeConfig::AssocMode::UNKNOWN, "?"}};
  std::vector<J> idx, names, cats;
  for (auto i : conf.getColumnsIdx()) idx.push_back(i + 1);
  for (auto& s : conf.getColumnsNames()) names.push_back(s);
  for (auto& kk : conf.getCatalogs()) {
    std::vector<J> es;
    for (auto& e : kk) {
      std::vector<J> v; for (auto x : e.assoc_columns) v.push_back(q(x));
      es.push_back(J::obj({{"x", exts ? q(e.coord.m_x) : J(0)}, {"y", exts ? q(e.coord.m_y) : J(0)}, {"ra", q(e.world_coord.m_alpha)}, {"dec", q(e.world_coord.m_delta)}, {"wt", q(e.weight)}, {"v", vp::list(v)}, {"w", q(e.source_pixel_width)}, {"h", q(e.source_pixel_height)}, {"g", static_cast<int>(e.group_id)}}));
    }
    cats.push_back(vp::list(es));
  }
  L.ev({{"e", "Loaded"}, {"mode", back.at(conf.getAssocMode())}, {"radius", q(conf.getAssocRadius())}, {"idx", vp::list(idx)}, {"names", vp::list(names)}, {"cats", vp::list(cats)}});
  // sources of the detection image
  auto steps = cm.getConfiguration<PartitionStepConfig>().getSteps(nullptr);
  auto task = std::dynamic_pointer_cast<SourceTask>(both.task.createTask(PropertyId::create<AssocMode>()));
  std::vector<std::shared_ptr<CoordinateSystem>> cs;
  for (int i = 0; i < exts; ++i) cs.push_back(cm.getConfiguration<DetectionImageConfig>().getCoordinateSystem(i));
  for (int e = 0; e < exts; ++e) for (int i = 0; i < 6; ++i) {
    auto s = std::make_unique<SimpleSource>();
    int x, y;
    if (r.chance(2, 3) && !conf.getCatalogs().empty() && vp::finite(conf.getCatalogs()[e][0].coord.m_x)) {
      auto& en = conf.getCatalogs()[e][r.below(conf.getCatalogs()[e].size())];
      x = std::lround(en.coord.m_x * 4) + r.range(-radius4, radius4); y = std::lround(en.coord.m_y * 4) + r.range(-radius4, radius4);
    } else { x = r.range(-8, 4 * side); y = r.range(-8, 4 * side); }
    s->setProperty<PixelCoordinateList>(std::vector<PixelCoordinate>{{0, 0}});
    s->setProperty<SourceId>();
    s->setProperty<PixelCentroid>(x / 4., y / 4.);
    s->setProperty<DetectionFrameInfo>(20, 20, 1., 1e6, 1e6, 1., std::map<std::string, MetadataEntry>(), static_cast<size_t>(e));
    auto wc = cs[e]->imageToWorld({x / 4., y / 4.});
    s->setProperty<WorldCentroid>(wc.m_alpha, wc.m_delta);
    s->setProperty<ReferenceCoordinates>(cs[0]);
    task->computeProperties(*s);
    auto a = s->getProperty<AssocMode>();
    ObjectInfo info(*s, conf);
    auto has = [&](const std::string& n) { return info.find(n) != info.end(); };
    auto val = [&](const std::string& n) { return boost::get<double>(info.at(n)); };
    std::vector<J> iv, in;
    for (int j = 0; has("assoc_value_" + num(j)); ++j) iv.push_back(q(val("assoc_value_" + num(j))));
    for (auto& n : conf.getColumnsNames()) if (has("assoc_" + n)) in.push_back(q(val("assoc_" + n)));
    J ji = J::obj({{"match", boost::get<bool>(info.at("assoc_match"))}, {"n", has("assoc_size") ? q(val("assoc_size"), 1) : J(-1)}, {"v", vp::list(iv)}, {"named", vp::list(in)}});
    bool match = a.getMatch();
    // through the steps of the partition
    std::vector<std::unique_ptr<SourceInterface>> now; now.push_back(std::move(s));
    for (auto& st : steps) if (dynamic_cast<AssocModePartitionStep*>(st.get())) { std::vector<std::unique_ptr<SourceInterface>> nx; for (auto& p : now) for (auto& m : st->partition(std::move(p))) nx.push_back(std::move(m)); now = std::move(nx); }
    L.ev({{"e", "Source"}, {"ext", e + 1}, {"x", x}, {"y", y}, {"match", match}, {"v", jvalues(a, 1000)}, {"flux", mags ? jfluxes(a) : J::raw("[]")}, {"g", static_cast<int>(a.getGroupId())}, {"w", q(a.getRefFramePixelWidth())}, {"h", q(a.getRefFramePixelHeight())},
          {"info", ji}, {"kept", static_cast<int>(now.size())}});
  }
  if (!segment || conf.getCatalogs().empty()) return;
  // without a detection image: sources of the catalogue, where the images have them
  auto seg = both.seg.createSegmentation();
  Receiver rc_;
  auto rcv = std::make_shared<Receiver>();
  seg->setNextStage(rcv);
  seg->processFrame(nullptr);
  std::vector<J> out;
  std::vector<unsigned> ids;
  Lin l; auto p = plane(r, l); vp::writeFits(dir + "/m.fits", {p});
  auto mcs = std::make_shared<WCS>(FitsImageSource(dir + "/m.fits", 0, ImageTile::FloatImage));
  for (auto& s : rcv->got) {
    auto& w = s->getProperty<WorldCentroid>(); auto& a = s->getProperty<AssocMode>();
    ids.push_back(s->getProperty<SourceId>().getSourceId());
    auto c2 = w.getCentroid();
    s->setIndexedProperty<MeasurementFrameCoordinates>(0, mcs);
    s->setIndexedProperty<MeasurementFrameInfo>(0, l.w, l.h, 1., 1e6, 1e6, 1.);
    MeasurementFrameRectangleTaskNoDetect(0).computeProperties(*s);
    auto& rect = s->getProperty<MeasurementFrameRectangle>(0);
    bool any = rect.getWidth() > 0;
    out.push_back(J::obj({{"ra", q(c2.m_alpha)}, {"dec", q(c2.m_delta)}, {"match", a.getMatch()}, {"v", jvalues(a, 1000)}, {"w", q(a.getRefFramePixelWidth())}, {"h", q(a.getRefFramePixelHeight())}, {"g", static_cast<int>(a.getGroupId())},
        {"rect", any ? ints({rect.getTopLeft().m_x, rect.getTopLeft().m_y, rect.getBottomRight().m_x, rect.getBottomRight().m_y}) : ints({})}, {"bad", rect.badProjection()}}));
  }
  std::sort(ids.begin(), ids.end());
  L.ev({{"e", "Sources"}, {"frame", ints({l.w, l.h, l.ox, l.oy, l.sx, l.sy})}, {"list", vp::list(out)}, {"unique", std::adjacent_find(ids.begin(), ids.end()) == ids.end()}, {"signals", rcv->signals}});
}
int main(int argc, char** argv) {
  vp::Log L;
  L.open(vp::arg(argc, argv, "--out", "/dev/stdout"));
  g_seed = vp::argi(argc, argv, "--seed", 1);
  int n = vp::argi(argc, argv, "--n", 10), from = vp::argi(argc, argv, "--from", 0);
  if (std::getenv("VP_VERBOSE")) Elements::Logging::hook() = [](const std::string& n, char l, const std::string& t) { std::fprintf(stderr, "%c %s: %s\n", l, n.c_str(), t.c_str()); };
  auto dir = std::string(vp::arg(argc, argv, "--out", "/tmp/assoc")) + ".dir";
  vp::forkAll(L, dir, from, from + n, 1, vp::argi(argc, argv, "--jobs", 8), 60, unit);
  boost::filesystem::remove_all(dir);
  return 0;
}

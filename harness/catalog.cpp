// The catalogue: registered columns, the requested properties, the buffered rows, the parts of the file.
#include <iostream>
#include "vplog.h"
#include "vpsources.h"
#include "vpconfig.h"
#include "Table/Table.h"
#include "ElementsKernel/Exception.h"
#include "SEFramework/Source/SimpleSourceGroup.h"
#include "SEFramework/Output/OutputRegistry.h"
#include "SEImplementation/Output/OutputFactory.h"
#include "SEImplementation/Plugin/DetectionFrameInfo/DetectionFrameInfo.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
template <int K> struct FP : public Property { int v; explicit FP(int x) : v(x) {} };
using S = std::vector<std::string>;
static J strs(const S& v) { std::string s = "["; for (auto& x : v) { if (s.size() > 1) s += ","; s += J(x).s; } return J::raw(s + "]"); }
static J raws(const S& v) { std::string s = "["; for (auto& x : v) { if (s.size() > 1) s += ","; s += x; } return J::raw(s + "]"); }
struct Num : public boost::static_visitor<long> {
  long operator()(bool b) const { return b; }
  long operator()(int32_t v) const { return v; }
  long operator()(int64_t v) const { return v; }
  long operator()(float v) const { return std::lround(v); }
  long operator()(double v) const { return std::lround(v); }
  long operator()(const std::string& s) const { return std::atol(s.c_str()); }
  template <typename T> long operator()(const std::vector<T>& v) const { return v.size() == 2 && v[1] == v[0] + 1 ? (long)v[0] : -1; }
  template <typename T> long operator()(const Euclid::NdArray::NdArray<T>&) const { return -2; }
};
static const std::map<std::type_index, std::string> TYPES{{typeid(int32_t), "int"}, {typeid(int64_t), "long"}, {typeid(float), "float"}, {typeid(double), "double"}, {typeid(std::vector<int64_t>), "longs"}, {typeid(std::vector<float>), "floats"}, {typeid(std::string), "string"}};
static const std::map<std::string, int> WHICH{{"int", 1}, {"long", 2}, {"float", 3}, {"double", 4}, {"string", 5}, {"longs", 8}, {"floats", 9}};
static std::string rtrim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static std::vector<std::string> g_writes;
static std::string card(const std::string& c) {
  if (c.substr(0, 3) == "END") return J::obj({{"k", "END"}, {"v", rtrim(c)}}).s;
  if (c.substr(0, 8) == "HISTORY ") return J::obj({{"k", "HISTORY"}, {"v", ""}}).s;
  std::string k = rtrim(c.substr(0, 8)), v = c.substr(10); 
  if (c.substr(8, 2) != "= ") return J::obj({{"k", "bad"}, {"v", c}}).s;
  std::string value, comment;
  if (v[0] == '\'') {
    size_t i = 1; for (; i < v.size(); ++i) { if (v[i] == '\'') { if (i + 1 < v.size() && v[i + 1] == '\'') { value += '\''; ++i; } else break; } else value += v[i]; }
    v = v.substr(i + 1);
  } else { auto p = v.find('/'); value = std::to_string((long)std::lround(100 * std::atof(v.substr(0, p).c_str()))); v = p == std::string::npos ? "" : v.substr(p); }
  auto p = v.find('/'); comment = p == std::string::npos ? "none" : rtrim(v.substr(p + 1)); if (!comment.empty() && comment[0] == ' ') comment = comment.substr(1);
  return J::obj({{"k", k}, {"v", value}, {"c", comment}}).s;
}
static void onWrite(const Euclid::Table::WriterEvent& w) {
  S rows, cols; std::vector<std::string> cards; bool head = w.hdu.find("IMHEAD") != std::string::npos; bool whole = true;
  for (auto& r : *w.table) {
    std::vector<long> cells;
    if (head) { auto& h = boost::get<std::string>(r[(size_t)0]); whole = whole && h.size() % 80 == 0; for (size_t i = 0; i + 80 <= h.size(); i += 80) cards.push_back(card(h.substr(i, 80))); }
    else for (size_t i = 0; i < r.size(); ++i) { long v = boost::apply_visitor(Num(), r[i]); auto t = TYPES.find(r.getColumnInfo()->getDescription(i).type); if (t == TYPES.end() || WHICH.at(t->second) != (int)r[i].which() - (r[i].which() > 5 ? 0 : 0)) v = -3; cells.push_back(v); }
    rows.push_back(J(cells).s);
    if (!(*r.getColumnInfo() == *w.table->getColumnInfo())) whole = false;
  }
  auto ci = w.table->getColumnInfo();
  for (size_t i = 0; i < ci->size() && !head; ++i) { auto& d = ci->getDescription(i); auto t = TYPES.find(d.type); cols.push_back(strs({d.name, t == TYPES.end() ? "?" : t->second, d.unit, d.description}).s); }
  g_writes.push_back(J::obj({{"file", w.file.empty() ? "" : w.file == "-" ? "-" : "out"}, {"h", w.hdu}, {"create", w.create}, {"rows", raws(head ? S{} : rows)}, {"cols", raws(cols)}, {"cards", raws(cards)}, {"whole", whole}}).s);
}
static J writes() { J j = raws(g_writes); g_writes.clear(); return j; }
static int g_v(const SourceInterface& s, int) { return tagOf(s); }
template <int K> struct Reg {
  static void col(OutputRegistry& o, int c, const std::string& name, int type, const std::string& unit, const std::string& desc) {
    auto val = [c](const FP<K>& p) { return p.v * 100 + K * 10 + c; };
    switch (type) {
      case 0: o.registerColumnConverter<FP<K>, int>(name, val, unit, desc); break;
      case 1: o.registerColumnConverter<FP<K>, int64_t>(name, val, unit, desc); break;
      case 2: o.registerColumnConverter<FP<K>, float>(name, val, unit, desc); break;
      case 3: o.registerColumnConverter<FP<K>, double>(name, val, unit, desc); break;
      case 4: o.registerColumnConverter<FP<K>, std::vector<int64_t>>(name, [val](const FP<K>& p) { return std::vector<int64_t>{val(p), val(p) + 1}; }, unit, desc); break;
      default: o.registerColumnConverter<FP<K>, std::vector<float>>(name, [val](const FP<K>& p) { return std::vector<float>{(float)val(p), (float)val(p) + 1}; }, unit, desc); break;
    }
  }
  static void inst(OutputRegistry& o, const std::vector<std::pair<std::string, unsigned>>& l) { o.registerPropertyInstances<FP<K>>(l); }
  static void instNamed(OutputRegistry& o, const std::string& n, const std::vector<std::pair<std::string, unsigned>>& l) { o.registerPropertyInstances<FP<K>>(n, l); }
  static void enable(OutputRegistry& o, const std::string& a, bool c) { o.enableOutput<FP<K>>(a, c); }
};
#define ON(k, call) (k == 0 ? Reg<0>::call : k == 1 ? Reg<1>::call : k == 2 ? Reg<2>::call : Reg<3>::call)
static std::unique_ptr<Property> make(FakeSource& s, const PropertyId& id) {
  int i = id.getIndex(), v = tagOf(s) * 10 + i;
  if (id == PropertyId::create<FP<0>>(i)) return std::unique_ptr<Property>(new FP<0>(v));
  if (id == PropertyId::create<FP<1>>(i)) return std::unique_ptr<Property>(new FP<1>(v));
  if (id == PropertyId::create<FP<2>>(i)) return std::unique_ptr<Property>(new FP<2>(v));
  if (id == PropertyId::create<FP<3>>(i)) return std::unique_ptr<Property>(new FP<3>(v));
  return nullptr;
}
static const char* TN[] = {"int", "long", "float", "double", "longs", "floats"};
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1); std::string file = arg(argc, argv, "--out") + ".cat";
  Euclid::Table::writerHook() = onWrite;
  for (long i = 0; i < n; ++i) {
    Rng r((first + i) * 6364136223846793005ull + 31);
    int fmt = r.below(3), fs = r.chance(1, 6) ? r.range(-3, 0) : r.range(1, 5); bool named = fmt > 0 || r.chance(1, 2);
    L.ev({{"e", "Begin"}, {"seed", first + i}, {"fmt", fmt}, {"flush", fs}, {"named", named}});
    auto reg = std::make_shared<OutputRegistry>(); int nc[4] = {0, 0, 0, 0}; std::vector<S> names(4); int uniq = 0;
    std::vector<int> order; for (int k = 0; k < 4; ++k) { int m = r.range(0, 3); for (int q = 0; q < m; ++q) order.push_back(k); }
    for (int q = order.size(); q > 1; --q) std::swap(order[q - 1], order[r.below(q)]);
    for (int k : order) {
      int c = nc[k]++, t = r.below(6); std::string name = "p" + std::to_string(k) + "c" + std::to_string(c), unit = r.chance(1, 2) ? "u" + std::to_string(r.below(3)) : "", desc = r.chance(1, 2) ? "d" + std::to_string(r.below(9)) : "";
      ON(k, col(*reg, c, name, t, unit, desc)); names[k].push_back(name);
      L.ev({{"e", "Col"}, {"p", k + 1}, {"c", c}, {"name", name}, {"t", TN[t]}, {"unit", unit}, {"desc", desc}});
    }
    std::vector<std::pair<std::string, int>> al;
    for (int k = 0; k < 4; ++k) {
      if (r.chance(1, 8)) continue;
      std::string a = r.chance(1, 4) ? "shared" : "A" + std::to_string(k); bool conf = r.chance(1, 3), refused = false;
      try { ON(k, enable(*reg, a, conf)); } catch (Elements::Exception&) { refused = true; }
      if (!refused) al.push_back({a, k});
      L.ev({{"e", "Enable"}, {"p", k + 1}, {"alias", a}, {"conf", conf}, {"refused", refused}});
    }
    { auto s = reg->getOutputPropertyNames(); L.ev({{"e", "Names"}, {"names", strs(S(s.begin(), s.end()))}}); }
    for (int k = 0; k < 4; ++k) {
      if (r.chance(1, 3)) {
        std::vector<std::pair<std::string, unsigned>> l; S ns; std::vector<int> ix; int m = r.range(0, 3);
        for (int q = 0; q < m; ++q) { std::string s = "i" + std::to_string(uniq++); int x = r.below(5); l.push_back({s, x}); ns.push_back(s); ix.push_back(x); }
        if (!names[k].empty()) {
          ON(k, inst(*reg, l)); S nn; for (auto& b : names[k]) for (auto& s : ns) nn.push_back(b + "_" + s); names[k] = nn;
          L.ev({{"e", "Inst"}, {"p", k + 1}, {"post", strs(ns)}, {"ix", ix}});
        }
      }
      while (!names[k].empty() && r.chance(1, 4)) {
        auto nm = names[k][r.below(names[k].size())]; std::vector<std::pair<std::string, unsigned>> l; S ns; std::vector<int> ix; int m = r.range(0, 3);
        for (int q = 0; q < m; ++q) { std::string s = q == 0 && r.chance(1, 3) ? nm : "n" + std::to_string(uniq++); int x = r.below(5); l.push_back({s, x}); ns.push_back(s); ix.push_back(x); }
        ON(k, instNamed(*reg, nm, l)); names[k].erase(std::find(names[k].begin(), names[k].end(), nm)); names[k].insert(names[k].end(), ns.begin(), ns.end());
        L.ev({{"e", "InstNamed"}, {"p", k + 1}, {"name", nm}, {"names", strs(ns)}, {"ix", ix}});
      }
    }
    S want; std::string list; int m = r.range(1, 4);
    for (int q = 0; q < m; ++q) { std::string a = al.empty() || r.chance(1, 25) ? "Nobody" : al[r.below(al.size())].first; want.push_back(a); list += (q ? "," : "") + a; }
    const char* fn[] = {"ASCII", "FITS", "FITS_LDAC"}; std::string f = fn[fmt]; bool badf = r.chance(1, 20); if (badf) f = "TABLE"; else if (r.chance(1, 3)) for (auto& ch : f) ch = std::tolower(ch);
    std::shared_ptr<Output> out; std::string refused = "no"; bool configured = false;
    std::vector<std::string> opts{"output-catalog-format", f, "output-properties", list};
    if (named) { opts.push_back("output-catalog-filename"); opts.push_back(file); }
    // a negative value cannot be given as a separate word
    std::vector<std::string> o2 = opts; o2.push_back("output-flush-size=" + std::to_string(fs)); o2.push_back("");
    OutputFactory fac(reg); 
    try { vp::configure(fac, o2); configured = true; out = fac.createOutput(); } catch (std::exception&) { refused = configured ? "property" : "format"; }
    L.ev({{"e", "Create"}, {"want", strs(want)}, {"bad", badf}, {"refused", refused}});
    if (out) {
      int tag = 0; bool more = true;
      for (int part = 0, np = r.range(1, 4); part < np && more; ++part) {
        int meta = r.below(4); std::map<std::string, MetadataEntry> md; std::vector<std::string> mj;
        double gain = r.range(0, 400) / 4., rms = r.range(0, 800) / 8.;
        for (int q = 0; q < meta; ++q) {
          std::string k = "KEY" + std::to_string(r.below(9)); if (md.count(k)) continue; MetadataEntry e; std::string v, cm = r.chance(1, 2) ? std::string("about ") + std::to_string(r.below(99)) : r.chance(1, 6) ? std::string(90, 'x') : ""; bool str = r.chance(1, 2);
          if (str) { v = r.chance(1, 3) ? "it's" : "v" + std::to_string(r.below(1000)); e.m_value = v; } else { long x = r.range(-9999, 9999); v = std::to_string(x * 100); if (r.chance(1, 2)) e.m_value = (double)x; else e.m_value = (int64_t)x; }
          if (!cm.empty() || r.chance(1, 2)) e.m_extra["comment"] = cm;
          md[k] = e;
          mj.push_back(J::obj({{"k", k}, {"v", v}, {"c", cm.size() > 80 ? "x" : cm}}).s);
        }
        std::sort(mj.begin(), mj.end());
        L.ev({{"e", "Frame"}, {"gain", (long)std::lround(100 * gain)}, {"rms", (long)std::lround(100 * rms)}, {"meta", raws(mj)}});
        int ng = r.chance(1, 3) ? 0 : r.range(1, 5);
        for (int g = 0; g < ng && more; ++g) {
          auto grp = std::unique_ptr<SimpleSourceGroup>(new SimpleSourceGroup); std::vector<int> tags;
          for (int s = 0, ns = r.range(0, 4); s < ns; ++s) {
            std::unique_ptr<SourceInterface> src(new FakeSource(++tag, make)); src->setProperty<DetectionFrameInfo>(10, 10, gain, 1e5, 0., rms, md); tags.push_back(tag); grp->addSource(std::move(src));
          }
          bool threw = false;
          try { if (r.chance(1, 8)) { for (auto& s : *grp) out->outputSource(s); } else out->receiveSource(std::move(grp)); } catch (Elements::Exception&) { threw = true; more = false; }
          L.ev({{"e", "Output"}, {"tags", tags}, {"threw", threw}, {"writes", writes()}});
        }
        if (!more) break;
        out->receiveProcessSignal(ProcessSourcesEvent{nullptr});
        while (r.chance(1, 5)) { long t = out->flush(); L.ev({{"e", "Flush"}, {"total", t}, {"writes", writes()}}); }
        long t = out->flush(); L.ev({{"e", "Flush"}, {"total", t}, {"writes", writes()}});
        out->nextPart(); L.ev({{"e", "Next"}, {"writes", writes()}});
      }
    }
    L.ev({{"e", "End"}}); L.flush();
  }
  return 0;
}

// Histories over FITS files: files written with cfitsio, then opened, read, appended to and annotated through the real
// FitsImageSource / FitsFile / FitsWriter; at the end the file is read back with cfitsio.
#include <cmath>
#include <fstream>
#include <set>
#include <fitsio.h>
#include <boost/filesystem.hpp>
#include "common/vplog.h"
#include "SEFramework/FITS/FitsImageSource.h"
#include "SEFramework/FITS/FitsFile.h"
#include "SEFramework/FITS/FitsReader.h"
#include "SEFramework/FITS/FitsWriter.h"
#include "SEFramework/Image/VectorImage.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/TileManager.h"
using namespace SourceXtractor;
using vp::J; using vp::Rng;
static vp::Log L;
static std::string g_dir;
static const char* TYPES[] = {"float", "double", "int", "uint", "long"};
static const int BITPIX_OF[] = {FLOAT_IMG, DOUBLE_IMG, LONG_IMG, ULONG_IMG, LONGLONG_IMG};
static std::string arr(const std::vector<J>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i].s; } return s + "]"; }
static int wrap(double v) { return static_cast<int32_t>(static_cast<uint32_t>(static_cast<int64_t>(std::llround(v)))); }
static std::string rtrim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static bool ours(const std::string& k) { return k.compare(0, 2, "VP") == 0 || k == "ENDTIME"; }
struct Card { std::string k; char t; std::string s; long i; double d; };
static J jval(const std::string& k, char t, const std::string& v) { return J::obj({{"k", k}, {"t", std::string(1, t)}, {"v", v}}); }
static std::string dstr(double d) { char b[40]; std::snprintf(b, sizeof b, "%.15g", d); return b; }
static J jcard(const Card& c) {
  switch (c.t) { case 'i': return jval(c.k, 'i', std::to_string(c.i)); case 'd': return jval(c.k, 'd', dstr(c.d)); case 'c': return jval(c.k, 'c', c.i ? "T" : "F"); default: return jval(c.k, 's', rtrim(c.s)); }
}
static std::string sstring(Rng& r) {
  static const std::vector<std::string> S = {"ab", "g/r", "a = b", "it's", "12", "1.5", "x", "", "T", "http://a.b/c?d=1", "m/s / x", "a long string with several words in it", "'q'", "-3e5", "END", "/", "J/A+A/1"};
  return S[r.below(S.size())];
}
static Card mkcard(Rng& r, const std::string& k) {
  Card c{k, "idsc"[r.below(4)], "", 0, 0};
  c.i = c.t == 'c' ? r.below(2) : (r.chance(1, 6) ? 1234567890123L : r.range(-5, 3000));
  static const double D[] = {1.5, -0.25, 2., 1e20, -3.125e-7, 1000000., 0., 42.};
  c.d = D[r.below(8)];
  c.s = sstring(r);
  return c;
}
struct Hdu { std::string kind; int type, w, h, d; bool packed; std::vector<std::vector<int64_t>> pix; std::vector<Card> cards; };
static bool image(const Hdu& h) { return h.kind == "image"; }
static J jpix(const std::vector<int64_t>& p) { std::vector<J> v; for (auto x : p) v.push_back(wrap(static_cast<double>(x))); return J::raw(arr(v)); }
static J jhdu(const Hdu& h) {
  std::vector<J> cards, planes;
  for (auto& c : h.cards) cards.push_back(jcard(c));
  for (auto& p : h.pix) planes.push_back(jpix(p));
  return J::obj({{"kind", h.kind}, {"type", image(h) ? TYPES[h.type] : "none"}, {"w", h.w}, {"h", h.h}, {"d", h.d}, {"pix", J::raw(arr(planes))}, {"cards", J::raw(arr(cards))}});
}
static void die(const char* what, int status) { if (status) { char m[40]; fits_get_errstatus(status, m); std::fprintf(stderr, "%s: %s\n", what, m); std::exit(2); } }
static void writeRaw(const std::string& path, std::vector<Hdu>& hdus) {
  int st = 0; fitsfile* f = nullptr;
  fits_create_file(&f, path.c_str(), &st); die("create", st);
  for (auto& h : hdus) {
    if (h.kind == "table") {
      char* tt[] = {const_cast<char*>("A")}; char* tf[] = {const_cast<char*>("1J")};
      fits_create_tbl(f, BINARY_TBL, 3, 1, tt, tf, nullptr, nullptr, &st);
    } else if (h.kind == "empty") {
      fits_create_img(f, BYTE_IMG, 0, nullptr, &st);
    } else if (h.kind == "line") {
      long n[1] = {4}; fits_create_img(f, LONG_IMG, 1, n, &st);
    } else {
      if (h.packed) fits_set_compression_type(f, RICE_1, &st);
      long n[3] = {h.w, h.h, h.d};
      fits_create_img(f, BITPIX_OF[h.type], h.d > 0 ? 3 : 2, n, &st);
      for (size_t p = 0; p < h.pix.size(); ++p) {
        long first[3] = {1, 1, static_cast<long>(p) + 1};
        if (h.packed) { std::vector<int> v(h.pix[p].begin(), h.pix[p].end()); fits_write_pix(f, TINT, first, v.size(), v.data(), &st); }
        else fits_write_pix(f, TLONGLONG, first, h.pix[p].size(), h.pix[p].data(), &st);
      }
      fits_set_compression_type(f, 0, &st);
    }
    die("write hdu", st);
    for (auto& c : h.cards) {
      if (c.t == 'i') fits_update_key(f, TLONG, c.k.c_str(), &c.i, "an integer", &st);
      else if (c.t == 'd') fits_update_key(f, TDOUBLE, c.k.c_str(), &c.d, "a / real", &st);
      else if (c.t == 'c') { int b = c.i; fits_update_key(f, TLOGICAL, c.k.c_str(), &b, nullptr, &st); }
      else fits_update_key(f, TSTRING, c.k.c_str(), const_cast<char*>(c.s.c_str()), "it's 'text' = / x", &st);
      die("card", st);
    }
  }
  fits_close_file(f, &st); die("close", st);
}
static J readRaw(const std::string& path) {
  int st = 0, n = 0; fitsfile* f = nullptr;
  fits_open_diskfile(&f, path.c_str(), READONLY, &st); die("reopen", st);
  fits_get_num_hdus(f, &n, &st);
  std::vector<J> out;
  for (int i = 1; i <= n; ++i) {
    int type = 0, naxis = 0, bp = 0; long nax[3] = {0, 0, 0};
    fits_movabs_hdu(f, i, &type, &st); die("move", st);
    Hdu h{"table", 0, 0, 0, 0, false, {}, {}};
    if (type == IMAGE_HDU) {
      fits_get_img_equivtype(f, &bp, &st); fits_get_img_dim(f, &naxis, &st); fits_get_img_size(f, 3, nax, &st);
      h.kind = naxis == 0 ? "empty" : naxis == 1 ? "line" : "image";
      if (naxis >= 2) {
        h.w = nax[0]; h.h = nax[1]; h.d = naxis == 3 ? nax[2] : 0;
        for (int t = 0; t < 5; ++t) if (BITPIX_OF[t] == bp) h.type = t;
        for (int p = 0; p < (naxis == 3 ? nax[2] : 1); ++p) {
          std::vector<int64_t> px(nax[0] * nax[1]); long first[3] = {1, 1, p + 1}; int any = 0;
          if (fits_is_compressed_image(f, &st)) { std::vector<int> v(px.size()); fits_read_pix(f, TINT, first, v.size(), nullptr, v.data(), &any, &st); px.assign(v.begin(), v.end()); }
          else fits_read_pix(f, TLONGLONG, first, px.size(), nullptr, px.data(), &any, &st);
          die("pixels", st);
          h.pix.push_back(px);
        }
      }
    }
    std::vector<J> cards, planes;
    int nk = 0, more = 0; fits_get_hdrspace(f, &nk, &more, &st);
    for (int k = 1; k <= nk; ++k) {
      char name[81], val[81], com[81];
      fits_read_keyn(f, k, name, val, com, &st); die("keyn", st);
      if (!ours(name)) continue;
      std::string key = name, v = val; char dt = 0;
      if (v.empty()) { cards.push_back(jval(key, '?', "")); continue; }
      fits_get_keytype(val, &dt, &st);
      if (st) { st = 0; cards.push_back(jval(key, '?', v)); continue; }
      size_t had = cards.size();
      if (dt == 'C') { char s[81]; fits_read_key(f, TSTRING, name, s, nullptr, &st); cards.push_back(jval(key, 's', rtrim(s))); }
      else if (dt == 'L') { int b; fits_read_key(f, TLOGICAL, name, &b, nullptr, &st); cards.push_back(jval(key, 'c', b ? "T" : "F")); }
      else if (dt == 'I') { long b; fits_read_key(f, TLONG, name, &b, nullptr, &st); cards.push_back(jval(key, 'i', std::to_string(b))); }
      else { double b; fits_read_key(f, TDOUBLE, name, &b, nullptr, &st); cards.push_back(jval(key, 'd', dstr(b))); }
      if (st) { st = 0; cards.resize(had); cards.push_back(jval(key, '?', v)); }
    }
    for (auto& p : h.pix) planes.push_back(jpix(p));
    out.push_back(J::obj({{"kind", h.kind}, {"type", image(h) ? TYPES[h.type] : "none"}, {"w", h.w}, {"h", h.h}, {"d", h.d}, {"pix", J::raw(arr(planes))}, {"cards", J::raw(arr(cards))}}));
  }
  fits_close_file(f, &st);
  return J::raw(arr(out));
}
static J jentry(const std::string& k, const MetadataEntry& e) {
  if (auto* s = boost::get<std::string>(&e.m_value)) return jval(k, 's', rtrim(*s));
  if (auto* i = boost::get<int64_t>(&e.m_value)) return jval(k, 'i', std::to_string(*i));
  if (auto* d = boost::get<double>(&e.m_value)) return jval(k, 'd', dstr(*d));
  if (auto* c = boost::get<char>(&e.m_value)) return jval(k, 'c', std::string(1, *c));
  return jval(k, 'b', "");
}
static int tileGet(ImageTile& t, int x, int y) {
  if (t.getType() == ImageTile::UIntImage) return static_cast<int32_t>(t.getValue<unsigned int>(x, y));
  return wrap(t.getValue<double>(x, y));
}
struct Src { std::shared_ptr<FitsImageSource> p; int file; int auto_or; };
static void rmfiles(const std::string& base) { boost::system::error_code e; boost::filesystem::remove(base + ".fits", e); boost::filesystem::remove(base + ".head", e); }
static std::vector<int64_t> pixels(Rng& r, int n, int type) {
  std::vector<int64_t> v(n);
  bool big = type == 3 && r.chance(1, 2);
  for (auto& x : v) x = big && r.chance(1, 2) ? 4294967295LL - r.below(1000) : (type == 3 ? r.range(0, 9999) : r.range(-999, 9999));
  return v;
}
template <typename T> static bool writeImage(const std::string& path, const std::vector<int64_t>& px, int w, int h, bool append) {
  std::vector<T> v(px.begin(), px.end());
  try { FitsWriter::writeFile<T>(*VectorImage<T>::create(w, h, v), path, nullptr, append); TileManager::getInstance()->flush(); } catch (const std::exception& e) { if (std::getenv("VP_VERBOSE")) std::fprintf(stderr, "%s\n", e.what()); return false; }
  return true;
}
template <typename T> static J readImage(const std::string& path) {
  try {
    auto im = FitsReader<T>::readFile(path);
    ImageAccessor<T> a(*im);
    std::vector<J> px;
    for (int y = 0; y < im->getHeight(); ++y) for (int x = 0; x < im->getWidth(); ++x) px.push_back(wrap(static_cast<double>(a.getValue(x, y))));
    auto j = J::obj({{"ok", true}, {"w", im->getWidth()}, {"h", im->getHeight()}, {"pix", J::raw(arr(px))}});
    im = nullptr; TileManager::getInstance()->flush();
    return j;
  } catch (const std::exception&) { TileManager::getInstance()->flush(); return J::obj({{"ok", false}, {"w", 0}, {"h", 0}, {"pix", J::raw("[]")}}); }
}
static void one(int c, Rng& r) {
  int nf = r.chance(1, 3) ? 2 : 1;
  std::vector<std::string> base;
  std::vector<bool> exists(nf, false);
  std::vector<std::vector<int>> ftypes(nf);       // type of each HDU, -1 for those which are no image
  std::vector<std::vector<bool>> plain(nf);       // images that may be written: flat and not compressed
  std::vector<std::vector<bool>> big(nf);         // unsigned values beyond the signed range
  L.ev({{"c", c}, {"e", "Begin"}, {"files", nf}});
  for (int f = 0; f < nf; ++f) {
    base.push_back(g_dir + "/f" + std::to_string(c) + "_" + std::to_string(f));
    if (r.chance(1, 4)) continue;
    std::vector<Hdu> hs;
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
      Hdu h{"image", r.below(5), r.range(1, 5), r.range(1, 4), 0, false, {}, {}};
      int k = r.below(10);
      if (k == 0) h.kind = i == 0 ? "empty" : "table";
      else if (k == 1) h.kind = i == 0 ? "empty" : "line";
      else if (k == 2 && i == 0) h.kind = "empty";
      else if (k <= 5) h.d = r.range(1, 3);
      else if (k == 6 && i > 0) { h.packed = true; h.type = 2; }
      if (!image(h)) h.w = h.h = h.d = 0;
      else for (int p = 0; p < std::max(1, h.d); ++p) h.pix.push_back(pixels(r, h.w * h.h, h.type));
      int nc = r.below(5);
      for (int q = 0; q < nc; ++q) h.cards.push_back(mkcard(r, (q == 0 && r.chance(1, 3) ? "ENDTIME" : "VPK" + std::to_string(q) + (r.chance(1, 4) ? "LONG" : ""))));
      hs.push_back(h);
    }
    writeRaw(base[f] + ".fits", hs);
    exists[f] = true;
    std::vector<J> jh, jhead;
    for (auto& h : hs) {
      jh.push_back(jhdu(h)); ftypes[f].push_back(image(h) ? h.type : -1); plain[f].push_back(image(h) && !h.packed && h.d == 0);
      bool b = false; for (auto& p : h.pix) for (auto v : p) b = b || v > 2147483647LL;
      big[f].push_back(b);
    }
    if (r.chance(1, 3)) {   // an ASCII header next to it
      std::ofstream o(base[f] + ".head");
      int sections = r.range(0, n + 1);
      for (int s = 0; s < sections; ++s) {
        std::vector<J> sec; std::set<std::string> used;
        int nc = r.below(4);
        if (r.chance(1, 3)) o << "HISTORY   Astrometric solution by something\n";
        if (r.chance(1, 4)) o << "\n   \n";
        for (int q = 0; q < nc; ++q) {
          Card cd = mkcard(r, std::string(r.chance(1, 2) ? "VPK" : "VPH") + std::to_string(r.below(4)));
          if (!used.insert(cd.k).second) continue;
          std::string text = cd.t == 'i' ? std::to_string(cd.i) : cd.t == 'c' ? (cd.i ? "T" : "F") : dstr(cd.d);
          if (cd.t == 'd' && text.find_first_of(".e") == std::string::npos) text += ".";
          if (cd.t == 's') { text = "'"; for (char ch : cd.s) { text += ch; if (ch == '\'') text += ch; } text += r.chance(1, 2) ? "   '" : "'"; }
          std::string key = cd.k; if (r.chance(1, 4)) for (auto& ch : key) ch = std::tolower(ch);
          if (r.chance(2, 3)) key.resize(8, ' ');
          o << key << "=" << (r.chance(3, 4) ? " " : "") << text << (r.chance(1, 2) ? "  / a comment = '/'" : "") << (r.chance(1, 5) ? "   " : "") << "\n";
          sec.push_back(jcard(cd));
        }
        o << (r.chance(1, 5) ? "end" : "END") << (r.chance(1, 4) ? "     " : "") << "\n";
        jhead.push_back(J::raw(arr(sec)));
      }
    }
    L.ev({{"c", c}, {"e", "File"}, {"f", f + 1}, {"hdus", J::raw(arr(jh))}, {"head", J::raw(arr(jhead))}});
  }
  std::vector<Src> srcs;
  std::vector<bool> reading(nf, false);           // opened as path[n], which is another name: not written to any more
  int steps = r.range(4, 14);
  for (int s = 0; s < steps; ++s) {
    int f = r.below(nf), op = r.below(12);
    std::string path = base[f] + ".fits";
    if (reading[f] && (op == 2 || op == 3 || op == 11)) continue;
    if (!exists[f]) op = r.chance(1, 2) ? 2 : 11;
    if (op <= 1) {          // open
      int nh = ftypes[f].size(), hdu = r.chance(1, 3) ? 0 : r.range(1, nh + 1);
      bool bracket = hdu >= 1 && r.chance(1, 4), anybig = false;
      for (bool b : big[f]) anybig = anybig || b;
      int as = anybig || r.chance(1, 2) ? -1 : r.chance(1, 2) ? 0 : r.below(3);
      J got = J::obj({{"ok", false}});
      try {
        auto p = bracket ? std::make_shared<FitsImageSource>(path + "[" + std::to_string(hdu - 1) + "]", 0, static_cast<ImageTile::ImageType>(as))
                         : std::make_shared<FitsImageSource>(path, hdu, static_cast<ImageTile::ImageType>(as));
        got = J::obj({{"ok", true}, {"hdu", p->getHDU()}, {"w", p->getWidth()}, {"h", p->getHeight()}, {"d", p->getDepth()}, {"type", TYPES[p->getType()]}});
        srcs.push_back({p, bracket ? -1 : f, as});
        if (bracket) reading[f] = true;
      } catch (const std::exception&) {}
      L.ev({{"c", c}, {"e", "Open"}, {"f", f + 1}, {"hdu", hdu}, {"as", as < 0 ? "auto" : TYPES[as]}, {"got", got}});
    } else if (op == 2 || op == 3) {   // a new image
      bool append = exists[f] || r.chance(1, 3), empty = r.chance(1, 3);
      int t = r.below(5), w = r.range(1, 5), h = r.range(1, 4), hdu = 0; bool ok = true;
      try {
        auto p = std::make_shared<FitsImageSource>(path, w, h, static_cast<ImageTile::ImageType>(t), nullptr, append, empty);
        hdu = p->getHDU();
        srcs.push_back({p, f, t});
      } catch (const std::exception&) { ok = false; }
      exists[f] = true;
      while (static_cast<int>(ftypes[f].size()) < hdu) { ftypes[f].push_back(-1); plain[f].push_back(false); big[f].push_back(false); }
      if (ok) { ftypes[f][hdu - 1] = t; plain[f][hdu - 1] = true; }
      L.ev({{"c", c}, {"e", "New"}, {"f", f + 1}, {"w", w}, {"h", h}, {"type", TYPES[t]}, {"append", append}, {"empty", empty}, {"ok", ok}, {"hdu", hdu}});
    } else if (op == 11) {  // a whole image written and read back by the convenience classes
      bool append = exists[f];
      int t = r.below(3), w = r.range(1, 5), h = r.range(1, 4);
      auto px = pixels(r, w * h, t);
      bool ok = t == 0 ? writeImage<float>(path, px, w, h, append) : t == 1 ? writeImage<double>(path, px, w, h, append) : writeImage<int>(path, px, w, h, append);
      exists[f] = true;
      ftypes[f].push_back(t); plain[f].push_back(true); big[f].push_back(false);
      L.ev({{"c", c}, {"e", "Write"}, {"f", f + 1}, {"w", w}, {"h", h}, {"type", TYPES[t]}, {"pix", jpix(px)}, {"ok", ok}});
      bool anybig = false; for (bool b : big[f]) anybig = anybig || b;
      if (!anybig) L.ev({{"c", c}, {"e", "ReadBack"}, {"f", f + 1}, {"got", r.chance(1, 2) ? readImage<float>(path) : readImage<int>(path)}});
    } else if (!srcs.empty()) {
      int i = r.below(srcs.size()); auto& p = srcs[i].p;
      int W = p->getWidth(), H = p->getHeight();
      if (op <= 7) {
        int x = r.below(W), y = r.below(H), w = r.range(1, W - x), h = r.range(1, H - y);
        if (r.chance(1, 2)) { x = y = 0; w = W; h = H; }
        std::vector<J> px; bool ok = true;
        try {
          auto t = p->getImageTile(x, y, w, h);
          for (int v = 0; v < h; ++v) for (int u = 0; u < w; ++u) px.push_back(tileGet(*t, x + u, y + v));
        } catch (const std::exception&) { ok = false; px.clear(); }
        L.ev({{"c", c}, {"e", "Read"}, {"s", i + 1}, {"x", x}, {"y", y}, {"w", w}, {"h", h}, {"ok", ok}, {"pix", J::raw(arr(px))}});
      } else if (op == 8) {
        int l = r.range(-1, 3); bool ok = true;
        try { p->setLayer(l); } catch (const std::exception&) { ok = false; }
        L.ev({{"c", c}, {"e", "Layer"}, {"s", i + 1}, {"l", l}, {"ok", ok}});
      } else if (op == 9) {
        int ff = srcs[i].file, hd = p->getHDU();
        if (ff < 0 || reading[ff] || !plain[ff][hd - 1] || static_cast<int>(p->getType()) != ftypes[ff][hd - 1]) continue;
        int x = r.below(W), y = r.below(H), w = r.range(1, W - x), h = r.range(1, H - y);
        auto px = pixels(r, w * h, 0); bool ok = true;
        if (ftypes[ff][hd - 1] == 3) for (auto& v : px) v = std::abs(v);
        try {
          auto t = ImageTile::create(p->getType(), x, y, w, h, p);
          for (int k = 0; k < w * h; ++k) t->setValue(x + k % w, y + k / w, static_cast<double>(px[k]));
          p->saveTile(*t);
        } catch (const std::exception&) { ok = false; }
        L.ev({{"c", c}, {"e", "Save"}, {"s", i + 1}, {"x", x}, {"y", y}, {"w", w}, {"h", h}, {"ok", ok}, {"pix", jpix(px)}});
      } else if (r.chance(1, 2)) {
        std::vector<J> m; bool ok = true;
        try { for (auto& e : p->getMetadata()) if (ours(e.first)) m.push_back(jentry(e.first, e.second)); } catch (const std::exception&) { ok = false; }
        L.ev({{"c", c}, {"e", "Meta"}, {"s", i + 1}, {"ok", ok}, {"meta", J::raw(arr(m))}});
      } else if (srcs[i].file >= 0 && !reading[srcs[i].file]) {
        Card cd = mkcard(r, "VPS" + std::to_string(r.below(3))); bool ok = true;
        if (cd.t == 'd') cd.d = r.range(-40, 40) + 0.25;   // VariantCast writes 2. as 2 and 1E20 as 1e20
        MetadataEntry e;
        if (cd.t == 'i') e.m_value = static_cast<int64_t>(cd.i); else if (cd.t == 'd') e.m_value = cd.d; else if (cd.t == 'c') e.m_value = cd.i ? 'T' : 'F'; else e.m_value = cd.s;
        try { p->setMetadata(cd.k, e); } catch (const std::exception&) { ok = false; }
        L.ev({{"c", c}, {"e", "SetMeta"}, {"s", i + 1}, {"ok", ok}, {"card", jcard(cd)}});
      }
    }
  }
  srcs.clear();
  TileManager::getInstance()->flush();
  for (int f = 0; f < nf; ++f) if (exists[f]) L.ev({{"c", c}, {"e", "Dump"}, {"f", f + 1}, {"hdus", readRaw(base[f] + ".fits")}});
  for (auto& b : base) rmfiles(b);
  L.ev({{"c", c}, {"e", "End"}});
  L.flush();
}
int main(int argc, char** argv) {
  L.open(vp::arg(argc, argv, "--out"));
  int n = vp::argi(argc, argv, "--n", 500); long seed = vp::argi(argc, argv, "--seed", 1);
  auto tmp = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path("vpfits-%%%%%%%%");
  boost::filesystem::create_directory(tmp);
  g_dir = tmp.native();
  for (int c = 1; c <= n; ++c) { Rng r(seed + c * 7919L); one(c, r); }
  boost::system::error_code e; boost::filesystem::remove_all(tmp, e);
  return 0;
}

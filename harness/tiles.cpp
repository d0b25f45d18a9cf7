// Reads, writes and flushes of file-backed images through the real tile manager: sequential histories and threads under the
// controlled scheduler.
#include <csignal>
#include <map>
#include <thread>
#include <unistd.h>
#include <sys/stat.h>
#include "vplog.h"
#include "vpsched.h"
#include "SEFramework/FITS/FitsImageSource.h"
#include "SEFramework/FITS/FitsWriter.h"
#include "SEFramework/Image/BufferedImage.h"
#include "SEFramework/Image/ImageAccessor.h"
#include "SEFramework/Image/TileManager.h"
#include "SEFramework/Image/WriteableBufferedImage.h"
#include "SEImplementation/Image/LockedWriteableImage.h"
using namespace SourceXtractor;
using namespace vp;
static Log L;
static long s_live = 0;
static std::string s_dir;
static std::string s_what;  // an inconsistency seen by the source itself
static const int ORIG = 1000000;
/// A file in memory
template <typename T> struct MemSource : ImageSource, std::enable_shared_from_this<MemSource<T>> {
  int w, h; std::map<std::pair<int, int>, T> px; int saves = 0;
  MemSource(int ww, int hh) : w(ww), h(hh) {}
  std::string getRepr() const override { return "mem"; }
  int getWidth() const override { return w; }
  int getHeight() const override { return h; }
  ImageTile::ImageType getType() const override { return ImageTile::getTypeValue(T()); }
  T at(int x, int y) const { auto i = px.find({x, y}); return i == px.end() ? T(ORIG + y * w + x) : i->second; }
  std::shared_ptr<ImageTile> getImageTile(int x, int y, int tw, int th) const override {
    if (x < 0 || y < 0 || tw < 1 || th < 1 || x + tw > w || y + th > h) s_what = "load outside of the image";
    auto self = const_cast<MemSource*>(this)->shared_from_this();
    auto* tile = new ImageTileWithType<T>(x, y, tw, th, self);
    auto& data = tile->getImage()->getData();
    for (int j = 0; j < th; ++j) for (int i = 0; i < tw; ++i) data[j * tw + i] = T(ORIG + (y + j) * w + x + i);
    for (auto it = px.lower_bound({x, 0}); it != px.end() && it->first.first < x + tw; ++it) if (it->first.second >= y && it->first.second < y + th) data[(it->first.second - y) * tw + it->first.first - x] = it->second;
    long bytes = static_cast<long>(tw) * th * sizeof(T);
    s_live += bytes;
    if (controlled()) point();
    return std::shared_ptr<ImageTile>(tile, [bytes](ImageTile* t) { s_live -= bytes; delete t; });
  }
  void saveTile(ImageTile& t) override {
    ++saves;
    if (controlled()) point();
    auto& tt = dynamic_cast<ImageTileWithType<T>&>(t);
    int x = t.getPosX(), y = t.getPosY(), tw = t.getWidth(), th = t.getHeight();
    auto& data = tt.getImage()->getData();
    for (int j = 0; j < th; ++j) for (int i = 0; i < tw; ++i) { T v = data[j * tw + i]; if (v != at(x + i, y + j)) px[{x + i, y + j}] = v; }
  }
};
struct Img {  // an image of any type
  int w, h, type; bool fits; std::string path;
  virtual ~Img() = default;
  virtual void write(int obj, int x, int y, int v) = 0;
  virtual int read(int obj, int how, int x, int y) = 0;
  virtual std::vector<int> rect(int obj, int x, int y, int rw, int rh) = 0;
  virtual std::vector<int> file(const std::vector<std::pair<int, int>>& p) = 0;
  virtual void drop() = 0;
};
template <typename T> struct ImgT : Img {
  std::shared_ptr<ImageSource> src; std::shared_ptr<MemSource<T>> mem;
  std::vector<std::shared_ptr<Image<T>>> objs;
  std::vector<std::shared_ptr<WriteableImage<T>>> wr;
  ImgT(int ww, int hh, bool f, int id, std::shared_ptr<TileManager> tm) {
    w = ww; h = hh; fits = f;
    if (f) {
      path = s_dir + "/img" + std::to_string(id) + ".fits";
      ::unlink(path.c_str());
      src = std::make_shared<FitsImageSource>(path, w, h, ImageTile::getTypeValue(T()));
    } else src = mem = std::make_shared<MemSource<T>>(w, h);
    auto a = WriteableBufferedImage<T>::create(src, tm); auto b = BufferedImage<T>::create(src, tm); auto c = WriteableBufferedImage<T>::create(src, tm);
    objs = {a, c, b}; wr = {a, c};
  }
  void write(int obj, int x, int y, int v) override { wr[obj]->setValue(x, y, T(v)); }
  int read(int obj, int how, int x, int y) override {
    if (how == 0) return static_cast<int>(objs[obj]->getChunk(x, y, 1, 1)->getValue(0, 0));
    ImageAccessor<T> acc(objs[obj], how == 1 ? ImageAccessor<T>::TOP_LEFT : ImageAccessor<T>::CENTERED, 3, 3);
    return static_cast<int>(acc.getValue(x, y));
  }
  std::vector<int> rect(int obj, int x, int y, int rw, int rh) override {
    auto c = objs[obj]->getChunk(x, y, rw, rh); std::vector<int> v;
    if (c->getWidth() != rw || c->getHeight() != rh) s_what = "wrong size of a rectangle";
    for (int j = 0; j < rh; ++j) for (int i = 0; i < rw; ++i) v.push_back(static_cast<int>(c->getValue(i, j)));
    return v;
  }
  std::vector<int> file(const std::vector<std::pair<int, int>>& p) override {
    std::vector<int> v;
    if (!fits) { for (auto& q : p) v.push_back(static_cast<int>(mem->at(q.first, q.second))); return v; }
    // the file itself, opened anew
    fitsfile* f = nullptr; int st = 0;
    fits_open_image(&f, path.c_str(), READONLY, &st);
    for (auto& q : p) { long at[2] = {q.first + 1, q.second + 1}; double d = -1; int any; fits_read_pix(f, TDOUBLE, at, 1, nullptr, &d, &any, &st); v.push_back(st ? -7 : static_cast<int>(d)); }
    int s2 = 0; if (f) fits_close_file(f, &s2);
    return v;
  }
  void drop() override { objs.clear(); wr.clear(); }
};
static std::unique_ptr<Img> makeImg(int type, int w, int h, bool fits, int id, std::shared_ptr<TileManager> tm) {
  switch (type) {
    case 0: return std::unique_ptr<Img>(new ImgT<float>(w, h, fits, id, tm));
    case 1: return std::unique_ptr<Img>(new ImgT<double>(w, h, fits, id, tm));
    case 2: return std::unique_ptr<Img>(new ImgT<int>(w, h, fits, id, tm));
    case 3: return std::unique_ptr<Img>(new ImgT<unsigned int>(w, h, fits, id, tm));
    default: return std::unique_ptr<Img>(new ImgT<std::int64_t>(w, h, fits, id, tm));
  }
}
static J list(const std::vector<std::pair<int, int>>& p) { std::string s = "["; for (auto& q : p) { if (s.size() > 1) s += ","; s += "[" + std::to_string(q.first) + "," + std::to_string(q.second) + "]"; } return J::raw(s + "]"); }
static const int SIZE[] = {4, 8, 4, 4, 8};
static void sequential(uint64_t seed) {
  Rng r(seed * 104729 + 5);
  s_live = 0; s_what.clear();
  auto tm = std::make_shared<TileManager>();
  bool big = r.chance(1, 6);
  int tw, th, mb, n = r.range(1, 3);
  if (big) { tw = 128 << r.below(2); th = 256 << r.below(2); mb = r.range(1, 2); } else { tw = r.range(1, 6); th = r.range(1, 6); mb = r.chance(2, 3) ? 0 : 5; }
  tm->setOptions(tw, th, mb);
  std::vector<std::unique_ptr<Img>> im; std::vector<std::vector<std::pair<int, int>>> wrote(n);
  std::string ij = "[";
  int maxtile = 0;
  for (int i = 0; i < n; ++i) {
    int w = big ? r.range(tw, 5 * tw) : r.range(1, 16), h = big ? r.range(th, 4 * th) : r.range(1, 16), type = r.below(5);
    bool fits = !big && r.chance(1, 6);
    im.push_back(makeImg(type, w, h, fits, i, tm));
    im.back()->type = type;
    maxtile = std::max(maxtile, std::min(tw, w) * std::min(th, h) * SIZE[type]);
    if (ij.size() > 1) ij += ",";
    ij += J::obj({{"w", w}, {"h", h}, {"type", type}, {"fits", fits}, {"orig", fits ? 0 : ORIG}}).s;
  }
  L.ev({{"e", "Begin"}, {"seed", seed}, {"mode", "seq"}, {"img", J::raw(ij + "]")}, {"limit", mb * 1024 * 1024}, {"tile", maxtile}});
  int steps = r.range(10, 40), val = 0;
  bool local = r.chance(1, 2); int lx = 0, ly = 0, li = 0;
  auto file = [&](int i) { L.ev({{"e", "File"}, {"i", i + 1}, {"p", list(wrote[i])}, {"v", im[i]->file(wrote[i])}}); };
  for (int k = 0; k < steps; ++k) {
    int i = r.below(n); Img& m = *im[i];
    int x = r.below(m.w), y = r.below(m.h), what = r.below(20);
    if (local && r.chance(2, 3)) { i = li; Img& q = *im[i]; x = std::min(lx + r.below(3), q.w - 1); y = std::min(ly, q.h - 1); }
    Img& q = *im[i]; li = i; lx = x; ly = y;
    if (what < 9) { ++val; int o = r.below(2); q.write(o, x, y, val); wrote[i].push_back({x, y}); L.ev({{"e", "Write"}, {"i", i + 1}, {"x", x}, {"y", y}, {"v", val}}); }
    else if (what < 14) {
      if (!wrote[i].empty() && r.chance(1, 2)) { auto p = wrote[i][r.below(wrote[i].size())]; x = p.first; y = p.second; }
      int o = r.below(3), how = big ? 0 : r.below(3);
      L.ev({{"e", "Read"}, {"i", i + 1}, {"x", x}, {"y", y}, {"v", q.read(o, how, x, y)}, {"live", static_cast<int>(s_live)}});
    } else if (what < 18) {
      int rw = r.range(1, std::min(8, q.w - x)), rh = r.range(1, std::min(8, q.h - y));
      if (big && r.chance(1, 2)) { x = std::max(0, std::min(q.w - 4, (x / tw + 1) * tw - 2)); y = std::max(0, std::min(q.h - 4, (y / th + 1) * th - 2)); rw = std::min(4, q.w - x); rh = std::min(4, q.h - y); }
      auto v = q.rect(r.below(3), x, y, rw, rh);
      L.ev({{"e", "Rect"}, {"i", i + 1}, {"x", x}, {"y", y}, {"w", rw}, {"h", rh}, {"v", v}, {"live", static_cast<int>(s_live)}});
    } else if (what == 18) { if (r.chance(1, 2)) tm->flush(); else tm->saveAllTiles(); for (int j = 0; j < n; ++j) file(j); }
    else if (!big) {
      // other tiles and limits, between two uses
      int ntw = r.range(1, 6), nth = r.range(1, 6);
      tm->setOptions(ntw, nth, mb);
      maxtile = 0; for (auto& p : im) maxtile = std::max(maxtile, std::min(ntw, p->w) * std::min(nth, p->h) * SIZE[p->type]);
      L.ev({{"e", "Options"}, {"tile", maxtile}});
    }
  }
  tm->flush();
  for (int j = 0; j < n; ++j) file(j);
  // once the images are gone and the manager too, the files are still right
  for (auto& p : im) p->drop();
  tm.reset();
  for (int j = 0; j < n; ++j) file(j);
  L.ev({{"e", "End"}, {"what", s_what}});
  L.flush();
}
static void threads(uint64_t seed) {
  Rng r(seed * 7901 + 3);
  s_live = 0; s_what.clear();
  int tw = r.range(1, 4), th = r.range(1, 4), n = r.range(1, 2), nt = r.range(2, 4), mb = r.chance(1, 2) ? 0 : 5;
  // tiles of a megabyte, of which the cache holds one or two
  bool big = r.chance(1, 3);
  if (big) { tw = th = 512; mb = r.range(1, 2); }
  std::string ij = "["; std::vector<std::array<int, 2>> dim;
  for (int i = 0; i < n; ++i) { int w = big ? 512 * r.range(1, 3) : r.range(1, 8), h = big ? 512 * r.range(1, 2) : r.range(1, 6); dim.push_back({w, h}); if (i) ij += ","; ij += J::obj({{"w", w}, {"h", h}, {"type", 2}, {"fits", false}, {"orig", ORIG}}).s; }
  int maxtile = 0;
  for (auto& d : dim) maxtile = std::max(maxtile, std::min(tw, d[0]) * std::min(th, d[1]) * 4);
  L.ev({{"e", "Begin"}, {"seed", seed}, {"mode", "threads"}, {"img", J::raw(ij + "]")}, {"limit", mb * 1024 * 1024}, {"tile", maxtile * (nt + 1)}});
  SchedOptions o; o.seed = seed;
  std::vector<std::vector<std::pair<int, int>>> wrote(n);
  runControlled(o, [&]() {
    auto tm = std::make_shared<TileManager>();
    tm->setOptions(tw, th, mb);
    std::vector<std::unique_ptr<ImgT<int>>> im;
    for (int i = 0; i < n; ++i) im.emplace_back(new ImgT<int>(dim[i][0], dim[i][1], false, i, tm));
    std::vector<std::thread> ts; int val = 0, op = 0;
    bool flusher = false;
    for (int t = 0; t < nt; ++t) {
      uint64_t ss = r.next();
      ts.emplace_back([&, ss, t]() {
        Rng q(ss);
        int k = q.range(2, 6); bool writer = q.chance(1, 2);
        for (int s = 0; s < k; ++s) {
          int i = q.below(n), x = q.below(dim[i][0]), y = q.below(dim[i][1]);
          if (big) { x = x / 512 * 512 + x % 2; y = y / 512 * 512; }
          if (writer) {
            // the way the check images are written: lock, then several pixels, some read and added to
            auto lk = LockedWriteableImage<int>::create(im[i]->wr[0]);
            for (int b = q.range(1, 4); b > 0; --b) {
              int v = ++val, id = ++op;
              wrote[i].push_back({x, y});
              if (q.chance(1, 3)) { int rd = ++op; L.ev({{"e", "RS"}, {"o", rd}, {"i", i + 1}, {"x", x}, {"y", y}}); int got = lk->getChunk(x, y, 1, 1)->getValue(0, 0); L.ev({{"e", "RE"}, {"o", rd}, {"v", got}}); }
              L.ev({{"e", "WS"}, {"o", id}, {"i", i + 1}, {"x", x}, {"y", y}, {"v", v}});
              lk->setValue(x, y, v);
              L.ev({{"e", "WE"}, {"o", id}, {"live", static_cast<int>(s_live)}});
              point();
              if (q.chance(2, 3)) { x = std::min(x + 1, dim[i][0] - 1); } else { x = q.below(dim[i][0]); y = q.below(dim[i][1]); if (big) { x = x / 512 * 512 + x % 2; y = y / 512 * 512; } }
            }
          } else {
            if (!wrote[i].empty() && q.chance(1, 2)) { auto p = wrote[i][q.below(wrote[i].size())]; x = p.first; y = p.second; }
            int rd = ++op;
            L.ev({{"e", "RS"}, {"o", rd}, {"i", i + 1}, {"x", x}, {"y", y}});
            int got = im[i]->read(q.below(3), 0, x, y);
            L.ev({{"e", "RE"}, {"o", rd}, {"v", got}});
            point();
          }
        }
      });
    }
    for (auto& t : ts) t.join();
    (void) flusher;
    for (int i = 0; i < n; ++i) for (auto& p : wrote[i]) L.ev({{"e", "Read"}, {"i", i + 1}, {"x", p.first}, {"y", p.second}, {"v", im[i]->read(2, 0, p.first, p.second)}, {"live", static_cast<int>(s_live)}});
    tm->flush();
    for (int i = 0; i < n; ++i) L.ev({{"e", "File"}, {"i", i + 1}, {"p", list(wrote[i])}, {"v", im[i]->file(wrote[i])}});
    for (auto& p : im) p->drop();
    tm.reset();
    for (int i = 0; i < n; ++i) L.ev({{"e", "File"}, {"i", i + 1}, {"p", list(wrote[i])}, {"v", im[i]->file(wrote[i])}});
  }, [&](Outcome oc, const std::string& d) {
    L.ev({{"e", "Hang"}, {"how", oc == Outcome::DEADLOCK ? "deadlock" : "no progress"}, {"threads", d}});
    L.flush();
    std::_Exit(97);
  });
  L.ev({{"e", "End"}, {"what", s_what}});
  L.flush();
}
int main(int argc, char** argv) {
  L.open(arg(argc, argv, "--out"));
  long n = argi(argc, argv, "--n", 100), first = argi(argc, argv, "--seed", 1);
  std::string mode = arg(argc, argv, "--mode", "seq");
  s_dir = arg(argc, argv, "--dir", "/tmp/vp-tiles");
  ::mkdir(s_dir.c_str(), 0755);
  for (long i = 0; i < n; ++i) if (mode == "seq") sequential(first + i); else threads(first + i);
}

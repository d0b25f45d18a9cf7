// Runs the real program: every case in a process of its own (the configuration registers once per process).
#ifndef VPMAIN_H
#define VPMAIN_H
#include <cmath>
#include <cstring>
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
#include <fitsio.h>
#include <boost/filesystem.hpp>
#include "vplog.h"
#include "AlexandriaKernel/ThreadPool.h"
#include "Table/Table.h"
#include "ElementsKernel/Logging.h"
int se_main(int argc, char* argv[]);
namespace vp {
using Rows = std::vector<Euclid::Table::Row>;
struct Part { std::string file, hdu; bool created = false; int writes = 0; Rows rows; };
inline std::string joined(const std::vector<J>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i].s; } return s + "]"; }
inline J list(const std::vector<J>& v) { return J::raw(joined(v)); }
/// One call of main; what was written, part by part
inline int program(const std::vector<std::pair<std::string, std::string>>& opts, std::vector<Part>& parts) {
  std::vector<std::string> a{"sourcextractor++"};
  for (auto& o : opts) a.push_back("--" + o.first + "=" + o.second);
  std::vector<char*> p;
  for (auto& s : a) p.push_back(&s[0]);
  Euclid::Table::writerHook() = [&parts](const Euclid::Table::WriterEvent& e) {
    if (parts.empty() || parts.back().hdu != e.hdu || parts.back().file != e.file || e.create) { parts.emplace_back(); parts.back().file = e.file; parts.back().hdu = e.hdu; parts.back().created = e.create; }
    parts.back().writes++;
    for (auto& r : *e.table) parts.back().rows.push_back(r);
  };
  p.push_back(nullptr);
  int rc = se_main(a.size(), p.data());
  Euclid::Table::writerHook() = nullptr;
  return rc;
}
/// Runs `child` in processes of their own, `jobs` at a time; the lines are kept in order, a case ends after `perCase` runs
inline void forkAll(Log& log, const std::string& scratch, int from, int to, int perCase, int jobs, int seconds, const std::function<void(int, Log&, const std::string&)>& child) {
  struct Kid { pid_t pid; int fd; int c; };
  if (!std::getenv("PYTHONPATH")) {   // run by hand
    const char* repo = std::getenv("VP_REPO");
    std::string p = (boost::filesystem::read_symlink("/proc/self/exe").parent_path().parent_path() / "stubs/py").string() + ":" + (repo ? repo : "/repo") + "/SEImplementation/python";
    ::setenv("PYTHONPATH", p.c_str(), 1);
    ::setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  }
  boost::filesystem::create_directories(scratch);
  for (int b = from; b < to; b += jobs) {
    std::vector<Kid> kids;
    for (int c = b; c < to && c < b + jobs; ++c) {
      int fd[2];
      if (pipe(fd)) { std::perror("pipe"); std::exit(2); }
      pid_t pid = fork();
      if (pid < 0) { std::perror("fork"); std::exit(2); }
      if (pid == 0) {
        close(fd[0]);
        for (auto& k : kids) close(k.fd);
        alarm(seconds);
        auto dir = scratch + "/" + std::to_string(c);
        boost::filesystem::create_directories(dir);
        if (!std::getenv("VP_VERBOSE")) { if (!freopen("/dev/null", "w", stderr)) {} }
        if (!freopen("/dev/null", "w", stdout)) {}
        Log mine;
        mine.attach(fdopen(fd[1], "w"));
        child(c, mine, dir);
        mine.flush();
        _exit(0);
      }
      close(fd[1]);
      kids.push_back({pid, fd[0], c});
    }
    for (auto& k : kids) {
      std::string all;
      char buf[65536];
      ssize_t n;
      while ((n = read(k.fd, buf, sizeof buf)) > 0) all.append(buf, n);
      close(k.fd);
      int st = 0;
      waitpid(k.pid, &st, 0);
      size_t at = 0, nl;
      while ((nl = all.find('\n', at)) != std::string::npos) { log.lines().push_back(all.substr(at, nl - at)); at = nl + 1; }
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { log.ev({{"e", "Crash"}, {"signal", WIFSIGNALED(st) ? WTERMSIG(st) : 0}, {"run", k.c}}); }
      if (k.c % perCase == perCase - 1) log.ev({{"e", "End"}});
      boost::filesystem::remove_all(scratch + "/" + std::to_string(k.c));
    }
    log.flush();
  }
}
/// A cell as text, exactly
struct CellText : boost::static_visitor<std::string> {
  template <typename T> static std::string one(T v) { if constexpr (std::is_floating_point<T>::value) { char b[64]; std::snprintf(b, sizeof b, "%a", static_cast<double>(v)); return b; } else return std::to_string(v); }
  std::string operator()(const std::string& s) const { return s; }
  template <typename T> std::string operator()(const std::vector<T>& v) const { std::string s = "["; for (auto x : v) s += one(static_cast<T>(x)) + " "; return s + "]"; }
  template <typename T> std::string operator()(const Euclid::NdArray::NdArray<T>& v) const { std::string s = "["; for (auto x : v) s += one(static_cast<T>(x)) + " "; return s + "]"; }
  template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> std::string operator()(T v) const { return one(v); }
};
struct CellNum : boost::static_visitor<double> {
  template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> double operator()(T v) const { return static_cast<double>(v); }
  template <typename T> double operator()(const std::vector<T>& v) const { return v.empty() ? 0 : static_cast<double>(v[0]); }
  template <typename T> double operator()(const Euclid::NdArray::NdArray<T>& v) const { for (auto x : v) return static_cast<double>(x); return 0; }
  double operator()(const std::string&) const { return 0; }
};
struct CellVec : boost::static_visitor<std::vector<double>> {
  template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> std::vector<double> operator()(T v) const { return {static_cast<double>(v)}; }
  template <typename T> std::vector<double> operator()(const std::vector<T>& v) const { return std::vector<double>(v.begin(), v.end()); }
  template <typename T> std::vector<double> operator()(const Euclid::NdArray::NdArray<T>& v) const { std::vector<double> r; for (auto x : v) r.push_back(static_cast<double>(x)); return r; }
  std::vector<double> operator()(const std::string&) const { return {}; }
};
inline double number(const Euclid::Table::Row& r, const std::string& c) { return boost::apply_visitor(CellNum(), r[c]); }
inline std::vector<double> numbers(const Euclid::Table::Row& r, const std::string& c) { return boost::apply_visitor(CellVec(), r[c]); }
inline std::string text(const Euclid::Table::Row& r, const std::string& c) { return boost::apply_visitor(CellText(), r[c]); }
inline std::string text(const Euclid::Table::Row& r, size_t i) { return boost::apply_visitor(CellText(), r[i]); }
/// Bit tests, since everything is compiled with -ffast-math
inline bool finite(double v) { uint64_t b; std::memcpy(&b, &v, 8); return ((b >> 52) & 0x7ff) != 0x7ff; }
inline J scaled(double v, double s) { return !finite(v) ? J::raw("999999999") : std::fabs(v * s) > 9e8 ? J(v > 0 ? 900000000 : -900000000) : J(static_cast<int>(std::lround(v * s))); }
/// FITS images
struct Plane { int w, h; std::vector<float> v; std::vector<std::pair<std::string, double>> keys; };
inline void writeFits(const std::string& path, const std::vector<Plane>& planes, bool emptyPrimary = false) {
  int st = 0;
  fitsfile* f = nullptr;
  fits_create_file(&f, ("!" + path).c_str(), &st);
  if (emptyPrimary) fits_create_img(f, FLOAT_IMG, 0, nullptr, &st);
  for (auto& p : planes) {
    long n[2] = {p.w, p.h}, first[2] = {1, 1};
    fits_create_img(f, FLOAT_IMG, 2, n, &st);
    fits_write_pix(f, TFLOAT, first, static_cast<LONGLONG>(p.w) * p.h, const_cast<float*>(p.v.data()), &st);
    for (auto& k : p.keys) { double d = k.second; fits_update_key(f, TDOUBLE, k.first.c_str(), &d, nullptr, &st); }
  }
  fits_close_file(f, &st);
  if (st) { std::fprintf(stderr, "%s: FITS error %d\n", path.c_str(), st); std::_Exit(2); }
}
/// Reads a FITS image back (check images)
inline Plane readFits(const std::string& path, int hdu = 1) {
  int st = 0, n = 0;
  fitsfile* f = nullptr;
  Plane p{0, 0, {}, {}};
  fits_open_file(&f, path.c_str(), READONLY, &st);
  fits_movabs_hdu(f, hdu, nullptr, &st);
  fits_get_img_dim(f, &n, &st);
  long d[3] = {0, 0, 0}, first[3] = {1, 1, 1};
  fits_get_img_size(f, 3, d, &st);
  if (!st) { p.w = d[0]; p.h = d[1]; p.v.resize(p.w * p.h); fits_read_pix(f, TFLOAT, first, p.w * p.h, nullptr, p.v.data(), nullptr, &st); }
  int st2 = 0;
  if (f) fits_close_file(f, &st2);
  if (st) { p.w = p.h = 0; p.v.clear(); }
  return p;
}
}
#endif

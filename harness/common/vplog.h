// One JSON object per line; the trace specifications read these files.
#ifndef VPLOG_H
#define VPLOG_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <initializer_list>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
namespace vp {
struct J {
  std::string s;
  J() : s("null") {}
  J(bool b) : s(b ? "true" : "false") {}
  template <typename T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value, int> = 0>
  J(T v) : s(std::to_string(v)) {}
  J(const char* c) : J(std::string(c)) {}
  J(const std::string& c) { s = "\""; for (char ch : c) { if (ch == '"' || ch == '\\') { s += '\\'; s += ch; } else if (static_cast<unsigned char>(ch) < 32) s += ' '; else s += ch; } s += "\""; }
  template <typename T> J(const std::vector<T>& v) { s = "["; bool f = true; for (const auto& x : v) { if (!f) s += ","; f = false; s += J(static_cast<T>(x)).s; } s += "]"; }
  static J obj(std::initializer_list<std::pair<const char*, J>> l) { J j; j.s = "{"; bool f = true; for (auto& p : l) { if (!f) j.s += ","; f = false; j.s += "\""; j.s += p.first; j.s += "\":"; j.s += p.second.s; } j.s += "}"; return j; }
  static J raw(const std::string& r) { J j; j.s = r; return j; }
};
using KV = std::pair<const char*, J>;
class Log {
public:
  void open(const std::string& p) { m_path = p; m_f = std::fopen(p.c_str(), "w"); if (!m_f) { std::perror(p.c_str()); std::exit(2); } }
  void attach(std::FILE* f) { m_f = f; }
  void ev(std::initializer_list<KV> l) { m_lines.push_back(J::obj(l).s); if (m_verbose) std::fprintf(stderr, "%s\n", m_lines.back().c_str()); }
  void flush() { for (auto& l : m_lines) { std::fputs(l.c_str(), m_f); std::fputc('\n', m_f); } m_lines.clear(); std::fflush(m_f); }
  size_t pending() const { return m_lines.size(); }
  std::vector<std::string>& lines() { return m_lines; }
private:
  std::string m_path;
  std::FILE* m_f = nullptr;
  bool m_verbose = std::getenv("VP_VERBOSE") != nullptr;
  std::vector<std::string> m_lines;
};
/// Small seeded generator
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull) { if (!s) s = 1; for (int i = 0; i < 6; ++i) next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; }
  int below(int n) { return n <= 0 ? 0 : static_cast<int>((next() >> 33) % static_cast<uint64_t>(n)); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int num, int den) { return below(den) < num; }
};
inline std::string arg(int argc, char** argv, const std::string& k, const std::string& d = "") {
  for (int i = 1; i + 1 < argc; ++i) if (k == argv[i]) return argv[i + 1];
  return d;
}
inline long argi(int argc, char** argv, const std::string& k, long d) { auto v = arg(argc, argv, k); return v.empty() ? d : std::atol(v.c_str()); }
}
#endif

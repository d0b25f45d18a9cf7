#ifndef VP_ELEMENTS_TEMPORARY_H
#define VP_ELEMENTS_TEMPORARY_H
#include <boost/filesystem.hpp>
#include <cstdlib>
#include <map>
#include <string>
namespace Elements {
class TempPath {
public:
  explicit TempPath(const std::string& motif = "vp-%%%%%%%%") : m_path(boost::filesystem::temp_directory_path() / boost::filesystem::unique_path(motif)) {}
  virtual ~TempPath() { boost::system::error_code e; boost::filesystem::remove_all(m_path, e); }
  boost::filesystem::path path() const { return m_path; }
protected:
  boost::filesystem::path m_path;
};
class TempFile : public TempPath { public: using TempPath::TempPath; };
class TempDir : public TempPath { public: explicit TempDir(const std::string& m = "vp-%%%%%%%%") : TempPath(m) { boost::filesystem::create_directory(m_path); } };
/// The environment variables set through it are put back when it goes
class TempEnv {
public:
  class Value {
  public:
    Value(std::string n) : m_name(std::move(n)) {}
    bool empty() const { return str().empty(); }
    std::string str() const { auto c = std::getenv(m_name.c_str()); return c ? c : ""; }
    operator std::string() const { return str(); }
    Value& operator=(const std::string& v) { ::setenv(m_name.c_str(), v.c_str(), 1); return *this; }
  private:
    std::string m_name;
  };
  Value operator[](const std::string& n) { if (!m_old.count(n)) m_old[n] = Value(n).str(); return Value(n); }
  ~TempEnv() { for (auto& p : m_old) if (p.second.empty()) ::unsetenv(p.first.c_str()); else ::setenv(p.first.c_str(), p.second.c_str(), 1); }
private:
  std::map<std::string, std::string> m_old;
};
inline std::string operator+(const std::string& a, const TempEnv::Value& b) { return a + b.str(); }
inline std::string operator+(const char* a, const TempEnv::Value& b) { return a + b.str(); }
}
#endif

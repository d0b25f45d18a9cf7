// Stand-in for Elements' logger: swallows everything.
#ifndef VP_ELEMENTS_LOGGING_H
#define VP_ELEMENTS_LOGGING_H
#include "vp_std.h"
#include "AlexandriaKernel/memory_tools.h"
#include <string>
#include <sstream>
#include <ostream>
#include <iostream>
#include <map>
namespace Elements {
class Logging {
public:
  /// A driver that wants to see the messages sets this: (name of the logger, level, text)
  using Hook = void (*)(const std::string&, char, const std::string&);
  static Hook& hook() { static Hook h = nullptr; return h; }
  class LogMessageStream {
  public:
    LogMessageStream(const std::string& n, char l) : m_name(n), m_level(l) { if (hook()) m_out.reset(new std::ostringstream); }
    LogMessageStream(LogMessageStream&&) = default;
    ~LogMessageStream() { if (m_out && hook()) hook()(m_name, m_level, m_out->str()); }
    template <typename T>
    LogMessageStream& operator<<(const T& t) { if (m_out) *m_out << t; return *this; }
    LogMessageStream& operator<<(std::ostream& (*f)(std::ostream&)) { if (m_out) *m_out << f; return *this; }
    LogMessageStream& operator<<(std::ios_base& (*f)(std::ios_base&)) { if (m_out) *m_out << f; return *this; }
  private:
    std::string m_name;
    char m_level;
    std::unique_ptr<std::ostringstream> m_out;
  };
  static Logging getLogger(const std::string& n = "") { Logging l; l.m_name = n; return l; }
  static void setLevel(const std::string&) {}
  LogMessageStream debug() { return LogMessageStream(m_name, 'd'); }
  LogMessageStream info() { return LogMessageStream(m_name, 'i'); }
  LogMessageStream warn() { return LogMessageStream(m_name, 'w'); }
  LogMessageStream error() { return LogMessageStream(m_name, 'e'); }
  LogMessageStream fatal() { return LogMessageStream(m_name, 'f'); }
  template <typename... A> void debug(const std::string&, A&&...) {}
  template <typename... A> void info(const std::string&, A&&...) {}
  template <typename... A> void warn(const std::string&, A&&...) {}
  template <typename... A> void error(const std::string&, A&&...) {}
  template <typename... A> void fatal(const std::string&, A&&...) {}
private:
  std::string m_name;
};
}  // namespace Elements
#endif

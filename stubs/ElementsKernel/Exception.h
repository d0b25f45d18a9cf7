// Stand-in for Elements' ElementsKernel/Exception.h (the library is not installed here).
#ifndef VP_ELEMENTS_EXCEPTION_H
#define VP_ELEMENTS_EXCEPTION_H
#include "vp_std.h"
#include "AlexandriaKernel/memory_tools.h"
#include <exception>
#include <sstream>
#include <string>
#include <type_traits>
#include <cstdio>
namespace Elements {
enum class ExitCode { OK = 0, NOT_OK = 1, USAGE = 64, DATAERR = 65, CONFIG = 78, SOFTWARE = 70 };
class Exception : public std::exception {
public:
  explicit Exception(const ExitCode e = ExitCode::NOT_OK) : m_code(e) {}
  explicit Exception(const std::string& s, const ExitCode e = ExitCode::NOT_OK) : m_msg(s), m_code(e) {}
  template <typename... A>
  explicit Exception(const char* fmt, const A&... a) : m_code(ExitCode::NOT_OK) {
    if constexpr (sizeof...(A) == 0) {
      m_msg = fmt;
    } else {
      char buf[1024];
      std::snprintf(buf, sizeof buf, fmt, a...);
      m_msg = buf;
    }
  }
  Exception(const Exception&) = default;
  Exception(Exception&&) = default;
  Exception& operator=(const Exception&) = default;
  virtual ~Exception() = default;
  const char* what() const noexcept override { return m_msg.c_str(); }
  ExitCode exitCode() const noexcept { return m_code; }
  void appendMessage(const std::string& s) { m_msg += s; }
  template <typename T>
  void append(const T& t) { std::ostringstream o; o << t; m_msg += o.str(); }
protected:
  std::string m_msg;
  ExitCode m_code;
};
template <typename Ex, typename T,
          typename = std::enable_if_t<std::is_base_of<Exception, std::remove_reference_t<Ex>>::value>>
std::remove_reference_t<Ex>& operator<<(Ex&& ex, const T& t) { ex.append(t); return ex; }
}  // namespace Elements
#endif

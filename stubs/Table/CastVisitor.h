#ifndef VP_ALEX_TABLE_CASTVISITOR_H
#define VP_ALEX_TABLE_CASTVISITOR_H
#include <sstream>
#include "Table/Row.h"
namespace Euclid { namespace Table {
template <typename To>
class CastVisitor : public boost::static_visitor<To> {
public:
  template <typename From> To operator()(const From& v) const { return conv(v, 0); }
private:
  template <typename F> static auto conv(const F& v, int) -> decltype(static_cast<To>(v)) { return static_cast<To>(v); }
  static To conv(const std::string& s, int) { std::istringstream i(s); To t{}; i >> t; if (!i) throw Elements::Exception() << "Cannot convert " << s; return t; }
  template <typename F> static To conv(const F&, long) { throw Elements::Exception() << "Invalid conversion"; }
};
} }
#endif

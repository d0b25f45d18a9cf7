// Stand-in for Alexandria's StringUtils.h
#ifndef VP_ALEX_STRINGUTILS_H
#define VP_ALEX_STRINGUTILS_H
#include <string>
#include <sstream>
#include <vector>
#include <boost/algorithm/string.hpp>
namespace Euclid {
template <typename T>
std::vector<T> stringToVector(const std::string& str, const std::string& sep = ",") {
  std::vector<std::string> parts;
  std::vector<T> out;
  boost::split(parts, str, boost::is_any_of(sep));
  for (auto& p : parts) {
    boost::trim(p);
    if (p.empty()) continue;
    std::stringstream s(p);
    T t{};
    s >> t;
    out.push_back(t);
  }
  return out;
}
template <typename T> std::vector<T> split(const std::string& s, const std::string& sep = ",") { return stringToVector<T>(s, sep); }
template <typename I> std::string join(const std::string& sep, I b, I e) {
  std::ostringstream o;
  for (I i = b; i != e; ++i) { if (i != b) o << sep; o << *i; }
  return o.str();
}
}
#endif

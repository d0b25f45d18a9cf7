#ifndef VP_ALEX_POH_H
#define VP_ALEX_POH_H
#include "Configuration/Configuration.h"
#include <memory>
namespace Euclid { namespace Configuration {
class ProgramOptionsHelper {
public:
  static std::string wildcard(const std::string& n, const std::string& i = "*") { return n + "-" + i; }
  static std::set<std::string> findWildcardNames(const std::vector<std::string>& ns, const std::map<std::string, boost::program_options::variable_value>& v) {
    std::set<std::string> r;
    for (auto& p : v) for (auto& n : ns) if (p.first.compare(0, n.size() + 1, n + "-") == 0) r.insert(p.first.substr(n.size() + 1));
    return r;
  }
  static boost::program_options::option_description makeOptionDescription(const std::string& n, const boost::program_options::value_semantic* s, const std::string& d) {
    return boost::program_options::option_description(n.c_str(), s, d.c_str());
  }
};
} }
#endif

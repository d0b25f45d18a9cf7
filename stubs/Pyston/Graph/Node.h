#pragma once
#include <boost/any.hpp>
#include <boost/variant.hpp>
#include <map>
#include <memory>
#include <string>
namespace Pyston {
using Context = std::map<std::string, boost::any>;
using AttributeSet = std::map<std::string, boost::variant<bool, long, double>>;
template <typename T> struct Node { template <typename V> void visit(V&) const {} };
}

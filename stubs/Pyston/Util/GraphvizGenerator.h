#pragma once
#include <string>
namespace Pyston {
class GraphvizGenerator { public: explicit GraphvizGenerator(const std::string& n) : m_name(n) {} std::string str() const { return m_name; } private: std::string m_name; };
}

#ifndef VP_ELEMENTS_SYSTEM_H
#define VP_ELEMENTS_SYSTEM_H
#include <string>
namespace Elements { namespace System { inline const std::string& dummy() { static std::string s; return s; } 
inline std::string getEnv(const std::string& k) { const char* v = std::getenv(k.c_str()); return v ? v : ""; } } }
#endif

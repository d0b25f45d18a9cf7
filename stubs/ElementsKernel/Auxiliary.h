#ifndef VP_ELEMENTS_AUX_H
#define VP_ELEMENTS_AUX_H
#include <boost/filesystem.hpp>
namespace Elements { inline boost::filesystem::path getAuxiliaryPath(const std::string& n) { return boost::filesystem::path("/repo") / n; } }
#endif

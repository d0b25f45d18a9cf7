// Stand-in for Alexandria's memory_tools.h
#ifndef VP_ALEX_MEMORY_TOOLS_H
#define VP_ALEX_MEMORY_TOOLS_H
#include "vp_std.h"
#include <memory>
namespace Euclid {
using std::make_unique;
}
#endif

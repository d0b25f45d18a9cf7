#ifndef VP_ALEX_CONF_UTILS_H
#define VP_ALEX_CONF_UTILS_H
#include "Configuration/Configuration.h"
namespace Euclid { namespace Configuration { inline long getUniqueManagerId() { return ConfigManager::getUniqueManagerId(); } } }
#endif

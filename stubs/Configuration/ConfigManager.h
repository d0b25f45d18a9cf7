#include "Configuration/Configuration.h"

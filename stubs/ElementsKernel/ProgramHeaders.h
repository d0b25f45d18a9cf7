#pragma once
#include "ElementsKernel/Main.h"

#pragma once
#define SOURCEXTRACTORPLUSPLUS_VERSION_STRING "0"

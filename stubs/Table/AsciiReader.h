#ifndef VP_ALEX_TABLE_ASCIIREADER_H
#define VP_ALEX_TABLE_ASCIIREADER_H
#include <map>
#include "Table/TableReader.h"
namespace Euclid { namespace Table {
class AsciiReader : public TableReader { public: using TableReader::TableReader; };
} }
#endif

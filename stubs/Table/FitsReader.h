#ifndef VP_ALEX_TABLE_FITSREADER_H
#define VP_ALEX_TABLE_FITSREADER_H
#include <map>
#include "Table/TableReader.h"
namespace Euclid { namespace Table {
class FitsReader : public TableReader { public: using TableReader::TableReader; FitsReader(const std::string& f, int) : TableReader(f) {} };
} }
#endif

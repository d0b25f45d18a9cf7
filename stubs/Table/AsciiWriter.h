#ifndef VP_ALEX_TABLE_ASCIIWRITER_H
#define VP_ALEX_TABLE_ASCIIWRITER_H
#include <iostream>
#include "Table/Table.h"
namespace Euclid {
namespace Table {
class AsciiWriter : public TableWriter {
public:
  explicit AsciiWriter(const std::string& f) : m_file(f) {}
  explicit AsciiWriter(std::ostream&) : m_file("-") {}
  void addData(const Table& t) override { if (writerHook()) writerHook()({m_file, "", false, &t}); }
private:
  std::string m_file;
};
}
}
#endif

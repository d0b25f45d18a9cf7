#ifndef VP_ALEX_TABLE_FITSWRITER_H
#define VP_ALEX_TABLE_FITSWRITER_H
#include "Table/Table.h"
namespace Euclid {
namespace Table {
class FitsWriter : public TableWriter {
public:
  enum class Format { ASCII, BINARY };
  explicit FitsWriter(const std::string& f, bool override_flag = false) : m_file(f), m_create(override_flag) {}
  FitsWriter& setHduName(const std::string& n) { m_hdu = n; return *this; }
  FitsWriter& setFormat(Format) { return *this; }
  void addData(const Table& t) override { if (writerHook()) writerHook()({m_file, m_hdu, m_create, &t}); m_create = false; }
private:
  std::string m_file, m_hdu;
  bool m_create;
};
}
}
#endif

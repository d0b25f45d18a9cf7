#ifndef VP_ALEX_TABLE_TABLEREADER_H
#define VP_ALEX_TABLE_TABLEREADER_H
#include "Table/Table.h"
namespace Euclid {
namespace Table {
/// Tables that readers hand out are registered by name in this process.
inline std::map<std::string, std::shared_ptr<Table>>& readerTables() { static std::map<std::string, std::shared_ptr<Table>> m; return m; }
class TableReader {
public:
  explicit TableReader(const std::string& f) : m_file(f) {}
  virtual ~TableReader() = default;
  virtual Table read(long = -1) {
    auto i = readerTables().find(m_file);
    if (i == readerTables().end()) throw Elements::Exception() << "Cannot open " << m_file;
    return *i->second;
  }
protected:
  std::string m_file;
};
}
}
#endif

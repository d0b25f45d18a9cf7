#ifndef VP_ALEX_TABLE_TABLE_H
#define VP_ALEX_TABLE_TABLE_H
#include <functional>
#include "Table/Row.h"
namespace Euclid {
namespace Table {
class Table {
public:
  using const_iterator = std::vector<Row>::const_iterator;
  explicit Table(std::vector<Row> rows) : m_rows(std::move(rows)) { if (m_rows.empty()) throw Elements::Exception() << "Construction of empty table"; }
  std::shared_ptr<ColumnInfo> getColumnInfo() const { return m_rows.front().getColumnInfo(); }
  size_t size() const { return m_rows.size(); }
  const Row& operator[](size_t i) const { return m_rows.at(i); }
  const_iterator begin() const { return m_rows.begin(); }
  const_iterator end() const { return m_rows.end(); }
private:
  std::vector<Row> m_rows;
};
/// Every writer reports here: (destination, part name, rows)
struct WriterEvent { std::string file; std::string hdu; bool create; const Table* table; };
inline std::function<void(const WriterEvent&)>& writerHook() { static std::function<void(const WriterEvent&)> f; return f; }
class TableWriter {
public:
  virtual ~TableWriter() = default;
  virtual void addComment(const std::string&) {}
  virtual void addData(const Table& t) = 0;
};
}
}
#endif

// Stand-in for Alexandria's Table module: rows, columns, tables and writers that record what they are given.
#ifndef VP_ALEX_TABLE_ROW_H
#define VP_ALEX_TABLE_ROW_H
#include "vp_std.h"
#include "AlexandriaKernel/memory_tools.h"
#include <cstdint>
#include <memory>
#include <string>
#include <typeindex>
#include <vector>
#include <boost/variant.hpp>
#include "ElementsKernel/Exception.h"
#include "NdArray/NdArray.h"
namespace Euclid {
namespace Table {
struct ColumnDescription {
  ColumnDescription(const std::string& n, std::type_index t = typeid(std::string), const std::string& u = "", const std::string& d = "")
      : name(n), type(t), unit(u), description(d) {}
  std::string name;
  std::type_index type;
  std::string unit;
  std::string description;
  bool operator==(const ColumnDescription& o) const { return name == o.name && type == o.type && unit == o.unit; }
};
class ColumnInfo {
public:
  using info_type = ColumnDescription;
  explicit ColumnInfo(std::vector<info_type> l) : m_info(std::move(l)) {
    for (size_t i = 0; i < m_info.size(); ++i)
      for (size_t j = i + 1; j < m_info.size(); ++j)
        if (m_info[i].name == m_info[j].name) throw Elements::Exception() << "Duplicate column name " << m_info[i].name;
  }
  size_t size() const { return m_info.size(); }
  const info_type& getDescription(size_t i) const { return m_info.at(i); }
  std::unique_ptr<size_t> find(const std::string& n) const {
    for (size_t i = 0; i < m_info.size(); ++i) if (m_info[i].name == n) return std::unique_ptr<size_t>(new size_t(i));
    return nullptr;
  }
  bool operator==(const ColumnInfo& o) const { return m_info == o.m_info; }
private:
  std::vector<info_type> m_info;
};
class Row {
public:
  using cell_type = boost::variant<bool, int32_t, int64_t, float, double, std::string, std::vector<bool>, std::vector<int32_t>,
                                   std::vector<int64_t>, std::vector<float>, std::vector<double>, NdArray::NdArray<int32_t>,
                                   NdArray::NdArray<int64_t>, NdArray::NdArray<float>, NdArray::NdArray<double>>;
  Row(std::vector<cell_type> v, std::shared_ptr<ColumnInfo> c) : m_values(std::move(v)), m_info(std::move(c)) {
    if (!m_info || m_values.size() != m_info->size()) throw Elements::Exception() << "Wrong number of row values";
  }
  std::shared_ptr<ColumnInfo> getColumnInfo() const { return m_info; }
  size_t size() const { return m_values.size(); }
  const cell_type& operator[](size_t i) const { return m_values.at(i); }
  const cell_type& operator[](const std::string& n) const {
    auto i = m_info->find(n);
    if (!i) throw Elements::Exception() << "Row does not contain column " << n;
    return m_values.at(*i);
  }
private:
  std::vector<cell_type> m_values;
  std::shared_ptr<ColumnInfo> m_info;
};
}
}
#endif

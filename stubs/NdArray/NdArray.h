// Stand-in for Alexandria's NdArray (row-major, attribute names optional).
#ifndef VP_ALEX_NDARRAY_H
#define VP_ALEX_NDARRAY_H
#include "vp_std.h"
#include "AlexandriaKernel/memory_tools.h"
#include <cstddef>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>
#include <vector>
namespace Euclid {
namespace NdArray {
template <typename T>
class NdArray {
public:
  using iterator = typename std::vector<T>::iterator;
  using const_iterator = typename std::vector<T>::const_iterator;
  NdArray(const std::vector<size_t>& shape) : m_shape(shape), m_data(std::make_shared<std::vector<T>>(count(shape))) {}
  NdArray(std::initializer_list<size_t> shape) : NdArray(std::vector<size_t>(shape)) {}
  NdArray(const std::vector<size_t>& shape, const std::vector<T>& d) : m_shape(shape), m_data(std::make_shared<std::vector<T>>(d)) { check(); }
  NdArray(const std::vector<size_t>& shape, std::vector<T>&& d) : m_shape(shape), m_data(std::make_shared<std::vector<T>>(std::move(d))) { check(); }
  template <typename I>
  NdArray(const std::vector<size_t>& shape, I b, I e) : m_shape(shape), m_data(std::make_shared<std::vector<T>>(b, e)) { check(); }
  NdArray(const std::vector<size_t>& shape, const std::vector<std::string>& attrs) : m_shape(shape), m_attrs(attrs) {
    m_shape.push_back(attrs.size());
    m_data = std::make_shared<std::vector<T>>(count(m_shape));
  }
  NdArray(const NdArray&) = default;
  NdArray(NdArray&&) = default;
  NdArray& operator=(const NdArray&) = default;
  NdArray copy() const { NdArray r(*this); r.m_data = std::make_shared<std::vector<T>>(*m_data); return r; }
  const std::vector<size_t>& shape() const { return m_shape; }
  size_t size() const { return m_data->size(); }
  T& at(const std::vector<size_t>& c) { return m_data->at(off(c)); }
  const T& at(const std::vector<size_t>& c) const { return m_data->at(off(c)); }
  template <typename... D> T& at(size_t i, D... d) { return at(std::vector<size_t>{i, static_cast<size_t>(d)...}); }
  template <typename... D> const T& at(size_t i, D... d) const { return at(std::vector<size_t>{i, static_cast<size_t>(d)...}); }
  iterator begin() { return m_data->begin(); }
  iterator end() { return m_data->end(); }
  const_iterator begin() const { return m_data->begin(); }
  const_iterator end() const { return m_data->end(); }
  const std::vector<std::string>& attributes() const { return m_attrs; }
private:
  static size_t count(const std::vector<size_t>& s) { size_t n = 1; for (auto v : s) n *= v; return n; }
  void check() const { if (count(m_shape) != m_data->size()) throw std::invalid_argument("NdArray: shape does not match the data"); }
  size_t off(const std::vector<size_t>& c) const {
    if (c.size() != m_shape.size()) throw std::out_of_range("NdArray: wrong number of coordinates");
    size_t o = 0;
    for (size_t i = 0; i < c.size(); ++i) { if (c[i] >= m_shape[i]) throw std::out_of_range("NdArray: coordinate"); o = o * m_shape[i] + c[i]; }
    return o;
  }
  std::vector<size_t> m_shape;
  std::vector<std::string> m_attrs;
  std::shared_ptr<std::vector<T>> m_data;
};
}
}
#endif

// Stand-in for Alexandria's Histogram
#ifndef VP_ALEX_HISTOGRAM_H
#define VP_ALEX_HISTOGRAM_H
#include <cmath>
#include <cstddef>
#include <limits>
#include <tuple>
#include <utility>
#include <vector>
namespace Euclid { namespace Histogram {
template <typename V>
class BinStrategy {
public:
  virtual ~BinStrategy() = default;
  virtual ssize_t getBinIndex(V value) const = 0;
  virtual V getEdge(size_t i) const = 0;
  virtual std::pair<V, V> getBinEdges(size_t i) const { return {getEdge(i), getEdge(i + 1)}; }
  virtual V getBin(size_t i) const { auto e = getBinEdges(i); return (e.first + e.second) / 2; }
  size_t getBinCount() const { return m_nbins; }
protected:
  size_t m_nbins = 0;
};
template <typename V, typename W>
class Histogram {
public:
  template <typename I, typename B>
  Histogram(I b, I e, B bin) {
    bin.computeBins(b, e);
    m_edges_n = bin.getBinCount();
    m_counts.assign(m_edges_n, W(0));
    for (size_t i = 0; i < m_edges_n; ++i) { m_edges.push_back(bin.getBinEdges(i)); m_centers.push_back(bin.getBin(i)); }
    for (; b != e; ++b) {
      auto i = bin.getBinIndex(*b);
      if (i >= 0 && static_cast<size_t>(i) < m_edges_n) m_counts[i] += 1;
    }
    m_lo = 0; m_hi = m_edges_n;
  }
  std::pair<V, V> getBinEdges(size_t i) const { return m_edges.at(i); }
  void clip(V lo, V hi) {
    while (m_lo < m_hi && m_edges[m_lo].second <= lo) ++m_lo;
    while (m_hi > m_lo && m_edges[m_hi - 1].first >= hi) --m_hi;
  }
  std::tuple<V, V, V> getStats() const {
    size_t only = 0, occupied = 0;
    for (size_t i = m_lo; i < m_hi; ++i) if (m_counts[i] != 0) { only = i; ++occupied; }
    if (occupied == 1) return std::make_tuple(m_centers[only], m_centers[only], V(0));
    V n = 0, s = 0, s2 = 0;
    for (size_t i = m_lo; i < m_hi; ++i) { n += m_counts[i]; s += m_counts[i] * m_centers[i]; s2 += m_counts[i] * m_centers[i] * m_centers[i]; }
    if (n == 0) return std::make_tuple(V(0), V(0), V(0));
    V mean = s / n, var = s2 / n - mean * mean, acc = 0, med = mean;
    for (size_t i = m_lo; i < m_hi; ++i) {
      if (acc + m_counts[i] >= n / 2) { med = m_edges[i].first + (n / 2 - acc) / m_counts[i] * (m_edges[i].second - m_edges[i].first); break; }
      acc += m_counts[i];
    }
    return std::make_tuple(mean, med, std::sqrt(var > 0 ? var : V(0)));
  }
private:
  size_t m_edges_n, m_lo, m_hi;
  std::vector<std::pair<V, V>> m_edges;
  std::vector<V> m_centers;
  std::vector<W> m_counts;
};
} }
#endif

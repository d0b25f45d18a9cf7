// Stand-in for Alexandria's counting Semaphore.
#ifndef VP_ALEX_SEMAPHORE_H
#define VP_ALEX_SEMAPHORE_H
#include "vp_std.h"
#include <condition_variable>
#include <mutex>
namespace Euclid {
class Semaphore {
public:
  explicit Semaphore(unsigned i = 0) : m_count(i) {}
  virtual ~Semaphore() = default;
  void acquire() { std::unique_lock<std::mutex> l(m_mutex); m_cv.wait(l, [this]() { return m_count > 0; }); --m_count; }
  void release() { { std::lock_guard<std::mutex> l(m_mutex); ++m_count; } m_cv.notify_one(); }
  bool try_acquire() { std::lock_guard<std::mutex> l(m_mutex); if (m_count == 0) return false; --m_count; return true; }
private:
  unsigned m_count;
  std::mutex m_mutex;
  std::condition_variable m_cv;
};
}
#endif

// Stand-in for Alexandria's ThreadPool, following the documented behaviour of AlexandriaKernel 2.32:
// workers poll a queue under a mutex and flag themselves as sleeping while idle; the first exception stops the pool.
// With zero threads the task runs in the calling thread.
#ifndef VP_ALEX_THREADPOOL_H
#define VP_ALEX_THREADPOOL_H
#include "vp_std.h"
#include "AlexandriaKernel/memory_tools.h"
#include <atomic>
#include <chrono>
#include <deque>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace Euclid {
extern "C" void vp_pool_point(const char*) __attribute__((weak));
class ThreadPool {
public:
  using Task = std::function<void(void)>;
  explicit ThreadPool(unsigned n = std::thread::hardware_concurrency(), unsigned sleep_ms = 50) : m_sleep(sleep_ms) {
    for (unsigned i = 0; i < n; ++i) {
      m_workers.emplace_back(new Worker);
    }
    for (auto& w : m_workers) {
      Worker* p = w.get();
      p->thread = std::thread([this, p]() { loop(*p); });
    }
  }
  ThreadPool(const ThreadPool&) = delete;
  virtual ~ThreadPool() {
    for (auto& w : m_workers) w->run = false;
    for (auto& w : m_workers) if (w->thread.joinable()) w->thread.join();
  }
  void submit(Task t) {
    if (m_workers.empty()) { t(); return; }
    point("pool.submit");
    std::lock_guard<std::mutex> l(m_mutex);
    m_queue.emplace_back(std::move(t));
  }
  void block(bool throw_on_exception = true) {
    waitWhile([this]() { return queued() > 0 && activeThreads() > 0 && !failed(); });
    waitWhile([this]() { return running() > 0 && !failed(); });
    if (failed()) {
      // the workers stop by themselves after a failure
      waitWhile([this]() { return activeThreads() > 0; });
    }
    if (throw_on_exception) checkForException(true);
  }
  bool checkForException(bool rethrow = false) {
    std::exception_ptr e;
    { std::lock_guard<std::mutex> l(m_ex_mutex); e = m_exception; }
    if (e && rethrow) std::rethrow_exception(e);
    return static_cast<bool>(e);
  }
  size_t queued() const { point("pool.queued"); std::lock_guard<std::mutex> l(m_mutex); return m_queue.size(); }
  size_t running() const {
    point("pool.running");
    size_t n = 0;
    for (auto& w : m_workers) if (!w->sleeping && !w->done) ++n;
    return n;
  }
  size_t activeThreads() const {
    point("pool.active");
    size_t n = 0;
    for (auto& w : m_workers) if (!w->done) ++n;
    return n;
  }
private:
  struct Worker {
    std::thread thread;
    std::atomic<bool> run{true}, sleeping{false}, done{false};
  };
  static void point(const char* n) { if (vp_pool_point) vp_pool_point(n); }
  bool failed() { std::lock_guard<std::mutex> l(m_ex_mutex); return static_cast<bool>(m_exception); }
  template <typename F> void waitWhile(F f) { while (f()) std::this_thread::sleep_for(std::chrono::milliseconds(m_sleep)); }
  void loop(Worker& w) {
    while (w.run && !failed()) {
      Task t;
      point("worker.poll");
      {
        std::lock_guard<std::mutex> l(m_mutex);
        if (!m_queue.empty()) { t = std::move(m_queue.front()); m_queue.pop_front(); }
      }
      if (t) {
        point("worker.popped");
        try { t(); }
        catch (...) { std::lock_guard<std::mutex> l(m_ex_mutex); if (!m_exception) m_exception = std::current_exception(); }
        t = Task();
        point("worker.ran");
      } else {
        w.sleeping = true;
        std::this_thread::sleep_for(std::chrono::milliseconds(m_sleep));
        w.sleeping = false;
      }
    }
    w.done = true;
  }
  unsigned m_sleep;
  mutable std::mutex m_mutex;
  std::mutex m_ex_mutex;
  std::exception_ptr m_exception;
  std::deque<Task> m_queue;
  std::vector<std::unique_ptr<Worker>> m_workers;
};
}
#endif

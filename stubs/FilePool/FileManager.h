// Stand-in for Alexandria's FilePool: one handler per path; a write accessor excludes every other accessor of the path.
#ifndef VP_ALEX_FILEMANAGER_H
#define VP_ALEX_FILEMANAGER_H
#include "vp_std.h"
#include "AlexandriaKernel/memory_tools.h"
#include <boost/filesystem.hpp>
#include <map>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <vector>
namespace Euclid { namespace FilePool {
template <typename T>
struct FileAccessor {
  FileAccessor(T&& fd, std::function<void(T&&)> back) : m_fd(std::move(fd)), m_back(std::move(back)) {}
  ~FileAccessor() { m_back(std::move(m_fd)); }
  FileAccessor(const FileAccessor&) = delete;
  T m_fd;
  std::function<void(T&&)> m_back;
};
class FileHandler {
public:
  enum Mode { kRead = 0, kTryRead = 1, kWrite = 2, kTryWrite = 3 };
  explicit FileHandler(const boost::filesystem::path& p) : m_path(p) {}
  template <typename T>
  std::unique_ptr<FileAccessor<T>> getAccessor(Mode mode = kRead) {
    auto ro = pool<T>(false), rw = pool<T>(true);
    if (mode == kWrite || mode == kTryWrite) {
      auto l = std::make_shared<std::unique_lock<std::shared_timed_mutex>>(m_mutex);
      ro->clear();
      T fd = rw->empty() ? T(m_path, true) : take(*rw);
      return std::unique_ptr<FileAccessor<T>>(new FileAccessor<T>(std::move(fd), [l, rw](T&& f) { rw->emplace_back(std::move(f)); }));
    }
    auto l = std::make_shared<std::shared_lock<std::shared_timed_mutex>>(m_mutex);
    std::unique_lock<std::mutex> pl(m_pool_mutex);
    rw->clear();
    if (!ro->empty()) {
      T fd = take(*ro);
      pl.unlock();
      return std::unique_ptr<FileAccessor<T>>(new FileAccessor<T>(std::move(fd), back<T>(l, ro)));
    }
    pl.unlock();
    T fd(m_path, false);
    return std::unique_ptr<FileAccessor<T>>(new FileAccessor<T>(std::move(fd), back<T>(l, ro)));
  }
private:
  template <typename T> using Pool = std::vector<T>;
  template <typename T> static T take(Pool<T>& p) { T t(std::move(p.back())); p.pop_back(); return t; }
  template <typename T> std::function<void(T&&)> back(std::shared_ptr<std::shared_lock<std::shared_timed_mutex>> l, std::shared_ptr<Pool<T>> p) {
    return [this, l, p](T&& f) { std::lock_guard<std::mutex> pl(m_pool_mutex); p->emplace_back(std::move(f)); };
  }
  template <typename T> std::shared_ptr<Pool<T>> pool(bool w) {
    std::lock_guard<std::mutex> l(m_pool_mutex);
    auto& p = m_pools[w];
    if (!p) p = std::make_shared<Pool<T>>();
    return std::static_pointer_cast<Pool<T>>(p);
  }
  boost::filesystem::path m_path;
  std::shared_timed_mutex m_mutex;
  std::mutex m_pool_mutex;
  std::map<bool, std::shared_ptr<void>> m_pools;
};
class FileManager {
public:
  static std::shared_ptr<FileManager> getDefault() { static auto m = std::make_shared<FileManager>(); return m; }
  std::shared_ptr<FileHandler> getFileHandler(const boost::filesystem::path& p) {
    std::lock_guard<std::mutex> l(m_mutex);
    auto key = boost::filesystem::weakly_canonical(p).native();
    auto h = m_handlers[key].lock();
    if (!h) { h = std::make_shared<FileHandler>(p); m_handlers[key] = h; }
    return h;
  }
private:
  std::mutex m_mutex;
  std::map<std::string, std::weak_ptr<FileHandler>> m_handlers;
};
} }
#endif

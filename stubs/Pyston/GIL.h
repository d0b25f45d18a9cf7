#pragma once
#include <boost/python.hpp>
#include <atomic>
namespace Pyston {
class GILLocker {
public:
  GILLocker() : m_s(PyGILState_Ensure()) { ++count(); }
  ~GILLocker() { PyGILState_Release(m_s); }
  static long getLockCount() { return count(); }
private:
  static std::atomic<long>& count() { static std::atomic<long> n{0}; return n; }
  PyGILState_STATE m_s;
};
class GILReleaser { public: GILReleaser() : m_s(PyEval_SaveThread()) {} ~GILReleaser() { PyEval_RestoreThread(m_s); } private: PyThreadState* m_s; };
class SaveThread { PyThreadState* m_s; public: SaveThread() : m_s(PyEval_SaveThread()) {} ~SaveThread() { PyEval_RestoreThread(m_s); } };
}

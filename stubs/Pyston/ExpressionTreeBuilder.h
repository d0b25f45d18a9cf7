// Stand-in for Pyston: never compiles anything, every call goes to the Python function.
#pragma once
#include <functional>
#include <vector>
#include "Pyston/Exceptions.h"
#include "Pyston/GIL.h"
#include "Pyston/Graph/Node.h"
namespace Pyston {
using WorldFunction = std::function<double(const Context&, double, double)>;
inline std::map<std::string, WorldFunction>& functions() { static std::map<std::string, WorldFunction> m; return m; }
inline const Context*& currentContext() { static thread_local const Context* c = nullptr; return c; }
namespace detail {
namespace py = boost::python;
inline py::object toPython(const AttributeSet& a) {
  py::object o = py::import("types").attr("SimpleNamespace")();
  for (auto& p : a) {
    if (auto b = boost::get<bool>(&p.second)) o.attr(p.first.c_str()) = *b;
    else if (auto l = boost::get<long>(&p.second)) o.attr(p.first.c_str()) = *l;
    else o.attr(p.first.c_str()) = boost::get<double>(p.second);
  }
  return o;
}
inline void add(py::list& l, double d) { l.append(d); }
inline void add(py::list& l, const AttributeSet& a) { l.append(toPython(a)); }
inline void add(py::list& l, const std::vector<double>& v) { for (auto d : v) l.append(d); }
struct Held {  // the function goes with the interpreter locked
  py::object f;
  explicit Held(py::object o) : f(o) {}
  ~Held() { if (!Py_IsInitialized()) { Py_INCREF(f.ptr()); return; } GILLocker l; f = py::object(); }
};
}
template <typename S> class ExpressionTree;
template <typename R, typename... A>
class ExpressionTree<R(A...)> {
public:
  explicit ExpressionTree(boost::python::object f) : m_held(std::make_shared<detail::Held>(f)), m_reason(std::make_shared<Exception>(std::string("not compiled"))) {}
  bool isCompiled() const { return false; }
  std::shared_ptr<Exception> reason() const { return m_reason; }
  std::shared_ptr<Node<R>> getTree() const { return std::make_shared<Node<R>>(); }
  R operator()(A... a) const { return call(nullptr, a...); }
  R operator()(const Context& c, A... a) const { return call(&c, a...); }
private:
  R call(const Context* c, A... a) const {
    GILLocker lock;
    auto before = currentContext();
    currentContext() = c;
    try {
      boost::python::list l;
      int unused[] = {0, (detail::add(l, a), 0)...};
      (void) unused;
      boost::python::object r(boost::python::handle<>(PyObject_CallObject(m_held->f.ptr(), boost::python::tuple(l).ptr())));
      R v = boost::python::extract<R>(boost::python::object(boost::python::handle<>(PyNumber_Float(r.ptr()))));
      currentContext() = before;
      return v;
    } catch (const boost::python::error_already_set&) {
      currentContext() = before;
      throw Exception();
    }
  }
  std::shared_ptr<detail::Held> m_held;
  std::shared_ptr<Exception> m_reason;
};
class ExpressionTreeBuilder {
public:
  template <typename S, typename F> void registerFunction(const std::string& n, F f) { functions()[n] = f; }
  template <typename S, typename... A> ExpressionTree<S> build(const boost::python::object& f, A&&...) const { return ExpressionTree<S>(f); }
};
}

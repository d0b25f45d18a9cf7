// Stand-in for Pyston: carries a Python error as a C++ exception.
#pragma once
#include <boost/python.hpp>
#include "ElementsKernel/Exception.h"
#include "ElementsKernel/Logging.h"
namespace log4cpp { struct Priority { enum Value { ERROR = 300, DEBUG = 700 }; }; }
namespace Pyston {
class Exception : public Elements::Exception {
public:
  Exception() {
    PyObject *t = nullptr, *v = nullptr, *b = nullptr;
    PyErr_Fetch(&t, &v, &b);
    PyObject* s = v ? PyObject_Str(v) : nullptr;
    const char* c = s ? PyUnicode_AsUTF8(s) : nullptr;
    m_msg = c ? c : "Python error";
    Py_XDECREF(s); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
    PyErr_Clear();
  }
  explicit Exception(const std::string& m) : Elements::Exception(m) {}
  const Exception& log(log4cpp::Priority::Value p, Elements::Logging& l) const {
    if (p <= log4cpp::Priority::ERROR) l.error() << what(); else l.debug() << what();
    return *this;
  }
};
}

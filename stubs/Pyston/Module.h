#pragma once
#include "Pyston/ExpressionTreeBuilder.h"
namespace Pyston {
namespace detail {
inline PyObject* world(const char* name, PyObject* args) {
  double x, y;
  if (!PyArg_ParseTuple(args, "dd", &x, &y)) return nullptr;
  auto f = functions().find(name);
  if (f == functions().end() || !currentContext()) { PyErr_SetString(PyExc_RuntimeError, "no coordinate system here"); return nullptr; }
  try { return PyFloat_FromDouble(f->second(*currentContext(), x, y)); }
  catch (const std::exception& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); return nullptr; }
}
inline PyObject* alpha(PyObject*, PyObject* a) { return world("image_to_world_alpha", a); }
inline PyObject* delta(PyObject*, PyObject* a) { return world("image_to_world_delta", a); }
inline PyObject* initModule() {
  static PyMethodDef methods[] = {{"image_to_world_alpha", alpha, METH_VARARGS, ""}, {"image_to_world_delta", delta, METH_VARARGS, ""}, {nullptr, nullptr, 0, nullptr}};
  static PyModuleDef def = {PyModuleDef_HEAD_INIT, "pyston", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr};
  return PyModule_Create(&def);
}
}
}
#define PYSTON_MODULE_INIT Pyston::detail::initModule

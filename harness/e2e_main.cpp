// The real program, with its main callable; the extension module of the program is part of this executable.
#include <boost/python.hpp>
#include "ElementsKernel/Main.h"
extern "C" PyObject* PyInit__SourceXtractorPy();
static int registered = PyImport_AppendInittab("_SourceXtractorPy", &PyInit__SourceXtractorPy);
#define main se_main
#include "src/program/SourceXtractor.cpp"

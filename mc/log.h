#pragma once
#include <Python.h>
void sut_logger();
void sut_log(int id, int level);
void sut_setup();
PyObject * sut_enable(PyObject * args);
PyObject * sut_disable(PyObject * args);
void sut_cleanup();
bool sut_active();

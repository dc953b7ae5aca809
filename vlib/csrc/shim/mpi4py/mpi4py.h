#ifndef SIM_MPI4PY_H
#define SIM_MPI4PY_H
#include <Python.h>
#include <mpi.h>
static int import_mpi4py(void) { return 0; }
static MPI_Comm *PyMPIComm_Get(PyObject *o) {
    PyObject *h = PyObject_GetAttrString(o, "_simh");
    long v;
    if (!h) return NULL;
    v = PyLong_AsLong(h);
    Py_DECREF(h);
    return simmpi_handle_slot((int)v);
}
#endif

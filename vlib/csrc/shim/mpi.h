/* Interface of the simulated MPI (vlib/csrc/simmpi.c + vlib/simmpi.py). */
#ifndef SIMMPI_H
#define SIMMPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
typedef long MPI_Count;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int _cancelled; size_t _ucount; } MPI_Status;

#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 16
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void*)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_COMM_NULL ((MPI_Comm)-1)
#define MPI_COMM_WORLD ((MPI_Comm)0)
#define MPI_REQUEST_NULL ((MPI_Request)-1)
#define MPI_DATATYPE_NULL ((MPI_Datatype)-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ORDER_C 56
#define MPI_ORDER_FORTRAN 57
#define MPI_TAG_UB 1
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

#define MPI_BYTE 1
#define MPI_CHAR 2
#define MPI_INT 3
#define MPI_LONG 4
#define MPI_LONG_LONG 5
#define MPI_LONG_LONG_INT 5
#define MPI_INT64_T 6
#define MPI_FLOAT 7
#define MPI_DOUBLE 8
#define MPI_UNSIGNED 9
#define MPI_UNSIGNED_LONG 10
#define MPI_UINT64_T 11
#define MPI_INT32_T 12
#define MPI_UINT8_T 13
#define MPI_C_BOOL 14
#define MPI_UNSIGNED_CHAR 15
#define MPI_SHORT 16
#define MPI_AINT 17
#define MPI_INT8_T 18
#define MPI_UINT32_T 19

#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6

int MPI_Initialized(int *flag);
int MPI_Query_thread(int *provided);
int MPI_Comm_rank(MPI_Comm comm, int *rank);
int MPI_Comm_size(MPI_Comm comm, int *size);
int MPI_Comm_get_attr(MPI_Comm comm, int keyval, void *attr, int *flag);
int MPI_Barrier(MPI_Comm comm);
int MPI_Abort(MPI_Comm comm, int code);
int MPI_Isend(const void *buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm, MPI_Request *req);
int MPI_Issend(const void *buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm, MPI_Request *req);
int MPI_Irecv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request *req);
int MPI_Send(const void *buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm);
int MPI_Ssend(const void *buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm);
int MPI_Recv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status *st);
int MPI_Sendrecv(const void *sb, int sc, MPI_Datatype stt, int dest, int stag, void *rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status *st);
int MPI_Wait(MPI_Request *req, MPI_Status *st);
int MPI_Waitall(int n, MPI_Request *req, MPI_Status *st);
int MPI_Waitany(int n, MPI_Request *req, int *index, MPI_Status *st);
int MPI_Test(MPI_Request *req, int *flag, MPI_Status *st);
int MPI_Testall(int n, MPI_Request *req, int *flag, MPI_Status *st);
int MPI_Request_free(MPI_Request *req);
int MPI_Cancel(MPI_Request *req);
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *count);
int MPI_Type_size(MPI_Datatype t, int *size);
int MPI_Type_create_subarray(int ndims, const int sizes[], const int subsizes[], const int starts[], int order, MPI_Datatype old, MPI_Datatype *newtype);
int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype *newtype);
int MPI_Type_vector(int count, int blocklength, int stride, MPI_Datatype old, MPI_Datatype *newtype);
int MPI_Type_commit(MPI_Datatype *t);
int MPI_Type_free(MPI_Datatype *t);
int MPI_Bcast(void *buf, int count, MPI_Datatype t, int root, MPI_Comm comm);
int MPI_Allreduce(const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, MPI_Comm comm);
double MPI_Wtime(void);

MPI_Comm *simmpi_handle_slot(int h);
#ifdef __cplusplus
}
#endif
#endif

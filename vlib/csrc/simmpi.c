/* C entry points of the simulated MPI.  Everything except datatype handling
 * is forwarded to callbacks registered by vlib/simmpi.py. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <mpi.h>

/* ---- datatypes: a list of contiguous byte runs ---- */
typedef struct { long off, len; } Run;
typedef struct { int used, nruns; long size, extent; Run *runs; } Type;
static Type *types; static int ntypes, captypes;
#define FIRST 64
static long base_size(int t) {
    switch (t) {
    case MPI_BYTE: case MPI_CHAR: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_UNSIGNED_CHAR: case MPI_INT8_T: return 1;
    case MPI_SHORT: return 2;
    case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_DOUBLE: case MPI_UNSIGNED_LONG: case MPI_UINT64_T: case MPI_AINT: return 8;
    }
    return -1;
}
static int new_type(void) {
    for (int i = 0; i < ntypes; i++) if (!types[i].used) { types[i].used = 1; types[i].nruns = 0; types[i].runs = NULL; return i + FIRST; }
    if (ntypes == captypes) { captypes = captypes ? 2*captypes : 256; types = realloc(types, captypes*sizeof(Type)); }
    memset(&types[ntypes], 0, sizeof(Type)); types[ntypes].used = 1;
    return FIRST + ntypes++;
}
static Type *get(int t) { int i = t - FIRST; return (i >= 0 && i < ntypes && types[i].used) ? &types[i] : NULL; }
static long t_size(int t) { Type *p = get(t); return p ? p->size : base_size(t); }
static long t_extent(int t) { Type *p = get(t); return p ? p->extent : base_size(t); }
static void add_run(Type *n, long off, long len, int *cap) {
    if (len <= 0) return;
    if (n->nruns && n->runs[n->nruns-1].off + n->runs[n->nruns-1].len == off) { n->runs[n->nruns-1].len += len; return; }
    if (n->nruns == *cap) { *cap = *cap ? 2 * *cap : 16; n->runs = realloc(n->runs, *cap * sizeof(Run)); }
    n->runs[n->nruns].off = off; n->runs[n->nruns].len = len; n->nruns++;
}
static void add_type(Type *n, long off, int old, int *cap) {
    Type *o = get(old);
    if (!o) { add_run(n, off, base_size(old), cap); return; }
    for (int i = 0; i < o->nruns; i++) add_run(n, off + o->runs[i].off, o->runs[i].len, cap);
}
int simmpi_type_ok(int t) { return t_size(t) >= 0; }
long simmpi_type_size(int t) { return t_size(t); }
long simmpi_type_extent(int t) { return t_extent(t); }
int simmpi_live_types(void) { int n = 0; for (int i = 0; i < ntypes; i++) n += types[i].used; return n; }

int MPI_Type_create_subarray(int nd, const int sizes[], const int sub[], const int st[], int order, MPI_Datatype old, MPI_Datatype *out) {
    if (order != MPI_ORDER_C || nd < 1 || nd > 4) return MPI_ERR_OTHER;
    for (int d = 0; d < nd; d++)   /* the standard: 1 <= subsize <= size, 0 <= start <= size - subsize */
        if (sub[d] < 1 || st[d] < 0 || st[d] + sub[d] > sizes[d]) { *out = MPI_DATATYPE_NULL; return MPI_ERR_OTHER; }
    int t = new_type(); Type tmp; memset(&tmp, 0, sizeof tmp); int cap = 0;
    long ex = t_extent(old), total = 1;
    int idx[4] = {0,0,0,0};
    for (int d = 0; d < nd; d++) total *= sizes[d];
    for (;;) {
        long off = 0;
        for (int d = 0; d < nd; d++) off = off*sizes[d] + st[d] + idx[d];
        add_type(&tmp, off*ex, old, &cap);
        int d = nd-1;
        while (d >= 0 && ++idx[d] == sub[d]) { idx[d] = 0; d--; }
        if (d < 0) break;
    }
    long sz = t_size(old); for (int d = 0; d < nd; d++) sz *= sub[d];
    tmp.used = 1; tmp.size = sz; tmp.extent = total*ex;
    types[t-FIRST] = tmp; *out = t; return 0;
}
int MPI_Type_vector(int count, int bl, int stride, MPI_Datatype old, MPI_Datatype *out) {
    int t = new_type(); Type tmp; memset(&tmp, 0, sizeof tmp); int cap = 0; long ex = t_extent(old);
    for (int i = 0; i < count; i++) for (int j = 0; j < bl; j++) add_type(&tmp, ((long)i*stride + j)*ex, old, &cap);
    tmp.used = 1; tmp.size = t_size(old)*count*bl; tmp.extent = ((long)(count-1)*stride + bl)*ex;
    types[t-FIRST] = tmp; *out = t; return 0;
}
int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype *out) { return MPI_Type_vector(count, 1, 1, old, out); }
int MPI_Type_commit(MPI_Datatype *t) { return get(*t) ? 0 : MPI_ERR_OTHER; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)t_size(t); return 0; }
/* a type freed while messages using it are pending stays usable for them: the
 * message layer resolves the byte runs when the operation is posted. */
int MPI_Type_free(MPI_Datatype *t) {
    Type *p = get(*t); if (!p) return MPI_ERR_OTHER;
    free(p->runs); p->runs = NULL; p->used = 0; *t = MPI_DATATYPE_NULL; return 0;
}
long simmpi_runs(int t, int count, long *out, long maxruns) {   /* out: off,len pairs; returns number of runs */
    Type tmp; memset(&tmp, 0, sizeof tmp); int cap = 0; long ex = t_extent(t), n;
    if (!get(t)) { add_run(&tmp, 0, base_size(t)*count, &cap); }
    else for (int i = 0; i < count; i++) add_type(&tmp, i*ex, t, &cap);
    n = tmp.nruns;
    if (out) for (long i = 0; i < n && i < maxruns; i++) { out[2*i] = tmp.runs[i].off; out[2*i+1] = tmp.runs[i].len; }
    free(tmp.runs); return n;
}
void simmpi_pack(const char *base, const long *runs, long n, char *out) { for (long i = 0; i < n; i++) { memcpy(out, base + runs[2*i], runs[2*i+1]); out += runs[2*i+1]; } }
long simmpi_unpack(char *base, const long *runs, long n, const char *in, long nbytes) {
    for (long i = 0; i < n && nbytes > 0; i++) { long l = runs[2*i+1] < nbytes ? runs[2*i+1] : nbytes; memcpy(base + runs[2*i], in, l); in += l; nbytes -= l; }
    return nbytes;
}

/* ---- callbacks ---- */
typedef int (*cb_rank_t)(int comm, int what);
typedef int (*cb_p2p_t)(int kind, void *buf, int count, int type, int peer, int tag, int comm, void *status);
typedef int (*cb_wait_t)(int n, int *reqs, int what, void *statuses);
typedef int (*cb_coll_t)(int kind, void *sb, void *rb, int count, int type, int op_or_root, int comm);
static cb_rank_t cb_rank; static cb_p2p_t cb_p2p; static cb_wait_t cb_wait; static cb_coll_t cb_coll;
void simmpi_register(cb_rank_t a, cb_p2p_t b, cb_wait_t c, cb_coll_t d) { cb_rank = a; cb_p2p = b; cb_wait = c; cb_coll = d; }

static MPI_Comm slots[1<<16];
MPI_Comm *simmpi_handle_slot(int h) { slots[h & 0xffff] = h; return &slots[h & 0xffff]; }

int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = cb_rank(c, 0); return 0; }
int MPI_Comm_size(MPI_Comm c, int *r) { *r = cb_rank(c, 1); return 0; }
static int tag_ub = 2147483647;
void simmpi_set_tag_ub(int v) { tag_ub = v; }
int MPI_Comm_get_attr(MPI_Comm c, int k, void *a, int *f) { (void)c; if (k == MPI_TAG_UB) { *(void**)a = &tag_ub; *f = 1; } else *f = 0; return 0; }
int MPI_Barrier(MPI_Comm c) { return cb_coll(0, 0, 0, 0, 0, 0, c); }
int MPI_Abort(MPI_Comm c, int code) { return cb_coll(1, 0, 0, code, 0, 0, c); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { return cb_coll(2, b, b, n, t, root, c); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return cb_coll(3, (void*)s, r, n, t, op, c); }
/* kinds: 0 Isend 1 Irecv 2 Issend */
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { *q = cb_p2p(0, (void*)b, n, t, d, tag, c, 0); return *q < -1 ? MPI_ERR_OTHER : 0; }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { *q = cb_p2p(2, (void*)b, n, t, d, tag, c, 0); return *q < -1 ? MPI_ERR_OTHER : 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) { *q = cb_p2p(1, b, n, t, s, tag, c, 0); return *q < -1 ? MPI_ERR_OTHER : 0; }
int MPI_Wait(MPI_Request *q, MPI_Status *st) { return cb_wait(1, q, 0, st); }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) { return cb_wait(n, q, 0, st); }
int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st) { *idx = cb_wait(n, q, 2, st); if (*idx < 0) *idx = MPI_UNDEFINED; return 0; }
int MPI_Test(MPI_Request *q, int *f, MPI_Status *st) { *f = cb_wait(1, q, 1, st); return 0; }
int MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *st) { *f = cb_wait(n, q, 1, st); return 0; }
int MPI_Request_free(MPI_Request *q) { int r = cb_wait(1, q, 3, 0); *q = MPI_REQUEST_NULL; return r; }
int MPI_Cancel(MPI_Request *q) { return cb_wait(1, q, 4, 0); }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request q; int r = MPI_Isend(b, n, t, d, tag, c, &q); return r ? r : MPI_Wait(&q, 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request q; int r = MPI_Issend(b, n, t, d, tag, c, &q); return r ? r : MPI_Wait(&q, 0); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { MPI_Request q; int r = MPI_Irecv(b, n, t, s, tag, c, &q); return r ? r : MPI_Wait(&q, st); }
int MPI_Sendrecv(const void *sb, int sc, MPI_Datatype stt, int d, int stag, void *rb, int rc, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) {
    MPI_Request q[2]; MPI_Irecv(rb, rc, rt, s, rtag, c, &q[0]); MPI_Isend(sb, sc, stt, d, stag, c, &q[1]);
    MPI_Wait(&q[1], 0); return MPI_Wait(&q[0], st);
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { long s = t_size(t); *n = s > 0 ? (int)(st->_ucount / s) : 0; return 0; }
double MPI_Wtime(void) { static double t = 0; return t += 1e-3; }

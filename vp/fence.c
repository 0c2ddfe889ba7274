/* A guard-page allocator for numpy array data, installed with PyDataMem_SetHandler.
   mode 0: the block ends at an inaccessible page (rounded up to 8 bytes); mode 1: it starts right after one.  The rest of the block's
   pages holds a canary, checked on free.  Freed blocks become inaccessible and stay so for the next QUAR frees.
   Fresh (non-calloc) memory is filled with `fill`. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <sys/mman.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>

static int mode = 0, fill = 0xff;
static unsigned long long n_alloc = 0, n_bytes = 0, n_free = 0;
#define PG 4096UL
#define QUAR 512
#define TAB (1u << 20)
typedef struct { char *p; char *base; size_t len, size; } blk;
static blk tab[TAB];
static struct { void *p; size_t len; } quar[QUAR];
static unsigned quar_i = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
#define GONE ((char *)1)
static unsigned slot(void *p) { uint64_t x = (uint64_t)p; x ^= x >> 17; x *= 0x9E3779B97F4A7C15ULL; return (unsigned)(x >> 44) & (TAB - 1); }
static blk *lookup(void *p) {
    for (unsigned i = slot(p), n = 0; n < TAB; i = (i + 1) & (TAB - 1), n++) {
        if (tab[i].p == p) return &tab[i];
        if (!tab[i].p) break;
    }
    return NULL;
}
static void *get(size_t size, int zero) {
    size_t want = (size + 7) & ~(size_t)7;
    if (!want) want = 8;
    size_t pages = (want + PG - 1) / PG * PG, len = pages + 2 * PG;
    char *b = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) return NULL;
    mprotect(b, PG, PROT_NONE);
    mprotect(b + PG + pages, PG, PROT_NONE);
    char *data = mode == 0 ? b + PG + pages - want : b + PG;
    memset(mode == 0 ? b + PG : data + want, 0xa7, pages - want);
    if (!zero) memset(data, fill, want);
    pthread_mutex_lock(&mu);
    unsigned i = slot(data);
    while (tab[i].p && tab[i].p != GONE) i = (i + 1) & (TAB - 1);
    tab[i].p = data; tab[i].base = b; tab[i].len = len; tab[i].size = size;
    n_alloc++; n_bytes += size;
    pthread_mutex_unlock(&mu);
    return data;
}
static void put(void *p) {
    if (!p) return;
    pthread_mutex_lock(&mu);
    blk *e = lookup(p);
    if (!e) { fprintf(stderr, "fence: an array was freed twice\n"); abort(); }
    size_t want = (e->size + 7) & ~(size_t)7; if (!want) want = 8;
    size_t pages = e->len - 2 * PG;
    unsigned char *pad = (unsigned char *)(mode == 0 ? e->base + PG : (char *)p + want);
    for (size_t i = 0; i < pages - want; i++)
        if (pad[i] != 0xa7) { fprintf(stderr, "fence: memory next to an array of %zu bytes was overwritten\n", e->size); abort(); }
    void *b = e->base; size_t len = e->len;
    e->p = GONE;
    mprotect(b, len, PROT_NONE);
    if (quar[quar_i].p) munmap(quar[quar_i].p, quar[quar_i].len);
    quar[quar_i].p = b; quar[quar_i].len = len; quar_i = (quar_i + 1) % QUAR;
    n_free++;
    pthread_mutex_unlock(&mu);
}
static void *f_malloc(void *ctx, size_t size) { return get(size, 0); }
static void *f_calloc(void *ctx, size_t n, size_t el) { return get(n * el, 1); }
static void f_free(void *ctx, void *p, size_t size) { put(p); }
static void *f_realloc(void *ctx, void *p, size_t size) {
    if (!p) return get(size, 0);
    blk *e = lookup(p);
    if (!e) abort();
    size_t old = e->size;
    void *n = get(size, 0);
    if (n) { memcpy(n, p, old < size ? old : size); put(p); }
    return n;
}
static PyDataMem_Handler handler = { "vp_fence", 1, { NULL, f_malloc, f_calloc, f_realloc, f_free } };
static PyObject *install(PyObject *self, PyObject *args) {
    if (!PyArg_ParseTuple(args, "ii", &mode, &fill)) return NULL;
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *stats(PyObject *self, PyObject *args) { return Py_BuildValue("KKK", n_alloc, n_bytes, n_free); }
static PyMethodDef methods[] = { {"install", install, METH_VARARGS, ""}, {"stats", stats, METH_NOARGS, ""}, {NULL, NULL, 0, NULL} };
static struct PyModuleDef def = { PyModuleDef_HEAD_INIT, "vpfence", NULL, -1, methods };
PyMODINIT_FUNC PyInit_vpfence(void) { import_array(); return PyModule_Create(&def); }

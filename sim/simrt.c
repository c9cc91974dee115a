/* The simulator's runtime.
 *
 * Scheduler: caller threads are real threads, but only the one that holds the
 * token runs.  Every line (or opcode) of the code under test, and every basic
 * block of its GIL-free C code, is an event.  A plan made beforehand says at
 * which event of which thread the token moves, an exception is raised, a
 * callback runs, or the process dies.  Nothing else decides who runs.
 *
 * Allocator: numpy's data allocator and the extensions' malloc come here, so
 * that memory can start as seeded garbage between canaries, and the n-th
 * allocation can fail.
 */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <frameobject.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>

#define MAXT 16
#define MAXPLAN 256
enum { A_SWITCH = 0, A_RAISE = 1, A_CALL = 2, A_KILL = 3 };
enum { K_PY = 0, K_C = 1 };
enum { S_OFF = 0, S_RUN, S_BLOCKED, S_DONE };

typedef struct {
    int kind, action, to, fired;
    long idx;
    PyObject *obj;
} Plan;

typedef struct {
    sem_t sem;
    int status, sem_ok;
    void *waiting_for;
    long ev[2];
    Plan plan[MAXPLAN];
    int nplan;
    long next[2];
    uint32_t *log;
    long nlog, caplog;
} Th;

static Th th[MAXT];
static int nth = 0, current = -1, tracing_mode = 1 /* 1 line 2 opcode */, logging = 0;
static __thread int my_tid = -1;
static __thread int in_nogil = 0;
static __thread int paused = 0;
static __thread PyThreadState *my_ts = NULL;

/* history of the token, for digests and distinct-interleaving counts */
#define MAXHIST 65536
static int hist[MAXHIST][4];
static long nhist = 0;
static long long steps_total = 0, max_steps = 0;
static int deadlocked = 0, overran = 0;

static void note(int tid, int action, long idx, int extra) {
    if (nhist < MAXHIST) {
        hist[nhist][0] = tid; hist[nhist][1] = action;
        hist[nhist][2] = (int)idx; hist[nhist][3] = extra;
        nhist++;
    }
}

/* ------------------------------------------------------------- allocator */
#define RZ 1024
#define MAGIC 0x51ab51ab51ab51abULL
typedef struct Blk {
    uint64_t magic;
    size_t size;
    struct Blk *prev, *next;
    uint64_t word;
    uint64_t pad[3];
} Blk; /* 64 bytes */
static Blk head = {0, 0, &head, &head, 0, {0, 0, 0}};
static pthread_mutex_t amx = PTHREAD_MUTEX_INITIALIZER;
static int alloc_on = 0, garbage_mode = 0;
static uint64_t garbage_seed = 1, rngs = 1;
static long live_blocks = 0, live_bytes = 0, n_allocs = 0, n_smashed = 0, n_failed = 0, n_badfree = 0;
static char smash_note[200];
static __thread int alloc_armed = 0;
static __thread long alloc_count = 0, alloc_fail_at = -1, alloc_fail_n = 1;

static uint64_t xs(void) {
    rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17;
    return rngs;
}
static uint64_t dbl(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static uint64_t gword(void) {
    uint64_t r = xs();
    switch (garbage_mode) {
    case 1: return 0xFFFFFFFFFFFFFFFFULL;             /* NaN */
    case 2: return dbl(1e300);
    case 3: return dbl((double)(r % 100000) / 10.0);  /* plausible charge */
    case 4: return r;
    case 5: return dbl(-(double)(r % 1000) - 1.0);
    case 6: return dbl((double)(r % 1000 + 1) / 1001.0); /* plausible fill */
    default: return 0;
    }
}
static void fill_words(void *p, size_t n, int constant, uint64_t w) {
    size_t i;
    for (i = 0; i + 8 <= n; i += 8) {
        uint64_t v = constant ? w : gword();
        memcpy((char *)p + i, &v, 8);
    }
    if (i < n) {
        uint64_t v = constant ? w : gword();
        memcpy((char *)p + i, &v, n - i);
    }
}
static int bad_words(const void *p, size_t n, uint64_t w) {
    size_t i;
    for (i = 0; i + 8 <= n; i += 8) {
        if (memcmp((const char *)p + i, &w, 8)) return 1;
    }
    return i < n && memcmp((const char *)p + i, &w, n - i);
}
static void check_blk(Blk *b, const char *when) {
    char *body = (char *)b + 64 + RZ;
    int before = bad_words((char *)b + 64, RZ, b->word);
    int after = bad_words(body + b->size, RZ, b->word);
    if (before || after) {
        if (!n_smashed)
            snprintf(smash_note, sizeof smash_note, "write outside a block of %zu bytes (%s it), seen %s",
                     b->size, before ? "before" : "after", when);
        n_smashed++;
        fill_words((char *)b + 64, RZ, 1, b->word);
        fill_words(body + b->size, RZ, 1, b->word);
    }
}
static void *blk_alloc(size_t n, int zero) {
    if (alloc_armed) {
        alloc_count++;
        if (alloc_fail_at > 0 && alloc_count >= alloc_fail_at && alloc_count < alloc_fail_at + alloc_fail_n) { n_failed++; note(my_tid, 9, alloc_count, 0); return NULL; }
    }
    pthread_mutex_lock(&amx);
    Blk *b = aligned_alloc(64, (64 + RZ + n + RZ + 63) / 64 * 64);
    if (!b) { pthread_mutex_unlock(&amx); return NULL; }
    b->magic = MAGIC; b->size = n;
    b->word = garbage_mode ? gword() : 0x5a5a5a5a5a5a5a5aULL;
    b->next = head.next; b->prev = &head; head.next->prev = b; head.next = b;
    live_blocks++; live_bytes += (long)n; n_allocs++;
    char *body = (char *)b + 64 + RZ;
    fill_words((char *)b + 64, RZ, 1, b->word);
    fill_words(body + n, RZ, 1, b->word);
    if (zero) memset(body, 0, n); else fill_words(body, n, 0, 0);
    pthread_mutex_unlock(&amx);
    return body;
}
static void blk_free(void *p) {
    if (!p) return;
    Blk *b = (Blk *)((char *)p - 64 - RZ);
    pthread_mutex_lock(&amx);
    if (b->magic != MAGIC) { n_badfree++; pthread_mutex_unlock(&amx); return; }
    check_blk(b, "when freed");
    b->prev->next = b->next; b->next->prev = b->prev;
    b->magic = 0; live_blocks--; live_bytes -= (long)b->size;
    fill_words((char *)p, b->size, 0, 0); /* use after free sees garbage */
    pthread_mutex_unlock(&amx);
    free(b);
}
static void *h_malloc(void *c, size_t n) { (void)c; return blk_alloc(n, 0); }
static void *h_calloc(void *c, size_t n, size_t m) { (void)c; return blk_alloc(n * m, 1); }
static void h_free(void *c, void *p, size_t n) { (void)c; (void)n; blk_free(p); }
static void *h_realloc(void *c, void *p, size_t n) {
    (void)c;
    if (!p) return blk_alloc(n, 0);
    Blk *b = (Blk *)((char *)p - 64 - RZ);
    void *q = blk_alloc(n, 0);
    if (!q) return NULL;
    memcpy(q, p, b->size < n ? b->size : n);
    blk_free(p);
    return q;
}
static PyDataMem_Handler handler = {"arctic_sim", 1, {NULL, h_malloc, h_calloc, h_realloc, h_free}};

void *sim_malloc(size_t n) { return alloc_on ? blk_alloc(n, 0) : malloc(n); }
void *sim_calloc(size_t n, size_t m) { return alloc_on ? blk_alloc(n * m, 1) : calloc(n, m); }
static int is_ours(void *p) {
    Blk *b; int r = 0;
    pthread_mutex_lock(&amx);
    for (b = head.next; b != &head; b = b->next)
        if ((char *)b + 64 + RZ == (char *)p) { r = 1; break; }
    pthread_mutex_unlock(&amx);
    return r;
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    return is_ours(p) ? h_realloc(NULL, p, n) : realloc(p, n);
}
void sim_free(void *p) {
    if (!p) return;
    if (is_ours(p)) blk_free(p); else free(p);
}

/* ------------------------------------------------------------- scheduler */
static int next_runnable(int from) {
    for (int d = 1; d <= nth; d++) {
        int t = (from + d) % nth;
        if (t != from && th[t].status == S_RUN) return t;
    }
    return -1;
}
static void pass_token(int from, int to, int wait) {
    /* the caller must not hold the GIL */
    current = to;
    sem_post(&th[to].sem);
    if (wait) while (sem_wait(&th[from].sem) && errno == EINTR) {}
}
static void recompute(Th *t) {
    t->next[0] = t->next[1] = -1;
    for (int i = 0; i < t->nplan; i++)
        if (!t->plan[i].fired) {
            int k = t->plan[i].kind;
            if (t->next[k] < 0 || t->plan[i].idx < t->next[k]) t->next[k] = t->plan[i].idx;
        }
}
/* returns -1 with a Python exception set to raise it */
static int fire(int kind) {
    int tid = my_tid;
    Th *t = &th[tid];
    long idx = t->ev[kind];
    int rc = 0;
    for (int i = 0; i < t->nplan && rc == 0; i++) {
        Plan *p = &t->plan[i];
        if (p->fired || p->kind != kind || p->idx > idx) continue;
        if (p->idx < idx) { p->fired = 2; continue; }
        p->fired = 1;
        recompute(t);
        note(tid, p->action, idx, kind * 100 + p->to);
        if (p->action == A_KILL) _exit(77);
        if (p->action == A_SWITCH) {
            int to = p->to;
            if (to < 0 || to >= nth || to == tid || th[to].status != S_RUN) to = next_runnable(tid);
            if (to >= 0) {
                if (kind == K_PY) {
                    PyThreadState *s = PyEval_SaveThread();
                    pass_token(tid, to, 1);
                    PyEval_RestoreThread(s);
                } else pass_token(tid, to, 1);
            }
        } else if (p->action == A_CALL && kind == K_PY) {
            PyObject *r = PyObject_CallNoArgs(p->obj);
            if (!r) rc = -1; else Py_DECREF(r);
        } else if (p->action == A_RAISE && kind == K_PY) {
            PyErr_SetObject((PyObject *)Py_TYPE(p->obj), p->obj);
            rc = -1;
        }
    }
    recompute(t);
    return rc;
}
static inline int event(int kind) {
    Th *t = &th[my_tid];
    long i = ++t->ev[kind];
    steps_total++;
    if (i == t->next[kind]) return fire(kind);
    return 0;
}

PyThreadState *sim_PyEval_SaveThread(void) {
    PyThreadState *s = PyEval_SaveThread();
    if (my_tid >= 0) in_nogil = 1;
    return s;
}
void sim_PyEval_RestoreThread(PyThreadState *s) {
    in_nogil = 0;
    PyEval_RestoreThread(s);
}
void __sanitizer_cov_trace_pc(void) {
    if (in_nogil && my_tid >= 0 && !paused) event(K_C);
}

/* which code objects belong to the code under test */
#define HN 8192
static PyObject *hk[HN]; static int hv[HN]; static int nsites = 0;
static PyObject *site_list = NULL; /* index -> code */
static PyObject *prefixes = NULL;  /* tuple of str */
static int site_of(PyObject *code) {
    size_t h = (((uintptr_t)code) >> 4) % HN;
    while (hk[h]) { if (hk[h] == code) return hv[h]; h = (h + 1) % HN; }
    int v = -1;
    PyObject *fn = ((PyCodeObject *)code)->co_filename;
    if (prefixes) for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(prefixes); i++) {
        if (PyUnicode_Tailmatch(fn, PyTuple_GET_ITEM(prefixes, i), 0, PY_SSIZE_T_MAX, -1) == 1) {
            v = nsites++; PyList_Append(site_list, code); break;
        }
    }
    if (nsites > 60000) return -1;
    Py_INCREF(code); hk[h] = code; hv[h] = v;
    return v;
}
static int tracer(PyObject *o, PyFrameObject *f, int what, PyObject *arg) {
    (void)o; (void)arg;
    if (paused || my_tid < 0) return 0;
    if (what != PyTrace_LINE && what != PyTrace_OPCODE && what != PyTrace_CALL) return 0;
    PyCodeObject *c = PyFrame_GetCode(f);
    int s = site_of((PyObject *)c);
    Py_DECREF(c);
    if (s < 0) return 0;
    if (what == PyTrace_CALL) {
        if (tracing_mode == 2) {
            if (PyObject_SetAttrString((PyObject *)f, "f_trace_opcodes", Py_True)) PyErr_Clear();
        }
        return 0;
    }
    if (what == PyTrace_LINE && tracing_mode == 2) return 0;
    if (max_steps && steps_total > max_steps) {
        overran = 1; max_steps = 0;
        PyErr_SetString(PyExc_RuntimeError, "simulated step budget exceeded");
        return -1;
    }
    if (logging) {
        Th *t = &th[my_tid];
        if (t->nlog == t->caplog) {
            t->caplog = t->caplog ? t->caplog * 2 : 4096;
            t->log = realloc(t->log, (size_t)t->caplog * 4);
        }
        t->log[t->nlog++] = ((uint32_t)s << 16) | (uint32_t)(PyFrame_GetLineNumber(f) & 0xffff);
    }
    return event(K_PY);
}

/* ------------------------------------------------------------ python api */
static PyObject *py_reset(PyObject *self, PyObject *a) {
    int n, mode, lg; long long ms;
    if (!PyArg_ParseTuple(a, "iiiL", &n, &mode, &lg, &ms)) return NULL;
    if (n > MAXT) { PyErr_SetString(PyExc_ValueError, "threads"); return NULL; }
    for (int i = 0; i < MAXT; i++) {
        Th *t = &th[i];
        for (int j = 0; j < t->nplan; j++) Py_CLEAR(t->plan[j].obj);
        if (t->sem_ok) sem_destroy(&t->sem);
        free(t->log);
        memset(t, 0, sizeof *t);
        if (i < n) { sem_init(&t->sem, 0, 0); t->sem_ok = 1; t->status = S_RUN; }
        t->next[0] = t->next[1] = -1;
    }
    nth = n; tracing_mode = mode; logging = lg; nhist = 0; steps_total = 0; max_steps = ms;
    deadlocked = overran = 0; current = -1;
    Py_RETURN_NONE;
}
static PyObject *py_plan(PyObject *self, PyObject *a) {
    int tid, kind, action, to; long idx; PyObject *obj = Py_None;
    if (!PyArg_ParseTuple(a, "iilii|O", &tid, &kind, &idx, &action, &to, &obj)) return NULL;
    Th *t = &th[tid];
    if (t->nplan >= MAXPLAN) { PyErr_SetString(PyExc_ValueError, "plan too long"); return NULL; }
    Plan *p = &t->plan[t->nplan++];
    p->kind = kind; p->idx = idx; p->action = action; p->to = to; p->fired = 0;
    Py_INCREF(obj); p->obj = obj;
    recompute(t);
    Py_RETURN_NONE;
}
static PyObject *py_begin(PyObject *self, PyObject *a) {
    int tid, wait;
    if (!PyArg_ParseTuple(a, "ii", &tid, &wait)) return NULL;
    my_tid = tid; in_nogil = 0; paused = 0;
    if (wait) {
        Py_BEGIN_ALLOW_THREADS
        while (sem_wait(&th[tid].sem) && errno == EINTR) {}
        Py_END_ALLOW_THREADS
    } else current = tid;
    if (tracing_mode == 2) {
        /* CPython emits opcode events only if some frame asked before SetTrace;
           the frame must not ask any longer when its thread stops tracing */
        PyFrameObject *f = PyEval_GetFrame();
        if (f && PyObject_SetAttrString((PyObject *)f, "f_trace_opcodes", Py_True)) PyErr_Clear();
        if (f && PyObject_SetAttrString((PyObject *)f, "f_trace_opcodes", Py_False)) PyErr_Clear();
    }
    PyEval_SetTrace(tracer, NULL);
    Py_RETURN_NONE;
}
static sem_t main_sem; static int main_sem_ok = 0;
static PyObject *py_end(PyObject *self, PyObject *noargs) {
    int tid = my_tid;
    PyEval_SetTrace(NULL, NULL);
    my_tid = -1;
    if (tid >= 0) {
        th[tid].status = S_DONE;
        note(tid, 8, th[tid].ev[0], 0);
        int to = next_runnable(tid);
        if (to >= 0) {
            current = to; sem_post(&th[to].sem);
        } else {
            int blocked = 0;
            for (int i = 0; i < nth; i++) blocked += th[i].status == S_BLOCKED;
            if (blocked) deadlocked = 1;
            if (main_sem_ok) sem_post(&main_sem);
        }
    }
    Py_RETURN_NONE;
}
/* main: give the token to the first thread and wait until no thread can run */
static PyObject *py_run(PyObject *self, PyObject *a) {
    int first; double limit;
    if (!PyArg_ParseTuple(a, "id", &first, &limit)) return NULL;
    sem_init(&main_sem, 0, 0); main_sem_ok = 1;
    int rc;
    Py_BEGIN_ALLOW_THREADS
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += (time_t)limit;
    current = first; sem_post(&th[first].sem);
    while ((rc = sem_timedwait(&main_sem, &ts)) && errno == EINTR) {}
    Py_END_ALLOW_THREADS
    main_sem_ok = 0;
    if (rc) return PyUnicode_FromString("stalled");
    return PyUnicode_FromString(deadlocked ? "deadlock" : "done");
}
/* block on an object until it is signalled; returns 0 if nothing could run */
static PyObject *py_block(PyObject *self, PyObject *o) {
    int tid = my_tid;
    if (tid < 0) Py_RETURN_FALSE;
    int to = next_runnable(tid);
    if (to < 0) { deadlocked = 1; Py_RETURN_FALSE; }
    th[tid].status = S_BLOCKED; th[tid].waiting_for = (void *)o;
    note(tid, 7, th[tid].ev[0], to);
    Py_BEGIN_ALLOW_THREADS
    pass_token(tid, to, 1);
    Py_END_ALLOW_THREADS
    Py_RETURN_TRUE;
}
static PyObject *py_wake(PyObject *self, PyObject *o) {
    for (int i = 0; i < nth; i++)
        if (th[i].status == S_BLOCKED && th[i].waiting_for == (void *)o) th[i].status = S_RUN;
    Py_RETURN_NONE;
}
static PyObject *py_tid(PyObject *self, PyObject *n) { return PyLong_FromLong(my_tid); }
static PyObject *py_pause(PyObject *self, PyObject *o) {
    int old = paused; paused = PyObject_IsTrue(o); return PyBool_FromLong(old);
}
static PyObject *py_counts(PyObject *self, PyObject *a) {
    int t; if (!PyArg_ParseTuple(a, "i", &t)) return NULL;
    return Py_BuildValue("ll", th[t].ev[0], th[t].ev[1]);
}
static PyObject *py_log(PyObject *self, PyObject *a) {
    int t; if (!PyArg_ParseTuple(a, "i", &t)) return NULL;
    return PyBytes_FromStringAndSize((char *)th[t].log, th[t].nlog * 4);
}
static PyObject *py_hist(PyObject *self, PyObject *n) {
    return PyBytes_FromStringAndSize((char *)hist, nhist * 16);
}
static PyObject *py_fired(PyObject *self, PyObject *n) {
    PyObject *l = PyList_New(0);
    for (int i = 0; i < nth; i++) for (int j = 0; j < th[i].nplan; j++) {
        Plan *p = &th[i].plan[j];
        PyObject *v = Py_BuildValue("iili i", i, p->kind, p->idx, p->action, p->fired == 1);
        PyList_Append(l, v); Py_DECREF(v);
    }
    return l;
}
static PyObject *py_sites(PyObject *self, PyObject *n) { Py_INCREF(site_list); return site_list; }
static PyObject *py_prefixes(PyObject *self, PyObject *o) {
    Py_XSETREF(prefixes, Py_NewRef(o)); Py_RETURN_NONE;
}
static PyObject *py_overran(PyObject *self, PyObject *n) { return PyBool_FromLong(overran); }

static PyObject *py_alloc_on(PyObject *self, PyObject *a) {
    int mode; unsigned long long seed;
    if (!PyArg_ParseTuple(a, "iK", &mode, &seed)) return NULL;
    alloc_on = 1; garbage_mode = mode; garbage_seed = seed;
    rngs = seed * 2654435761ULL + 88172645463325252ULL; if (!rngs) rngs = 1;
    Py_RETURN_NONE;
}
static PyObject *py_install(PyObject *self, PyObject *n) {
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    return old;
}
static PyObject *py_uninstall(PyObject *self, PyObject *old) {
    PyObject *r = PyDataMem_SetHandler(old);
    if (!r) return NULL;
    Py_DECREF(r); Py_RETURN_NONE;
}
static PyObject *py_arm(PyObject *self, PyObject *a) {
    int on; long fail_at, n = 1;
    if (!PyArg_ParseTuple(a, "il|l", &on, &fail_at, &n)) return NULL;
    alloc_armed = on; alloc_fail_at = fail_at; alloc_fail_n = n;
    long c = alloc_count; alloc_count = 0;
    return PyLong_FromLong(c);
}
static PyObject *py_alloc_check(PyObject *self, PyObject *n) {
    pthread_mutex_lock(&amx);
    for (Blk *b = head.next; b != &head; b = b->next) check_blk(b, "while in use");
    pthread_mutex_unlock(&amx);
    return Py_BuildValue("{s:l,s:l,s:l,s:l,s:l,s:l,s:s}", "live_blocks", live_blocks, "live_bytes", live_bytes,
                         "allocs", n_allocs, "smashed", n_smashed, "failed", n_failed, "badfree", n_badfree,
                         "note", smash_note);
}

static PyMethodDef M[] = {
    {"reset", py_reset, METH_VARARGS, ""}, {"plan", py_plan, METH_VARARGS, ""},
    {"begin", py_begin, METH_VARARGS, ""}, {"end", py_end, METH_NOARGS, ""},
    {"run", py_run, METH_VARARGS, ""}, {"block", py_block, METH_O, ""},
    {"wake", py_wake, METH_O, ""}, {"tid", py_tid, METH_NOARGS, ""},
    {"pause", py_pause, METH_O, ""}, {"counts", py_counts, METH_VARARGS, ""},
    {"log", py_log, METH_VARARGS, ""}, {"hist", py_hist, METH_NOARGS, ""},
    {"fired", py_fired, METH_NOARGS, ""}, {"sites", py_sites, METH_NOARGS, ""},
    {"prefixes", py_prefixes, METH_O, ""}, {"overran", py_overran, METH_NOARGS, ""},
    {"alloc_on", py_alloc_on, METH_VARARGS, ""}, {"install", py_install, METH_NOARGS, ""},
    {"uninstall", py_uninstall, METH_O, ""}, {"arm", py_arm, METH_VARARGS, ""},
    {"alloc_check", py_alloc_check, METH_NOARGS, ""},
    {NULL, NULL, 0, NULL}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "simrt", NULL, -1, M, NULL, NULL, NULL, NULL};
PyMODINIT_FUNC PyInit_simrt(void) {
    import_array();
    site_list = PyList_New(0);
    return PyModule_Create(&D);
}

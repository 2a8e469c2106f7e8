/* Fourier-Motzkin infeasibility core for the linear domain (sa/lin.py).
 * infeasible(list of (c, ((sym,coef),...)))  meaning  c + sum coef*sym <= 0
 * Sound: answers 0 ("not shown infeasible") on any overflow or size limit. */
#include <Python.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef __int128 i128;
#define MAXT 48
typedef struct { i128 c; int n; int s[MAXT]; int64_t k[MAXT]; uint64_t h; } Con;
#define CLIM ((i128)1 << 110)
#define KLIM ((int64_t)1 << 60)
static int64_t gcd64(int64_t a, int64_t b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { int64_t t = a % b; a = b; b = t; } return a; }
static void fin(Con *e) {
    if (e->n) {
        int64_t g = 0;
        for (int i = 0; i < e->n; i++) { g = gcd64(g, e->k[i]); if (g == 1) break; }
        if (g > 1) {
            for (int i = 0; i < e->n; i++) e->k[i] /= g;
            i128 m = -e->c, q = m / g; if (m % g != 0 && m < 0) q--;   /* floor(-c/g) */
            e->c = -q;
        }
    }
    uint64_t h = 1469598103934665603ULL;
    for (int i = 0; i < e->n; i++) { h = (h ^ (uint64_t)e->s[i]) * 1099511628211ULL; h = (h ^ (uint64_t)e->k[i]) * 1099511628211ULL; }
    e->h = h;
}
static int comb(Con *r, const Con *p, int64_t fp, const Con *q, int64_t fq) {
    int i = 0, j = 0, n = 0;
    i128 c = 0, t;
    if (__builtin_mul_overflow(p->c, (i128)fp, &c) || __builtin_mul_overflow(q->c, (i128)fq, &t)) return 0;
    c += t; if (c > CLIM || c < -CLIM) return 0;
    while (i < p->n || j < q->n) {
        int s; i128 k = 0;
        if (j >= q->n || (i < p->n && p->s[i] < q->s[j])) { s = p->s[i]; k = (i128)p->k[i] * fp; i++; }
        else if (i >= p->n || q->s[j] < p->s[i]) { s = q->s[j]; k = (i128)q->k[j] * fq; j++; }
        else { s = p->s[i]; k = (i128)p->k[i] * fp + (i128)q->k[j] * fq; i++; j++; }
        if (k == 0) continue;
        if (k > KLIM || k < -KLIM || n >= MAXT) return 0;
        r->s[n] = s; r->k[n] = (int64_t)k; n++;
    }
    r->c = c; r->n = n; fin(r); return 1;
}
typedef struct { Con *v; int n, cap; int *tab; int tcap; } Set;
static int same(const Con *a, const Con *b) { return a->h == b->h && a->n == b->n && !memcmp(a->s, b->s, sizeof(int) * a->n) && !memcmp(a->k, b->k, sizeof(int64_t) * a->n); }
static int put(Set *S, const Con *e) {
    if (S->n >= S->cap) return 0;
    unsigned m = S->tcap - 1, i = (unsigned)(e->h ^ (e->h >> 29)) & m;
    while (S->tab[i] >= 0) { Con *o = &S->v[S->tab[i]]; if (same(o, e)) { if (e->c > o->c) o->c = e->c; return 1; } i = (i + 1) & m; }
    S->tab[i] = S->n; Con *d = &S->v[S->n++];
    d->c = e->c; d->n = e->n; d->h = e->h; memcpy(d->s, e->s, sizeof(int) * e->n); memcpy(d->k, e->k, sizeof(int64_t) * e->n);
    return 1;
}
#define CAP 1400
#define LIMIT 500
static Con bufA[CAP], bufB[CAP]; static int tabA[4096], tabB[4096];
static void reset(Set *s, Con *v, int *t) { s->v = v; s->n = 0; s->cap = CAP; s->tab = t; s->tcap = 4096; memset(t, 0xff, 4096 * sizeof(int)); }
typedef struct { int s, p, n; } Cnt;
static int solve(Set *A, Set *B) {
    static Cnt cnt[4096];
    while (A->n) {
        int nc = 0;
        static int htab[8192]; memset(htab, 0xff, sizeof htab);
        for (int i = 0; i < A->n; i++) for (int j = 0; j < A->v[i].n; j++) {
            int s = A->v[i].s[j]; unsigned h = ((unsigned)s * 2654435761u) >> 19;
            while (htab[h] >= 0 && cnt[htab[h]].s != s) h = (h + 1) & 8191;
            if (htab[h] < 0) { if (nc >= 4096) return 0; htab[h] = nc; cnt[nc].s = s; cnt[nc].p = cnt[nc].n = 0; nc++; }
            if (A->v[i].k[j] > 0) cnt[htab[h]].p++; else cnt[htab[h]].n++;
        }
        int bs = -1; long bc = 0;
        for (int i = 0; i < nc; i++) {
            long c = (long)cnt[i].p * cnt[i].n - cnt[i].p - cnt[i].n;
            if (bs < 0 || c < bc || (c == bc && cnt[i].s < bs)) { bs = cnt[i].s; bc = c; }
        }
        reset(B, B->v, B->tab);
        static int pos[CAP], neg[CAP]; static int64_t kp[CAP], kn[CAP]; int np = 0, nn = 0;
        for (int i = 0; i < A->n; i++) {
            int64_t k = 0; for (int j = 0; j < A->v[i].n; j++) if (A->v[i].s[j] == bs) { k = A->v[i].k[j]; break; }
            if (k > 0) { pos[np] = i; kp[np++] = k; } else if (k < 0) { neg[nn] = i; kn[nn++] = -k; }
            else if (!put(B, &A->v[i])) return 0;
        }
        Con r;
        for (int a = 0; a < np; a++) for (int b = 0; b < nn; b++) {
            int64_t g = gcd64(kp[a], kn[b]);
            if (!comb(&r, &A->v[pos[a]], kn[b] / g, &A->v[neg[b]], kp[a] / g)) continue;   /* dropping a constraint is sound */
            if (r.n == 0) { if (r.c > 0) return 1; continue; }
            if (!put(B, &r)) return 0;
        }
        if (B->n > LIMIT) return 0;
        Set t = *A; *A = *B; *B = t;
    }
    return 0;
}
static int conv(PyObject *o, Con *e) {
    PyObject *c = PyTuple_GET_ITEM(o, 0), *t = PyTuple_GET_ITEM(o, 1);
    int ov = 0; long long lo = PyLong_AsLongLongAndOverflow(c, &ov);
    if (!ov) e->c = lo;
    else {
        unsigned char b[16];
#if PY_VERSION_HEX >= 0x030D0000
        if (_PyLong_AsByteArray((PyLongObject *)c, b, 16, 1, 1, 1) < 0) { PyErr_Clear(); return 0; }
#else
        if (_PyLong_AsByteArray((PyLongObject *)c, b, 16, 1, 1) < 0) { PyErr_Clear(); return 0; }
#endif
        memcpy(&e->c, b, 16);
        if (e->c > CLIM || e->c < -CLIM) return 0;
    }
    Py_ssize_t n = PyTuple_GET_SIZE(t);
    if (n > MAXT) return 0;
    e->n = (int)n;
    for (Py_ssize_t i = 0; i < n; i++) {
        PyObject *p = PyTuple_GET_ITEM(t, i);
        e->s[i] = (int)PyLong_AsLong(PyTuple_GET_ITEM(p, 0));
        long long k = PyLong_AsLongLongAndOverflow(PyTuple_GET_ITEM(p, 1), &ov);
        if (ov || k > KLIM || k < -KLIM) return 0;
        e->k[i] = k;
    }
    fin(e);
    return 1;
}
static PyObject *infeasible(PyObject *self, PyObject *arg) {
    PyObject *l = PySequence_Fast(arg, "list"); if (!l) return NULL;
    static Con e; Set A, B; reset(&A, bufA, tabA); reset(&B, bufB, tabB);
    Py_ssize_t n = PySequence_Fast_GET_SIZE(l);
    for (Py_ssize_t i = 0; i < n; i++) {
        if (!conv(PySequence_Fast_GET_ITEM(l, i), &e)) continue;
        if (e.n == 0) { if (e.c > 0) { Py_DECREF(l); Py_RETURN_TRUE; } continue; }
        if (!put(&A, &e)) { Py_DECREF(l); Py_RETURN_FALSE; }
    }
    Py_DECREF(l);
    if (solve(&A, &B)) Py_RETURN_TRUE;
    Py_RETURN_FALSE;
}

/* ---- packed constraint stores and symbol ranges ---- */
typedef struct { i128 lo, hi; char hl, hh; } Rng;
static Rng *rngs; static int nrng;
typedef struct { i128 c; int n, off; } PC;
typedef struct { int n, nt; PC *c; int *s; int64_t *k; } Pack;
static void pack_free(PyObject *cap) { Pack *p = PyCapsule_GetPointer(cap, "pack"); if (p) { free(p->c); free(p->s); free(p->k); free(p); } }
static PyObject *setrange(PyObject *self, PyObject *args) {
    int id; PyObject *lo, *hi;
    if (!PyArg_ParseTuple(args, "iOO", &id, &lo, &hi)) return NULL;
    if (id >= nrng) { int n = nrng ? nrng * 2 : 1024; while (n <= id) n *= 2; rngs = realloc(rngs, n * sizeof(Rng)); memset(rngs + nrng, 0, (n - nrng) * sizeof(Rng)); nrng = n; }
    unsigned char b[16]; Rng *r = &rngs[id]; r->hl = r->hh = 0;
    if (lo != Py_None && _PyLong_AsByteArray((PyLongObject *)lo, b, 16, 1, 1) >= 0) { memcpy(&r->lo, b, 16); r->hl = 1; }
    if (hi != Py_None && _PyLong_AsByteArray((PyLongObject *)hi, b, 16, 1, 1) >= 0) { memcpy(&r->hi, b, 16); r->hh = 1; }
    PyErr_Clear();
    Py_RETURN_NONE;
}
static PyObject *packf(PyObject *self, PyObject *arg) {
    PyObject *l = PySequence_Fast(arg, "seq"); if (!l) return NULL;
    Py_ssize_t n = PySequence_Fast_GET_SIZE(l); static Con e; Pack *p = calloc(1, sizeof *p);
    int cap = (int)n * 3 + 8;
    p->c = malloc(sizeof(PC) * (n + 1)); p->s = malloc(sizeof(int) * cap); p->k = malloc(sizeof(int64_t) * cap);
    for (Py_ssize_t i = 0; i < n; i++) {
        if (!conv(PySequence_Fast_GET_ITEM(l, i), &e)) continue;
        if (p->nt + e.n > cap) { cap = cap * 2 + e.n; p->s = realloc(p->s, sizeof(int) * cap); p->k = realloc(p->k, sizeof(int64_t) * cap); }
        PC *c = &p->c[p->n++]; c->c = e.c; c->n = e.n; c->off = p->nt;
        memcpy(p->s + p->nt, e.s, sizeof(int) * e.n); memcpy(p->k + p->nt, e.k, sizeof(int64_t) * e.n); p->nt += e.n;
    }
    Py_DECREF(l);
    return PyCapsule_New(p, "pack", pack_free);
}
static int *mark; static int nmark, stamp;
static int seen(int s) {
    if (s >= nmark) { int n = nmark ? nmark * 2 : 4096; while (n <= s) n *= 2; mark = realloc(mark, n * sizeof(int)); memset(mark + nmark, 0, (n - nmark) * sizeof(int)); nmark = n; }
    if (mark[s] == stamp) return 1;
    mark[s] = stamp; return 0;
}
static int list_[1 << 16]; static int nlist;
static char *used; static int nused;
static void closure(Pack *p) {
    if (p->n >= nused) { nused = p->n * 2 + 16; used = realloc(used, nused); }
    memset(used, 0, p->n ? p->n : 1);
    int ch = 1;
    while (ch) {
        ch = 0;
        for (int i = 0; i < p->n; i++) {
            if (used[i]) continue;
            PC *c = &p->c[i]; int hit = 0;
            for (int j = 0; j < c->n; j++) { int s = p->s[c->off + j]; if (s < nmark && mark[s] == stamp) { hit = 1; break; } }
            if (!hit) continue;
            used[i] = 1; ch = 1;
            for (int j = 0; j < c->n; j++) { int s = p->s[c->off + j]; if (!seen(s) && nlist < (1 << 16)) list_[nlist++] = s; }
        }
    }
}
/* query(capsule, extras): is store + extras (+ symbol ranges of the component) infeasible? */
static PyObject *query(PyObject *self, PyObject *args) {
    PyObject *cap, *ex; if (!PyArg_ParseTuple(args, "OO", &cap, &ex)) return NULL;
    Pack *p = PyCapsule_GetPointer(cap, "pack"); if (!p) return NULL;
    static Con e; Set A, B; reset(&A, bufA, tabA); reset(&B, bufB, tabB);
    stamp++; nlist = 0;
    Py_ssize_t n = PyTuple_GET_SIZE(ex);
    for (Py_ssize_t i = 0; i < n; i++) {
        if (!conv(PyTuple_GET_ITEM(ex, i), &e)) continue;
        if (e.n == 0) { if (e.c > 0) Py_RETURN_TRUE; continue; }
        if (!put(&A, &e)) Py_RETURN_FALSE;
        for (int j = 0; j < e.n; j++) if (!seen(e.s[j])) list_[nlist++] = e.s[j];
    }
    closure(p);
    for (int i = 0; i < p->n; i++) if (used[i]) {
        PC *c = &p->c[i]; e.c = c->c; e.n = c->n; memcpy(e.s, p->s + c->off, sizeof(int) * c->n); memcpy(e.k, p->k + c->off, sizeof(int64_t) * c->n); fin(&e);
        if (!put(&A, &e)) Py_RETURN_FALSE;
    }
    for (int i = 0; i < nlist; i++) {
        int s = list_[i]; if (s >= nrng) continue;
        if (rngs[s].hl) { e.c = rngs[s].lo; e.n = 1; e.s[0] = s; e.k[0] = -1; fin(&e); if (!put(&A, &e)) Py_RETURN_FALSE; }
        if (rngs[s].hh) { e.c = -rngs[s].hi; e.n = 1; e.s[0] = s; e.k[0] = 1; fin(&e); if (!put(&A, &e)) Py_RETURN_FALSE; }
    }
    if (solve(&A, &B)) Py_RETURN_TRUE;
    Py_RETURN_FALSE;
}
static PyObject *compsyms(PyObject *self, PyObject *args) {
    PyObject *cap, *o; if (!PyArg_ParseTuple(args, "OO", &cap, &o)) return NULL;
    Pack *p = PyCapsule_GetPointer(cap, "pack"); if (!p) return NULL;
    stamp++; nlist = 0;
    PyObject *t = PyTuple_GET_ITEM(o, 1);
    for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(t); i++) { int s = (int)PyLong_AsLong(PyTuple_GET_ITEM(PyTuple_GET_ITEM(t, i), 0)); if (!seen(s)) list_[nlist++] = s; }
    closure(p);
    PyObject *r = PySet_New(NULL);
    for (int i = 0; i < nlist; i++) { PyObject *x = PyLong_FromLong(list_[i]); PySet_Add(r, x); Py_DECREF(x); }
    return r;
}
static PyMethodDef M[] = {{"infeasible", infeasible, METH_O, ""}, {"setrange", setrange, METH_VARARGS, ""}, {"pack", packf, METH_O, ""}, {"query", query, METH_VARARGS, ""}, {"compsyms", compsyms, METH_VARARGS, ""}, {0}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "sa_fm", 0, -1, M};
PyMODINIT_FUNC PyInit_sa_fm(void) { return PyModule_Create(&D); }

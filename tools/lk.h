/* records which locks are taken while which are held: link with --wrap for the functions below */
#include <pthread.h>
#include <stdio.h>
extern int __real_pthread_mutex_lock(pthread_mutex_t *m);
extern int __real_pthread_mutex_unlock(pthread_mutex_t *m);
extern int __real_pthread_rwlock_rdlock(pthread_rwlock_t *m);
extern int __real_pthread_rwlock_wrlock(pthread_rwlock_t *m);
extern int __real_pthread_rwlock_unlock(pthread_rwlock_t *m);
static pthread_mutex_t lk_m = PTHREAD_MUTEX_INITIALIZER;
static struct { void *a, *b; } lk_e[4096];
static int lk_n;
static volatile int lk_inverted;
static __thread void *lk_held[64];
static __thread int lk_d;
static void lk_take(void *l) {
    __real_pthread_mutex_lock(&lk_m);
    for (int i = 0; i < lk_d; i++) {
        if (lk_held[i] == l) lk_inverted = 1;
        int known = 0;
        for (int k = 0; k < lk_n; k++) {
            if (lk_e[k].a == l && lk_e[k].b == lk_held[i]) lk_inverted = 1;
            known |= lk_e[k].a == lk_held[i] && lk_e[k].b == l;
        }
        if (!known && lk_n < 4096) { lk_e[lk_n].a = lk_held[i]; lk_e[lk_n++].b = l; }
    }
    __real_pthread_mutex_unlock(&lk_m);
    if (lk_d < 64) lk_held[lk_d++] = l;
}
static void lk_give(void *l) {
    for (int i = lk_d - 1; i >= 0; i--) if (lk_held[i] == l) { for (lk_d--; i < lk_d; i++) lk_held[i] = lk_held[i + 1]; return; }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { lk_take(m); return lk_inverted ? 0 : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { lk_give(m); return lk_inverted ? 0 : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { lk_take(m); return lk_inverted ? 0 : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { lk_take(m); return lk_inverted ? 0 : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { lk_give(m); return lk_inverted ? 0 : __real_pthread_rwlock_unlock(m); }

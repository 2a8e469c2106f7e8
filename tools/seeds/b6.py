ID="p09-flag-after-wake"; PROP="P09"
NEEDS="the worker runs between being woken and the exit flag being set"
BREAKS="the worker finds nothing to do and sleeps again, and destroy waits for it forever"
EDITS=[("src/ring/msg_queue_handler.c","	handler->flag2exit = true;\n	//send a signal to make sure thread is not stuck at sem_wait()\n	portable_sem_post(&(handler->semaphore));","	//send a signal to make sure thread is not stuck at sem_wait()\n	portable_sem_post(&(handler->semaphore));\n	handler->flag2exit = true;")]
LDFLAGS="-Wl,--wrap=sem_post"
DEMO=r'''
#include "w.h"
#include <unistd.h>
#include <semaphore.h>
#include "ring/msg_queue_handler.h"
static int on(queue_msg_t *m, void *u) { (void)m; (void)u; return 0; }
int __real_sem_post(sem_t *s);
int __wrap_sem_post(sem_t *s) { int r = __real_sem_post(s); usleep(200000); return r; }
int main(void) {
    msg_queue_handler_init_param_t p; memset(&p, 0, sizeof p);
    p.fn_handle_msg = on;
    msg_queue_handler h = msg_queue_handler_create(4096, &p);
    CHECK(h);
    alarm(10);
    msg_queue_handler_destroy(&h);
    CHECK(!h);
    return 0;
}
'''
#----
ID="p09-callbacks-after-start"; PROP="P09"
NEEDS="the worker runs before fixed_msg_queue_handler_create has gone on"
BREAKS="the worker starts before the caller's callbacks are in place and never reports being ready"
EDITS=[("src/ring/fixed_msg_queue_handler.c","	memcpy(&handler->param, init_param_p, sizeof(fixed_msg_queue_handler_init_param_t));\n",""),
 ("src/ring/fixed_msg_queue_handler.c","		fixed_msg_queue_handler_destroy(&handler);\n		handler = NULL;\n	}\n","		fixed_msg_queue_handler_destroy(&handler);\n		return NULL;\n	}\n	memcpy(&handler->param, init_param_p, sizeof(fixed_msg_queue_handler_init_param_t));\n")]
LDFLAGS="-Wl,--wrap=pthread_create"
DEMO=r'''
#include "w.h"
#include <unistd.h>
#include <pthread.h>
#include "ring/fixed_msg_queue_handler.h"
static volatile int ready;
static int on(fixed_msg_t *m, void *u) { (void)m; (void)u; return 0; }
static void st(msg_q_handler_status_e s, void *u) { (void)u; if (s == MSG_Q_HANDLER_STATUS_READY_TO_GO) ready++; }
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    int r = __real_pthread_create(t, a, f, x); usleep(200000); return r; }
int main(void) {
    fixed_msg_queue_handler_init_param_t p; memset(&p, 0, sizeof p);
    p.fn_handle_msg = on; p.fn_on_status_changed = (void *)st;
    fixed_msg_queue_handler h = fixed_msg_queue_handler_create(8, &p);
    CHECK(h);
    usleep(100000);
    CHECK(ready == 1);
    fixed_msg_queue_handler_destroy(&h);
    return 0;
}
'''
#----
ID="p09-pool-leaves-busy-worker"; PROP="P09"
NEEDS="a job that runs for more than a second while the pool is destroyed"
BREAKS="thpool_destroy releases the pool although a worker is still running a job"
EDITS=[("src/thread/thpool.c","	/* Poll remaining threads */\n	while (thpool_p->num_threads_alive){\n		bsem_post_all(thpool_p->jobqueue.has_jobs);\n		sleep(1);\n	}\n","	/* Poll remaining threads */\n	if (thpool_p->num_threads_alive){\n		bsem_post_all(thpool_p->jobqueue.has_jobs);\n		sleep(1);\n	}\n")]
DEMO=r'''
#include "w.h"
#include <unistd.h>
#include "thread/thpool.h"
static volatile int done;
static void slow(void *u) { (void)u; for (int i = 0; i < 50; i++) usleep(100000); done = 1; }
int main(void) {
    threadpool p = thpool_init(1);
    CHECK(p);
    thpool_add_work(p, slow, NULL);
    usleep(100000);
    thpool_destroy(p);
    CHECK(done);
    return 0;
}
'''

ID="p08-clear-drops-next"; PROP="P08"
NEEDS="a message pushed right after fixed_msg_queue_handler_clear"
BREAKS="clear invalidates the next message too, which is silently discarded"
EDITS=[("src/ring/fixed_msg_queue_handler.c","handler->min_valid_token = handler->token_counter;","handler->min_valid_token = handler->token_counter + 1;")]
DEMO=r'''
#include "w.h"
#include <unistd.h>
#include "ring/fixed_msg_queue_handler.h"
static volatile int seen;
static int on(fixed_msg_t *m, void *u) { (void)u; seen += m->what; return 0; }
int main(void) {
    fixed_msg_queue_handler_init_param_t p; memset(&p, 0, sizeof p);
    p.fn_handle_msg = on;
    fixed_msg_queue_handler h = fixed_msg_queue_handler_create(8, &p);
    CHECK(h);
    fixed_msg_queue_handler_clear(h);
    fixed_msg_t m; memset(&m, 0, sizeof m);
    m.what = 5;
    CHECK(fixed_msg_queue_handler_push(h, &m) == MSG_Q_CODE_SUCCESS);
    for (int i = 0; i < 300 && seen != 5; i++) usleep(10000);
    CHECK(seen == 5);
    fixed_msg_queue_handler_destroy(&h);
    return 0;
}
'''
#----
ID="p08-large-message-sleeps"; PROP="P08"
NEEDS="a single message larger than the worker's buffer, with no other message following"
BREAKS="the worker enlarges its buffer and goes to sleep with the message still queued"
EDITS=[("src/ring/msg_queue_handler.c","if (MSG_Q_CODE_SUCCESS == last_status || MSG_Q_CODE_EMPTY == last_status)","if (MSG_Q_CODE_AGAIN != last_status)")]
DEMO=r'''
#include "w.h"
#include <unistd.h>
#include "ring/msg_queue_handler.h"
static volatile int seen;
static int on(queue_msg_t *m, void *u) { (void)u; seen = m->obj_len; return 0; }
int main(void) {
    msg_queue_handler_init_param_t p; memset(&p, 0, sizeof p);
    p.fn_handle_msg = on;
    msg_queue_handler h = msg_queue_handler_create(65536, &p);
    CHECK(h);
    queue_msg_t *m = calloc(1, sizeof *m + 9000);
    m->obj_len = 9000;
    CHECK(msg_queue_handler_push(h, m) == MSG_Q_CODE_SUCCESS);
    for (int i = 0; i < 300 && !seen; i++) usleep(10000);
    CHECK(seen == 9000);
    msg_queue_handler_destroy(&h);
    return 0;
}
'''
#----
ID="p08-pool-last-job-asleep"; PROP="P08"
NEEDS="exactly two jobs queued while the only worker is busy"
BREAKS="after taking the first of two jobs nobody is woken for the second, which stays queued"
EDITS=[("src/thread/thpool.c","					/* more than one job in queue -> post it */\n					bsem_post(jobqueue_p->has_jobs);","					/* more than one job in queue -> post it */\n					if (jobqueue_p->len > 1) bsem_post(jobqueue_p->has_jobs);")]
DEMO=r'''
#include "w.h"
#include <unistd.h>
#include "thread/thpool.h"
static volatile int go, done;
static void first(void *u) { (void)u; while (!go) usleep(1000); }
static void job(void *u) { (void)u; done++; }
int main(void) {
    threadpool p = thpool_init(1);
    CHECK(p);
    thpool_add_work(p, first, NULL);
    usleep(100000);
    thpool_add_work(p, job, NULL); thpool_add_work(p, job, NULL);
    go = 1;
    for (int i = 0; i < 300 && done != 2; i++) usleep(10000);
    CHECK(done == 2);
    return 0;
}
'''
#----
ID="p08-pool-busy-flag"; PROP="P08"
NEEDS="two workers busy at the same time, one of them finishing while thpool_wait waits"
BREAKS="busy workers are not counted, so thpool_wait returns while a job is still running"
EDITS=[("src/thread/thpool.c","		thpool_p->num_threads_working++;\n","		thpool_p->num_threads_working = 1;\n")]
DEMO=r'''
#include "w.h"
#include <unistd.h>
#include "thread/thpool.h"
static volatile int slow_done;
static void fast(void *u) { (void)u; usleep(100000); }
static void slow(void *u) { (void)u; usleep(1500000); slow_done = 1; }
int main(void) {
    threadpool p = thpool_init(2);
    CHECK(p);
    thpool_add_work(p, slow, NULL); thpool_add_work(p, fast, NULL);
    usleep(20000);
    thpool_wait(p);
    CHECK(slow_done);
    return 0;
}
'''

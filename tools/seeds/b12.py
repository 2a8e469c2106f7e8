T="src/thread/thpool.c"; H="src/data/hashmap.c"; X="src/log/xlog.c"; C="src/time/time_util.c"; A="src/ring/autocover_buffer.c"; F="src/log/file_logger.c"
LK=open("/verif/tools/lk.h").read()
LKW="".join(" -Wl,--wrap=pthread_"+x for x in ("mutex_lock","mutex_unlock","rwlock_rdlock","rwlock_wrlock","rwlock_unlock"))
#----
ID="p07-hashmap-bucket-chosen-early"; PROP="P07"
NEEDS="another thread that makes the map grow between the choice of the bucket and the lock"
BREAKS="hashmap_get looks into the wrong bucket and misses a key that is in the map"
EDITS=[(H,"	hashmap_enter(map);\n	int hash = hashKey(map, key);\n	size_t index = calculateIndex(map->bucketCount, hash);\n	Entry* entry = map->buckets[index];\n	void* ret = NULL;",
"	int hash = hashKey(map, key);\n	size_t index = calculateIndex(map->bucketCount, hash);\n	hashmap_enter(map);\n	Entry* entry = map->buckets[index];\n	void* ret = NULL;")]
DEMO=r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include "data/hashmap.h"
static hashmap_t *m;
static int armed;
static int hash(const void *k) { return (int)(intptr_t)k * 7919; }
static bool eq(const void *a, const void *b) { return a == b; }
/* the other thread wins the race for the lock */
static int acq(void *a) {
    if (armed) { armed = 0; for (intptr_t i = 100; i < 400; i++) hashmap_put(m, (void *)i, (void *)i); }
    return 0;
}
static int rel(void *a) { return 0; }
int main(void) {
    int bad = 0;
    hashmap_lock_t l = {NULL, acq, rel};
    for (intptr_t k = 1; k < 8; k++) {
        m = hashmap_create(4, hash, NULL, NULL, eq, &l);
        if (!m) return 2;
        hashmap_put(m, (void *)k, (void *)(k + 1));
        armed = 1;
        if (hashmap_get(m, (void *)k) != (void *)(k + 1)) { printf("%d lost\n", (int)k); bad = 1; }
        hashmap_free(m);
    }
    return bad;
}
'''
#----
ID="p07-log-callback-after-unlock"; PROP="P07"
NEEDS="two threads that log while a callback is set"
BREAKS="the callback is entered by two threads at once"
LDFLAGS=""
EDITS=[(X,"		if (is_log2usercb && g_xlog_cfg.cb_pack.cb)\n		{\n			g_xlog_cfg.cb_pack.cb(level, buffer_log, buffer_strlen + 1U, g_xlog_cfg.cb_pack.cb_user_data);\n		}\n	} while (0);\n	XLOG_UNLOCK();",
"		if (is_log2usercb && g_xlog_cfg.cb_pack.cb)\n		{\n			const xlog_cb_parcel_t cb_pack = g_xlog_cfg.cb_pack;\n			XLOG_UNLOCK();\n			cb_pack.cb(level, buffer_log, buffer_strlen + 1U, cb_pack.cb_user_data);\n			XLOG_LOCK();\n		}\n	} while (0);\n	XLOG_UNLOCK();")]
DEMO=r'''
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include "log/xlog.h"
static volatile int in, twice, calls;
static void cb(LogLevel l, const char *t, size_t n, void *u) {
    if (__sync_add_and_fetch(&in, 1) > 1) twice = 1;
    usleep(30000);
    __sync_sub_and_fetch(&in, 1);
    __sync_fetch_and_add(&calls, 1);
}
static void *th(void *a) { for (int i = 0; i < 4; i++) TLOGE("t", "hello %d", i); return NULL; }
int main(void) {
    pthread_t a, b;
    xlog_global_init();
    xlog_set_target(LOG_TARGET_USER_CALLBACK);
    xlog_set_user_callback(cb, NULL);
    if (pthread_create(&a, NULL, th, NULL) || pthread_create(&b, NULL, th, NULL)) return 2;
    pthread_join(a, NULL); pthread_join(b, NULL);
    xlog_global_cleanup();
    printf("%d %d\n", calls, twice);
    return calls == 8 ? twice : 2;
}
'''
#----
ID="p07-cache-compared-after-unlock"; PROP="P07"
NEEDS="another thread that renews the time cache between two uses of it by this thread"
BREAKS="the text carries the milliseconds of an older moment"
EDITS=[(C,"			bool update_millis = cache_p->tval.tv_usec != tval_p->tv_usec;\n			TIME_UTIL_RW_UNLOCK(&cache_p->rw_lock); // unlock rdlock\n			if (update_millis)","			TIME_UTIL_RW_UNLOCK(&cache_p->rw_lock); // unlock rdlock\n			if (cache_p->tval.tv_usec != tval_p->tv_usec)")]
LDFLAGS="-Wl,--wrap=gettimeofday -Wl,--wrap=pthread_rwlock_unlock"
DEMO=r'''
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <sys/time.h>
#include "time/time_util.h"
#include "lcu.h"
static struct timeval now;
static int armed;
int __wrap_gettimeofday(struct timeval *t, void *z) { *t = now; return 0; }
extern int __real_pthread_rwlock_unlock(pthread_rwlock_t *m);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
    int r = __real_pthread_rwlock_unlock(m);
    if (armed) { /* another thread runs now */
        char s[TIME_STR_SIZE];
        struct timeval keep = now;
        armed = 0;
        now.tv_sec++;
        time_util_get_time_str_current(s, 8);
        now = keep;
    }
    return r;
}
int main(void) {
    char a[TIME_STR_SIZE], b[TIME_STR_SIZE];
    lcu_global_init();
    now.tv_sec = 1700000000; now.tv_usec = 111000;
    time_util_get_time_str_current(a, 8);
    now.tv_usec = 222000;
    armed = 1;
    time_util_get_time_str_current(b, 8);
    printf("%s\n%s\n", a, b);
    return strcmp(a + strlen(a) - 4, ".111") || strcmp(b + strlen(b) - 4, ".222");
}
'''
#----
ID="p07-autocover-room-seen-before-lock"; PROP="P07"
NEEDS="another thread that fills the buffer between the look at its room and the lock"
BREAKS="too little of the old data is discarded and the new data is only written in part"
LDFLAGS=""
EDITS=[(A,"	AUTOCOVER_LOCK(buf_handle);\n\n	const uint32_t ring_available_write = RingBuffer_available_write(buf_handle->ring);","	const uint32_t ring_available_write = RingBuffer_available_write(buf_handle->ring);\n	AUTOCOVER_LOCK(buf_handle);\n")]
DEMO=r'''
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include "ring/autocover_buffer.h"
static auto_cover_buf_handle h;
static int armed;
static void quit(int s) { _exit(1); }
static int acq(void *a) {
    if (armed) { armed = 0; if (auto_cover_buf_write(h, "aaaaaaaaaaaaaa", 14) != 14) _exit(2); }
    return 0;
}
static int rel(void *a) { return 0; }
int main(void) {
    char t[16];
    auto_cover_buf_lock_t l = {NULL, acq, rel};
    signal(SIGABRT, quit);
    h = auto_cover_buf_create(16, &l);
    if (!h) return 2;
    armed = 1;
    int w = auto_cover_buf_write(h, "bbbbbbbb", 8);
    memset(t, 0, sizeof(t));
    int r = auto_cover_buf_read(h, 14, t, 8);
    printf("%d %d %.8s\n", w, r, t);
    return !(w == 8 && !memcmp(t, "bbbbbbbb", 8));
}
'''
#----
ID="p18-pool-locks-both-ways"; PROP="P18"
NEEDS="one thread that asks how many workers are busy while a worker takes a job"
BREAKS="the pool's mutex and the queue's mutex are taken in both orders: the two threads wait for each other forever"
EDITS=[(T,"		pthread_mutex_lock(&thpool_p->thcount_lock);\n		thpool_p->num_threads_working++;\n		pthread_mutex_unlock(&thpool_p->thcount_lock);\n\n		/* Read job from queue and execute it */\n		void (*func_buff)(void*);\n		void* arg_buff;\n		job* job_p = jobqueue_pull(&thpool_p->jobqueue);\n",
"		/* Read job from queue and execute it */\n		void (*func_buff)(void*);\n		void* arg_buff;\n		pthread_mutex_lock(&thpool_p->thcount_lock);\n		thpool_p->num_threads_working++;\n		job* job_p = jobqueue_pull(&thpool_p->jobqueue);\n		pthread_mutex_unlock(&thpool_p->thcount_lock);\n"),
(T,"int thpool_num_threads_working(thpool_* thpool_p){\n	return thpool_p->num_threads_working;","int thpool_num_threads_working(thpool_* thpool_p){\n	int n;\n	/* no job is taken meanwhile */\n	pthread_mutex_lock(&thpool_p->jobqueue.rwmutex);\n	pthread_mutex_lock(&thpool_p->thcount_lock);\n	n = thpool_p->num_threads_working;\n	pthread_mutex_unlock(&thpool_p->thcount_lock);\n	pthread_mutex_unlock(&thpool_p->jobqueue.rwmutex);\n	return n;")]
FILES={"lk.h":LK}
LDFLAGS=LKW
DEMO=r'''
#include "lk.h"
#include <unistd.h>
#include "thread/thpool.h"
static volatile int ran;
static void job(void *a) { __sync_fetch_and_add(&ran, 1); }
int main(void) {
    threadpool p = thpool_init(2);
    if (!p) return 2;
    for (int i = 0; i < 5; i++) {
        thpool_add_work(p, job, NULL);
        for (int k = 0; k < 300 && ran <= i && !lk_inverted; k++) usleep(10000);
        usleep(10000);
        if (!lk_inverted) thpool_num_threads_working(p);
    }
    _exit(lk_inverted ? 1 : ran == 5 ? 0 : 2);
}
'''
#----
ID="p18-deinit-joins-under-lock"; PROP="P18"
NEEDS="a file logger with a lock that its own worker needs too"
BREAKS="the worker is waited for while the logger's lock is held"
EDITS=[(F,"	if (handle->msg_queue)\n	{\n		msg_queue_handler_destroy(&(handle->msg_queue));\n	}","	FILE_LOGGER_LOCK(handle);\n	if (handle->msg_queue)\n	{\n		msg_queue_handler_destroy(&(handle->msg_queue));\n	}\n	FILE_LOGGER_UNLOCK(handle);")]
FILES={}
LDFLAGS="-Wl,--wrap=pthread_join"
DEMO=r'''
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "log/file_logger.h"
#include "lcu.h"
static int held, bad;
extern int __real_pthread_join(pthread_t t, void **r);
int __wrap_pthread_join(pthread_t t, void **r) { bad |= held; return __real_pthread_join(t, r); }
static int acq(void *a) { held = 1; return 0; }
static int rel(void *a) { held = 0; return 0; }
int main(void) {
    lcu_global_init();
    file_logger_cfg c; memset(&c, 0, sizeof(c));
    if (system("mkdir -p logs")) return 2;
    strcpy(c.log_folder_path, "./logs/"); strcpy(c.log_file_name_prefix, "p_");
    c.log_queue_size = 64;
    c.lock.acquire = acq; c.lock.release = rel;
    file_logger_handle h = file_logger_init(&c);
    if (!h) return 2;
    file_logger_log(h, "hello", 5);
    file_logger_deinit(&h);
    return bad;
}
'''
#----
ID="p18-log-under-cache-lock"; PROP="P18"
NEEDS="a clock that is set back"
BREAKS="the time cache logs while its lock is held, though the log takes that lock while it holds its own"
EDITS=[(C,'#include "time/time_util.h"\n','#include "time/time_util.h"\n#include "log/xlog.h"\n'),
(C,"				//printf(\"now write time cache: %s\\n\", str);\n","				if (cache_p->tval.tv_sec > tval_p->tv_sec)\n				{\n					__xlog_internal_print(LOG_LEVEL_WARN, \"TIME\", NULL, 0, \"clock went back to %s\", str);\n				}\n")]
FILES={"lk.h":LK}
LDFLAGS=LKW+" -Wl,--wrap=gettimeofday"
DEMO=r'''
#include "lk.h"
#include <unistd.h>
#include <sys/time.h>
#include "time/time_util.h"
#include "log/xlog.h"
#include "lcu.h"
static struct timeval now;
int __wrap_gettimeofday(struct timeval *t, void *z) { *t = now; return 0; }
int main(void) {
    char a[TIME_STR_SIZE];
    lcu_global_init();
    xlog_global_init();
    now.tv_sec = 1700000000; now.tv_usec = 111000;
    TLOGE("t", "hello");
    time_util_get_time_str_current(a, 8);
    now.tv_sec -= 3600;
    time_util_get_time_str_current(a, 8);
    _exit(lk_inverted);
}
'''

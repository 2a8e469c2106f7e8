T="src/thread/portable_thread_posix.c"; X="src/log/xlog.c"
#----
ID="p25-mutex-handle-of-failed-init"; PROP="P25"
NEEDS="pthread_mutex_init that fails (EAGAIN, ENOMEM)"
BREAKS="the handle still leads to the memory that was released"
EDITS=[(T,"	ret = pthread_mutex_init(&posix->id, mutex_attr);\n	if (0 == ret)\n	{\n		*mutex = posix;\n	}\n	else\n","	*mutex = posix;\n	ret = pthread_mutex_init(&posix->id, mutex_attr);\n	if (0 != ret)\n")]
LDFLAGS="-Wl,--wrap=pthread_mutex_init"
DEMO=r'''
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include "thread/portable_thread.h"
extern int __real_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
static int fail;
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return fail ? EAGAIN : __real_pthread_mutex_init(m, a); }
int main(void) {
    portable_mutex_t m = NULL;
    fail = 1;
    if (portable_mutex_init(&m, NULL) != EAGAIN) { puts("answer"); return 2; }
    if (m) { puts("a handle to nothing"); return 1; }
    fail = 0;
    if (portable_mutex_init(&m, NULL) || !m || portable_mutex_lock(&m) || portable_mutex_unlock(&m) || portable_mutex_destroy(&m) || m) return 2;
    return 0;
}
'''
#----
ID="p25-attributes-only-with-a-name"; PROP="P25"
NEEDS="a thread created with POSIX attributes and an empty name"
BREAKS="the attributes (stack size, detached, scheduling) are not used"
EDITS=[(T,"	ret = pthread_create(&posix->id, thread_attr ? thread_attr->platform_attr : NULL,\n		start_routine, arg);","	const int named = thread_attr && '\\0' != thread_attr->name[0];\n	ret = pthread_create(&posix->id, named ? thread_attr->platform_attr : NULL,\n		start_routine, arg);"),
(T,"		if (thread_attr && '\\0' != thread_attr->name[0])\n","		if (named)\n")]
DEMO=r'''
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include "thread/portable_thread.h"
static size_t size;
static void *run(void *a) {
    pthread_attr_t t;
    pthread_getattr_np(pthread_self(), &t);
    pthread_attr_getstacksize(&t, &size);
    pthread_attr_destroy(&t);
    return a;
}
int main(void) {
    int bad = 0;
    for (int k = 0; k < 2; k++) {
        portable_thread_attr_t a;
        pthread_attr_t p;
        portable_thread_t th;
        void *r = NULL;
        memset(&a, 0, sizeof a);
        if (k) strcpy(a.name, "named");
        pthread_attr_init(&p);
        pthread_attr_setstacksize(&p, 3 << 20);
        a.platform_attr = &p;
        if (portable_thread_create(&th, &a, run, &bad) || portable_thread_join(th, &r) || r != &bad) return 2;
        pthread_attr_destroy(&p);
        if (size > (4 << 20)) { printf("stack of %zu bytes\n", size); bad = 1; }
    }
    return bad;
}
'''
#----
ID="p25-null-result-not-passed-on"; PROP="P25"
NEEDS="a thread that returns NULL, joined with a variable that holds something else"
BREAKS="portable_thread_join leaves the old value in place of the thread's result"
EDITS=[(T,"	ret = pthread_join(posix->id, thread_return);\n","	void* result = NULL;\n	ret = pthread_join(posix->id, &result);\n	if (thread_return && result)\n	{\n		*thread_return = result;\n	}\n")]
DEMO=r'''
#include <stdio.h>
#include "thread/portable_thread.h"
static void *run(void *a) { return a; }
int main(void) {
    int bad = 0;
    void *given[] = {NULL, &bad};
    for (int k = 0; k < 2; k++) {
        portable_thread_t th;
        void *r = given;
        if (portable_thread_create(&th, NULL, run, given[k]) || portable_thread_join(th, &r)) return 2;
        if (r != given[k]) { printf("result %d\n", k); bad = 1; }
    }
    return bad;
}
'''
#----
ID="p25-busy-object-not-released"; PROP="P25"
NEEDS="destroying a read/write lock that POSIX says is still held"
BREAKS="the handle and its memory stay although the handle was destroyed: a later use of it is not refused, and the memory leaks"
EDITS=[(T,"	ret = pthread_rwlock_destroy(&posix->id);\n	free(posix);\n	*lock = NULL;\n	return ret;","	ret = pthread_rwlock_destroy(&posix->id);\n	if (0 != ret)\n	{\n		return ret;\n	}\n	free(posix);\n	*lock = NULL;\n	return ret;")]
LDFLAGS="-Wl,--wrap=pthread_rwlock_destroy"
DEMO=r'''
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include "thread/portable_thread.h"
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) { return EBUSY; }
int main(void) {
    portable_rwlock_t l = NULL;
    if (portable_rwlock_init(&l, NULL) || portable_rwlock_rdlock(&l)) return 2;
    if (portable_rwlock_destroy(&l) != EBUSY) { puts("answer"); return 2; }
    if (l || portable_rwlock_unlock(&l) != -1) { puts("the handle is still there"); return 1; }
    return 0;
}
'''
#----
ID="p21-exact-fit-cut"; PROP="P21"
NEEDS="a message that is exactly as long as the room behind the header"
BREAKS="the last character of the message is lost, and the size told to the callback is that of the whole text"
EDITS=[(X,"		if (ret_vsn < (int)default_buffer_remaining_size)","		if (ret_vsn <= (int)default_buffer_remaining_size)")]
DEMO=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "log/xlog.h"
static int bad, want;
static void cb(LogLevel l, void *m, size_t n, void *u) {
    size_t len = strlen((char *)m);
    if (len + 1 != n || (int)len < want || ((char *)m)[len - 1] != '$') { printf("%d: %zu %zu\n", want, len, n); bad = 1; }
}
int main(void) {
    static char s[3000];
    xlog_set_target(LOG_TARGET_USER_CALLBACK);
    xlog_set_user_callback(cb, NULL);
    for (int f = 0; f < 16; f += 2) {
        xlog_set_format(f);
        for (want = 1; want < 2500; want++) {
            memset(s, 'a', want);
            s[want - 1] = '$';
            s[want] = 0;
            TLOGE("tag", "%s", s);
        }
    }
    return bad;
}
'''
#----
ID="p21-target-before-callback"; PROP="P21"
NEEDS="the callback target set before the callback is"
BREAKS="the callback is never called although both are set"
EDITS=[(X,"	g_xlog_cfg.cache_tgt.log2usercb = XLOG_IS_USER_CALLBACK_LOGABLE;","	g_xlog_cfg.cache_tgt.log2usercb = XLOG_IS_USER_CALLBACK_LOGABLE && NULL != g_xlog_cfg.cb_pack.cb;")]
DEMO=r'''
#include <stdio.h>
#include "log/xlog.h"
static int calls;
static void cb(LogLevel l, void *m, size_t n, void *u) { ++*(int *)u; }
int main(void) {
    xlog_set_target(LOG_TARGET_USER_CALLBACK);
    xlog_set_user_callback(cb, &calls);
    TLOGE("tag", "one");
    xlog_set_user_callback(NULL, NULL);
    TLOGE("tag", "two");
    xlog_set_user_callback(cb, &calls);
    xlog_set_target(LOG_TARGET_USER_CALLBACK);
    TLOGE("tag", "three");
    if (calls != 2) { printf("%d calls\n", calls); return 1; }
    return 0;
}
'''
#----
ID="p21-level-up-only-on-console"; PROP="P21"
NEEDS="an automatic level, and the callback as the only target"
BREAKS="the callback is told the message's own level instead of the automatic one"
EDITS=[(X,"		if (g_xlog_cfg.trigger_up_level && level < g_xlog_cfg.trigger_up_level)","		if (is_log2console && g_xlog_cfg.trigger_up_level && level < g_xlog_cfg.trigger_up_level)")]
DEMO=r'''
#include <stdio.h>
#include "log/xlog.h"
static LogLevel last;
static void cb(LogLevel l, void *m, size_t n, void *u) { last = l; }
int main(void) {
    int bad = 0;
    xlog_set_user_callback(cb, NULL);
    for (int t = LOG_TARGET_USER_CALLBACK; t <= (LOG_TARGET_USER_CALLBACK | LOG_TARGET_CONSOLE); t += LOG_TARGET_CONSOLE) {
        xlog_set_target(t);
        xlog_auto_level_up(LOG_LEVEL_WARN);
        TLOGI("tag", "low");
        if (last != LOG_LEVEL_WARN) { printf("target %d: %d\n", t, last); bad = 1; }
        TLOGE("tag", "high");
        if (last != LOG_LEVEL_ERROR) { printf("target %d: %d\n", t, last); bad = 1; }
        xlog_auto_level_up(LOG_LEVEL_OFF);
        TLOGI("tag", "low");
        if (last != LOG_LEVEL_INFO) { printf("target %d: %d\n", t, last); bad = 1; }
    }
    return bad;
}
'''
#----
ID="p21-flush-only-what-is-redirected"; PROP="P21"
NEEDS="the flush mode for every message, stdout not redirected by xlog, and a stdout that is not a terminal"
BREAKS="messages stay in the buffer of stdout (and are lost in a crash) although each one should be flushed"
EDITS=[(X,"			if (g_xlog_cfg.flush_mode)\n			{\n				fflush(g_xlog_cfg.fp_out ? g_xlog_cfg.fp_out : stdout);","			if (g_xlog_cfg.flush_mode && g_xlog_cfg.fp_out)\n			{\n				fflush(g_xlog_cfg.fp_out);")]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include "log/xlog.h"
int main(void) {
    int p[2], st;
    char s[256] = "";
    if (pipe(p)) return 2;
    pid_t c = fork();
    if (c < 0) return 2;
    if (!c) {
        dup2(p[1], 1);
        xlog_set_target(LOG_TARGET_CONSOLE);
        xlog_set_flush_mode(LOG_FLUSH_MODE_EVERY);
        TLOGE("tag", "the last words");
        _exit(0);
    }
    close(p[1]);
    for (size_t n = 0; n < sizeof s - 1;) {
        ssize_t r = read(p[0], s + n, sizeof s - 1 - n);
        if (r <= 0) break;
        n += r;
    }
    waitpid(c, &st, 0);
    if (!strstr(s, "the last words")) { fprintf(stderr, "lost\n"); return 1; }
    return 0;
}
'''
